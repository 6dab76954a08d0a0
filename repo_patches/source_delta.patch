From 4233f7d721345de4dd392b40ddbfa9d14babafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:54 +0000
Subject: [PATCH 01/72] fix: long message's last segment carries the tail of
 the content, not its head

---
 utils/utils.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/utils.go b/utils/utils.go
index 9867d88..8c3d2d0 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -199,6 +199,9 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 	tailLen := len(content) % bodyLen
 	if tailLen != 0 {
 		parts++
+	} else {
+		// 恰好整除时，最后一片是完整的一片
+		tailLen = bodyLen
 	}
 	// 分片消息组的标识，用于收集组装消息
 	groupId := byte(time.Now().UnixNano() & 0xff)
@@ -216,7 +219,7 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 		if i != parts-1 {
 			copy(part[6:pkgLen], content[bodyLen*i:bodyLen*(i+1)])
 		} else {
-			copy(part[6:], content[0:tailLen])
+			copy(part[6:], content[bodyLen*i:])
 		}
 		rt = append(rt, part)
 	}
-- 
2.43.0


From df168c6dc9ed66bcc6d464de157c679a759025b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:56 +0000
Subject: [PATCH 02/72] fix: cycle sequence keeps datacenter and worker bits
 inside int32

---
 utils/cycle_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cycle_sequence.go b/utils/cycle_sequence.go
index 66d1294..de2581b 100644
--- a/utils/cycle_sequence.go
+++ b/utils/cycle_sequence.go
@@ -18,7 +18,7 @@ type CycleSequence struct {
 const (
 	sequenceMask    = int32(0x03ffffff)         // 最大值为26个1
 	workerBits      = uint(3)                   // 机器id所占位数
-	sequenceBits    = uint(28)                  // 序列所占的位数
+	sequenceBits    = uint(26)                  // 序列所占的位数
 	workerShift     = sequenceBits              // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits // 数据中心id左移位数
 )
-- 
2.43.0


From 5ab96cbd1caf0e852f8c356ec50dc9039b8f9bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:58 +0000
Subject: [PATCH 03/72] fix: TLV reader reads whole values and reports
 truncated objects

---
 utils/tlv.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/utils/tlv.go b/utils/tlv.go
index 82059d5..2cf8652 100644
--- a/utils/tlv.go
+++ b/utils/tlv.go
@@ -104,17 +104,22 @@ func ReadObject(r io.Reader) (TLV, error) {
 
 	var length uint16
 	err = binary.Read(r, binary.BigEndian, &length)
+	if err == io.EOF {
+		// 只读到Type就结束，不是正常的列表结尾
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return nil, err
 	}
 	tlv.len = length
 
+	// Reader可能分多次返回数据，必须读满Length个字节
 	tlv.val = make([]byte, tlv.Length())
-	l, err := r.Read(tlv.val)
-	if err != nil {
-		return nil, err
-	} else if uint16(l) != tlv.Length() {
+	_, err = io.ReadFull(r, tlv.val)
+	if err == io.EOF || err == io.ErrUnexpectedEOF {
 		return tlv, ErrTLVRead
+	} else if err != nil {
+		return nil, err
 	}
 
 	return tlv, nil
-- 
2.43.0


From bb21f672e675afe1acda72441aa52c590fef7532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:01 +0000
Subject: [PATCH 04/72] fix: RandNum does not panic on an empty range

---
 utils/utils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index 8c3d2d0..c27aea0 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -227,6 +227,9 @@ func ToTPUDHISlices(content []byte, pkgLen int) (rt [][]byte) {
 }
 
 func RandNum(min, max int) int {
+	if max <= min {
+		return min
+	}
 	return rand.Intn(max-min) + min
 }
 
-- 
2.43.0


From fcf1c7663f8fcaa72a7e8f942b4a16fcb0b66845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 05/72] fix: snowflake ids stay unique when the clock steps
 back

---
 utils/snowflake/snowflake.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/snowflake/snowflake.go b/utils/snowflake/snowflake.go
index fb92cc3..f9161a1 100644
--- a/utils/snowflake/snowflake.go
+++ b/utils/snowflake/snowflake.go
@@ -36,10 +36,16 @@ func (s *Snowflake) NextVal() int64 {
 	s.Lock()
 	defer s.Unlock()
 	now := time.Now().UnixNano() / 1000000 // 转毫秒
-	if s.timestamp == now {
+	if s.timestamp >= now {
+		behind := s.timestamp > now // 时钟回拨
+		now = s.timestamp
 		// 当同一时间戳（精度：毫秒）下多次生成id会增加序列号
 		s.sequence = (s.sequence + 1) & sequenceMask
 		if s.sequence == 0 {
+			if behind {
+				// 时钟回拨期间不等待，直接借用下一毫秒
+				now = s.timestamp + 1
+			}
 			// 如果当前序列超出12bit长度，则需要等待下一毫秒
 			// 下一毫秒将使用sequence:0
 			for now <= s.timestamp {
-- 
2.43.0


From 34b7cf48ecfb8e09681f325e05e0a92f92e4f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:05 +0000
Subject: [PATCH 06/72] fix: snowflake32 survives midnight and backward clock
 steps without stalls or duplicates

---
 utils/snowflake32/snowflake32.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/utils/snowflake32/snowflake32.go b/utils/snowflake32/snowflake32.go
index 1e8c2f9..47a4417 100644
--- a/utils/snowflake32/snowflake32.go
+++ b/utils/snowflake32/snowflake32.go
@@ -16,6 +16,7 @@ type Snowflake struct {
 	datacenter int32 // 数据中心机房id, 取值范围范围：0-4
 	worker     int32 // 工作节点, 取值范围范围：0-8
 	sequence   int32 // 序列号
+	last       int64 // 最近一次使用的绝对秒数，用于识别跨日与时钟回拨
 }
 
 const (
@@ -26,6 +27,7 @@ const (
 	workerShift     = sequenceBits                               // 机器id左移位数
 	datacenterShift = sequenceBits + workerBits                  // 数据中心id左移位数
 	timestampShift  = sequenceBits + workerBits + datacenterBits // 时间戳左移位数
+	secondsPerDay   = int64(86400)                               // 一天的秒数
 )
 
 // NewSnowflake d for datacenter-id, w for worker-id
@@ -36,23 +38,30 @@ func NewSnowflake(d int32, w int32) *Snowflake {
 func (s *Snowflake) NextVal() int32 {
 	s.Lock()
 	defer s.Unlock()
-	now := passedSeconds() // 获得当前秒
-	if s.seconds == now {
+	now := localSeconds() // 获得当前秒
+	if s.last >= now {
+		behind := s.last > now // 时钟回拨
+		now = s.last
 		// 当同一时间戳（精度：秒）下次生成id会增加序列号
 		s.sequence = (s.sequence + 1) & sequenceMask
 		if s.sequence == 0 {
 			// 如果当前序列超出9bit长度，则需要等待下一秒
 			// 下一秒将使用sequence:0
-			for now <= s.seconds {
+			if behind {
+				// 时钟回拨期间不等待，直接借用下一秒
+				now = s.last + 1
+			}
+			for now <= s.last {
 				time.Sleep(time.Microsecond)
-				now = passedSeconds()
+				now = localSeconds()
 			}
 		}
 	} else {
 		// 不同时间戳（精度：秒）下直接使用序列号：0
 		s.sequence = 0
 	}
-	s.seconds = now
+	s.last = now
+	s.seconds = int32(now % secondsPerDay)
 	r := (s.seconds << timestampShift) | (s.datacenter << datacenterShift) | (s.worker << workerShift) | (s.sequence)
 	return r
 }
@@ -86,7 +95,9 @@ func (s *Snowflake) Sequence() int32 {
 	return s.sequence
 }
 
-func passedSeconds() int32 {
+// localSeconds 返回本地时间的绝对秒数，对一天取模即为截止到午夜0点的秒数
+func localSeconds() int64 {
 	t := time.Now()
-	return int32(t.Hour()*3600 + t.Minute()*60 + t.Second())
+	_, offset := t.Zone()
+	return t.Unix() + int64(offset)
 }
-- 
2.43.0


From dd89dc3cc185a32748835424b430e7521c648618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:20 +0000
Subject: [PATCH 07/72] fix: BCD message ids stay unique within a minute when
 the clock steps back

---
 utils/bcd_sequence.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/utils/bcd_sequence.go b/utils/bcd_sequence.go
index 3ec71ba..dfc663b 100644
--- a/utils/bcd_sequence.go
+++ b/utils/bcd_sequence.go
@@ -38,17 +38,13 @@ func (tf *BcdSequence) NextVal() []byte {
 	tf.Lock()
 	defer tf.Unlock()
 	mi := time.Now().Format("01021504")
-	if tf.timestamp == mi {
-		// 超过每分钟telSeqMax后序号会重复
-		tf.sequence = (tf.sequence + 1) % telSeqMax
-	} else {
-		tf.sequence = 0
-	}
 	tf.timestamp = mi
 	seq := make([]byte, 10)
 	copy(seq[0:3], tf.worker)
 	copy(seq[3:7], StoBcd(tf.timestamp))
 	copy(seq[7:10], StoBcd(IntToFixStr(int64(tf.sequence), 6)))
+	// 循环使用，跨分钟（或时钟回拨）也不归零，超过每分钟telSeqMax后序号才会重复
+	tf.sequence = (tf.sequence + 1) % telSeqMax
 	return seq
 }
 
-- 
2.43.0


From a233c41e45a15456bc041778ecb1f9392bbe0d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:49 +0000
Subject: [PATCH 08/72] fix: 32-bit sequences take their node ids from
 Snowflake.B32, not B64

---
 msc_client/bootstrap.go | 4 ++--
 msc_server/bootstrap.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/bootstrap.go b/msc_client/bootstrap.go
index 8553c5b..01a43cf 100644
--- a/msc_client/bootstrap.go
+++ b/msc_client/bootstrap.go
@@ -120,8 +120,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
diff --git a/msc_server/bootstrap.go b/msc_server/bootstrap.go
index 938ac38..781b61f 100644
--- a/msc_server/bootstrap.go
+++ b/msc_server/bootstrap.go
@@ -112,8 +112,8 @@ func logInit() {
 func SeqInit() {
 	var b64dc = ConfigYml.GetInt64("Snowflake.B64.DC")
 	var b64worker = ConfigYml.GetInt64("Snowflake.B64.worker")
-	var b32dc = ConfigYml.GetInt64("Snowflake.B64.DC")
-	var b32worker = ConfigYml.GetInt64("Snowflake.B64.worker")
+	var b32dc = ConfigYml.GetInt64("Snowflake.B32.DC")
+	var b32worker = ConfigYml.GetInt64("Snowflake.B32.worker")
 	var bcd = ConfigYml.GetString("Snowflake.BCD")
 	var node = ConfigYml.GetInt32("Snowflake.SGIP")
 
-- 
2.43.0


From eab473c01f5271fa1d53ff8a31e34fa60cccd713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:51 +0000
Subject: [PATCH 09/72] fix: SGIP sequence numbers of workers 0 and 31 no
 longer collide

---
 codec/sgip/sequence.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codec/sgip/sequence.go b/codec/sgip/sequence.go
index d5be828..09e52d8 100644
--- a/codec/sgip/sequence.go
+++ b/codec/sgip/sequence.go
@@ -27,7 +27,8 @@ func NewSequencer(node, worker uint32) *sequence {
 func (s *sequence) NextVal() (rs []uint32) {
 	s.Lock()
 	defer s.Unlock()
-	s.sequence = (s.sequence + 0x1f) & 0xffffffff
+	// 步长必须大于节点数（32个：0-31），否则0号与31号节点的序号会重复
+	s.sequence = (s.sequence + 2*0x1f) & 0xffffffff
 	now := time.Now()
 
 	rs = make([]uint32, 3)
-- 
2.43.0


From b3d9457eb57620bc6ef1b0d3aec65f3406de9d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:42 +0000
Subject: [PATCH 10/72] fix: decoders reject short frames instead of reading
 past them

---
 codec/cmpp/connect.go  |  6 ++++++
 codec/cmpp/delivery.go | 18 ++++++++++++++++++
 codec/cmpp/header.go   |  3 +++
 codec/cmpp/report.go   |  6 ++++++
 codec/cmpp/submit.go   | 23 ++++++++++++++++++++++-
 codec/packer.go        |  4 ++++
 codec/sgip/bind.go     |  6 ++++++
 codec/sgip/deliver.go  |  9 +++++++++
 codec/sgip/header.go   |  5 ++++-
 codec/sgip/report.go   |  8 +++++++-
 codec/sgip/submit.go   | 15 ++++++++++++++-
 codec/sgip/unbind.go   |  6 ++++++
 codec/smgp/deliver.go  | 12 ++++++++++++
 codec/smgp/header.go   |  3 +++
 codec/smgp/login.go    |  6 ++++++
 codec/smgp/report.go   |  8 ++++++++
 codec/smgp/submit.go   | 15 ++++++++++++++-
 17 files changed, 148 insertions(+), 5 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index 1ea9cbc..f85a203 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -71,6 +71,9 @@ func (c *Connect) Decode(seq uint32, frame []byte) error {
 	c.TotalLength = ConnectPktLen
 	c.CommandId = CMPP_CONNECT
 	c.SequenceId = seq
+	if len(frame) < 27 {
+		return codec.ErrShortFrame
+	}
 	c.sourceAddr = utils.TrimStr(frame[0:6])
 	c.authenticatorSource = frame[6:22]
 	c.Version = Version(frame[22])
@@ -175,6 +178,9 @@ func (r *ConnectResp) Decode(seq uint32, frame []byte) error {
 	r.CommandId = CMPP_CONNECT_RESP
 	r.SequenceId = seq
 
+	if len(frame) < int(r.TotalLength-codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	var index int
 	if V30.MajorMatchV(r.Version) {
 		index += 3
diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 9ac61e5..5e7c19d 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -102,6 +102,14 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.TotalLength = codec.HeadLen + uint32(len(frame))
 	d.CommandId = CMPP_DELIVER
 	d.SequenceId = seq
+	// 消息内容之前的定长部分、消息内容之后的定长部分
+	fixLen, tailLen := 65, 8
+	if V30.MajorMatchV(d.Version) {
+		fixLen, tailLen = 77, 20
+	}
+	if len(frame) < fixLen {
+		return codec.ErrShortFrame
+	}
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
 	d.destId = utils.TrimStr(frame[29:39])
@@ -123,6 +131,9 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.msgLength = frame[index]
 	index++
 	l := int(d.msgLength)
+	if len(frame) < index+l+tailLen {
+		return codec.ErrShortFrame
+	}
 	if d.registeredDelivery == 1 {
 		rpt := &Report{}
 		err := rpt.Decode(frame[index : index+l])
@@ -285,6 +296,13 @@ func (r *DeliveryRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_DELIVER_RESP
 	r.SequenceId = seq
+	fixLen := 9
+	if V30.MajorMatchV(r.Version) {
+		fixLen = 12
+	}
+	if len(frame) < fixLen {
+		return codec.ErrShortFrame
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = DlyResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/cmpp/header.go b/codec/cmpp/header.go
index a9fe33d..45648c8 100644
--- a/codec/cmpp/header.go
+++ b/codec/cmpp/header.go
@@ -26,6 +26,9 @@ func (header *MessageHeader) Encode() []byte {
 }
 
 func (header *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	header.TotalLength = binary.BigEndian.Uint32(frame[0:4])
 	header.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	header.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/cmpp/report.go b/codec/cmpp/report.go
index 57c2d2b..989ef22 100644
--- a/codec/cmpp/report.go
+++ b/codec/cmpp/report.go
@@ -18,6 +18,9 @@ type Report struct {
 }
 
 func (rt *Report) String() string {
+	if rt == nil {
+		return ""
+	}
 	return fmt.Sprintf("%x %-7s %-10s %-10s %-21s %d", rt.msgId, rt.stat, rt.submitTime, rt.doneTime, rt.destTerminalId, rt.smscSequence)
 }
 
@@ -64,6 +67,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < 60 {
+		return codec.ErrShortFrame
+	}
 	rt.msgId = binary.BigEndian.Uint64(frame[0:8])
 	rt.stat = utils.TrimStr(frame[8:15])
 	rt.submitTime = utils.TrimStr(frame[15:25])
diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 5d131a6..4dcaad1 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -164,6 +164,14 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.TotalLength = codec.HeadLen + uint32(len(frame))
 	s.CommandId = CMPP_SUBMIT
 	s.SequenceId = seq
+	// 接收号码之前的定长部分、消息内容之后的定长部分
+	fixLen, tailLen := 117, 8
+	if V30.MajorMatchV(s.Version) {
+		fixLen, tailLen = 129, 20
+	}
+	if len(frame) < fixLen {
+		return codec.ErrShortFrame
+	}
 	// msgId uint64
 	index := 8
 	s.pkTotal = frame[index]
@@ -211,6 +219,9 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
+	if len(frame) < index+l+1+tailLen {
+		return codec.ErrShortFrame
+	}
 	s.termIds = frame[index : index+l]
 	index += l
 	if V30.MajorMatchV(s.Version) {
@@ -221,9 +232,12 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.destTerminalId = utils.TrimStr(s.termIds)
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < index+int(s.msgLength)+tailLen {
+		return codec.ErrShortFrame
+	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.msgContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -297,6 +311,13 @@ func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
 	r.TotalLength = codec.HeadLen + uint32(len(frame))
 	r.CommandId = CMPP_SUBMIT_RESP
 	r.SequenceId = seq
+	fixLen := 9
+	if V30.MajorMatchV(r.Version) {
+		fixLen = 12
+	}
+	if len(frame) < fixLen {
+		return codec.ErrShortFrame
+	}
 	r.msgId = binary.BigEndian.Uint64(frame[0:8])
 	if V30.MajorMatchV(r.Version) {
 		r.result = MtResult(binary.BigEndian.Uint32(frame[8:12]))
diff --git a/codec/packer.go b/codec/packer.go
index 35bf4ff..b16dcca 100644
--- a/codec/packer.go
+++ b/codec/packer.go
@@ -2,6 +2,7 @@ package codec
 
 import (
 	"encoding/binary"
+	"errors"
 
 	"github.com/hrygo/log"
 )
@@ -14,6 +15,9 @@ const (
 	PacketMax        = 5120
 )
 
+// ErrShortFrame 报文长度不足，无法解析
+var ErrShortFrame = errors.New("frame is too short")
+
 type Operation interface {
 	ToInt() uint32
 	OpLog() log.Field
diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index 7639e50..b7c2826 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -50,6 +50,9 @@ func (b *Bind) Decode(cid uint32, frame []byte) error {
 	b.CommandId = SGIP_BIND
 	b.SequenceNumber = make([]uint32, 3)
 	b.SequenceNumber[0] = cid
+	if len(frame) < 41 {
+		return codec.ErrShortFrame
+	}
 	index := 0
 	b.SequenceNumber[1] = binary.BigEndian.Uint32(frame[index : index+4])
 	index += 4
@@ -108,6 +111,9 @@ func (r *BindRsp) Decode(cid uint32, frame []byte) error {
 	r.CommandId = SGIP_BIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	index := 0
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[index : index+4])
 	index += 4
diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index a8c26c4..5c7ba5b 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -82,6 +82,9 @@ func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	d.CommandId = SGIP_DELIVER
 	d.SequenceNumber = make([]uint32, 3)
 	d.SequenceNumber[0] = cid
+	if len(frame) < 57 {
+		return codec.ErrShortFrame
+	}
 	index := 0
 	d.SequenceNumber[1] = binary.BigEndian.Uint32(frame[index:])
 	index += 4
@@ -99,6 +102,9 @@ func (d *Deliver) Decode(cid uint32, frame []byte) error {
 	index++
 	d.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)) < uint64(index)+uint64(d.MessageLength)+8 {
+		return codec.ErrShortFrame
+	}
 	d.MessageContent = frame[index : index+int(d.MessageLength)]
 	index += int(d.MessageLength)
 	d.Reserve = ""
@@ -144,6 +150,9 @@ func (r *DeliverRsp) Decode(cid uint32, frame []byte) error {
 	r.CommandId = SGIP_DELIVER_RESP
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
 	r.SequenceNumber[2] = binary.BigEndian.Uint32(frame[4:8])
 	r.Status = Status(frame[8])
diff --git a/codec/sgip/header.go b/codec/sgip/header.go
index 140270f..953fc17 100644
--- a/codec/sgip/header.go
+++ b/codec/sgip/header.go
@@ -30,9 +30,12 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	h.SequenceNumber = make([]uint32, 3)
+	if len(frame) < int(codec.HeadLen)+8 {
+		return codec.ErrShortFrame
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.CommandId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
-	h.SequenceNumber = make([]uint32, 3)
 	h.SequenceNumber[0] = binary.BigEndian.Uint32(frame[8:12])
 	h.SequenceNumber[1] = binary.BigEndian.Uint32(frame[12:16])
 	h.SequenceNumber[2] = binary.BigEndian.Uint32(frame[16:20])
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 36ed683..40ce6ba 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -58,12 +58,15 @@ func (r *Report) Decode(cid uint32, frame []byte) error {
 	r.CommandId = SGIP_REPORT
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
+	r.MtSequence = make([]uint32, 3)
+	if len(frame) < 44 {
+		return codec.ErrShortFrame
+	}
 	index := 0
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[index:])
 	index += 4
 	r.SequenceNumber[2] = binary.BigEndian.Uint32(frame[index:])
 	index += 4
-	r.MtSequence = make([]uint32, 3)
 	r.MtSequence[0] = binary.BigEndian.Uint32(frame[index:])
 	index += 4
 	r.MtSequence[1] = binary.BigEndian.Uint32(frame[index:])
@@ -113,6 +116,9 @@ func (r *ReportRsp) Decode(cid uint32, frame []byte) error {
 	r.CommandId = SGIP_REPORT_RESP
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
 	r.SequenceNumber[2] = binary.BigEndian.Uint32(frame[4:8])
 	r.Status = Status(frame[8])
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 9c3ddf6..3ab9c5e 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -152,6 +152,9 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	s.CommandId = SGIP_SUBMIT
 	s.SequenceNumber = make([]uint32, 3)
 	s.SequenceNumber[0] = cid
+	if len(frame) < 51 {
+		return codec.ErrShortFrame
+	}
 	index := 0
 	s.SequenceNumber[1] = binary.BigEndian.Uint32(frame[index:])
 	index += 4
@@ -163,6 +166,10 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index += 21
 	s.UserCount = frame[index]
 	index++
+	// 接收号码之后、消息内容之前的定长部分72字节，消息内容之后的保留字段8字节
+	if len(frame) < index+int(s.UserCount)*21+72+8 {
+		return codec.ErrShortFrame
+	}
 	s.UserNumber = make([]string, s.UserCount)
 	for i := 0; i < int(s.UserCount); i++ {
 		s.UserNumber[i] = utils.TrimStr(frame[index : index+21])
@@ -200,9 +207,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	index++
 	s.MessageLength = binary.BigEndian.Uint32(frame[index:])
 	index += 4
+	if uint64(len(frame)) < uint64(index)+uint64(s.MessageLength)+8 {
+		return codec.ErrShortFrame
+	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
 	}
@@ -304,6 +314,9 @@ func (r *SubmitRsp) Decode(cid uint32, frame []byte) error {
 	r.CommandId = SGIP_SUBMIT_RESP
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
+	if len(frame) < 9 {
+		return codec.ErrShortFrame
+	}
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
 	r.SequenceNumber[2] = binary.BigEndian.Uint32(frame[4:8])
 	r.Status = Status(frame[8])
diff --git a/codec/sgip/unbind.go b/codec/sgip/unbind.go
index b625bf9..7570870 100644
--- a/codec/sgip/unbind.go
+++ b/codec/sgip/unbind.go
@@ -25,6 +25,9 @@ func (u *Unbind) Decode(cid uint32, frame []byte) error {
 	u.CommandId = SGIP_UNBIND
 	u.SequenceNumber = make([]uint32, 3)
 	u.SequenceNumber[0] = cid
+	if len(frame) < 8 {
+		return codec.ErrShortFrame
+	}
 	u.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
 	u.SequenceNumber[2] = binary.BigEndian.Uint32(frame[4:8])
 	return nil
@@ -55,6 +58,9 @@ func (r *UnbindRsp) Decode(cid uint32, frame []byte) error {
 	r.CommandId = SGIP_UNBIND_RESP
 	r.SequenceNumber = make([]uint32, 3)
 	r.SequenceNumber[0] = cid
+	if len(frame) < 8 {
+		return codec.ErrShortFrame
+	}
 	r.SequenceNumber[1] = binary.BigEndian.Uint32(frame[0:4])
 	r.SequenceNumber[2] = binary.BigEndian.Uint32(frame[4:8])
 	return nil
diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 3040ca7..b5c95a6 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -112,6 +112,9 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	d.PacketLength = codec.HeadLen + uint32(len(frame))
 	d.RequestId = SMGP_DELIVER
 	d.SequenceId = seq
+	if len(frame) < 69 {
+		return codec.ErrShortFrame
+	}
 	var index int
 	d.msgId = frame[index : index+10]
 	index += 10
@@ -127,7 +130,13 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	index += 21
 	d.msgLength = frame[index]
 	index += 1
+	if len(frame) < index+int(d.msgLength)+8 {
+		return codec.ErrShortFrame
+	}
 	if d.IsReport() {
+		if len(frame) < index+RptLen {
+			return codec.ErrShortFrame
+		}
 		d.report = &Report{}
 		err := d.report.Decode(frame[index : index+RptLen])
 		if err != nil {
@@ -216,6 +225,9 @@ func (r *DeliverRsp) Decode(seq uint32, frame []byte) error {
 	r.RequestId = SMGP_DELIVER_RESP
 	r.SequenceId = seq
 	r.msgId = make([]byte, 10)
+	if len(frame) < 14 {
+		return codec.ErrShortFrame
+	}
 	copy(r.msgId, frame[0:10])
 	r.status = Status(binary.BigEndian.Uint32(frame[10:14]))
 	return nil
diff --git a/codec/smgp/header.go b/codec/smgp/header.go
index 1d65812..6f55a31 100644
--- a/codec/smgp/header.go
+++ b/codec/smgp/header.go
@@ -27,6 +27,9 @@ func (h *MessageHeader) Encode() []byte {
 }
 
 func (h *MessageHeader) Decode(frame []byte) error {
+	if len(frame) < int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	h.PacketLength = binary.BigEndian.Uint32(frame[0:4])
 	h.RequestId = CommandId(binary.BigEndian.Uint32(frame[4:8]))
 	h.SequenceId = binary.BigEndian.Uint32(frame[8:12])
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 8fa8b9e..895e9c0 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -73,6 +73,9 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	l.PacketLength = codec.HeadLen + uint32(len(frame))
 	l.RequestId = SMGP_LOGIN
 	l.SequenceId = seq
+	if len(frame) < LoginLen-int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	l.clientID = string(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
@@ -167,6 +170,9 @@ func (r *LoginRsp) Decode(seq uint32, frame []byte) error {
 	r.PacketLength = codec.HeadLen + uint32(len(frame))
 	r.RequestId = SMGP_LOGIN_RESP
 	r.SequenceId = seq
+	if len(frame) < LoginRespLen-int(codec.HeadLen) {
+		return codec.ErrShortFrame
+	}
 	var index int
 	r.status = Status(binary.BigEndian.Uint32(frame[0 : index+4]))
 	index = 4
diff --git a/codec/smgp/report.go b/codec/smgp/report.go
index 863f387..37adeed 100644
--- a/codec/smgp/report.go
+++ b/codec/smgp/report.go
@@ -3,6 +3,8 @@ package smgp
 import (
 	"fmt"
 	"time"
+
+	"github.com/hrygo/gosms/codec"
 )
 
 type Report struct {
@@ -65,6 +67,9 @@ func NewReport(id []byte) *Report {
 }
 
 func (rt *Report) String() string {
+	if rt == nil {
+		return ""
+	}
 	return fmt.Sprintf("id:%x sub:%s dlvrd:%s submit date:%s done date:%s stat:%s err:%s text:%x",
 		rt.id, rt.sub, rt.dlvrd, rt.submitDate, rt.doneDate, rt.stat, rt.err, rt.txt)
 }
@@ -83,6 +88,9 @@ func (rt *Report) Encode() []byte {
 }
 
 func (rt *Report) Decode(frame []byte) error {
+	if len(frame) < RptLen-20 {
+		return codec.ErrShortFrame
+	}
 	index := 3 // skip "id:"
 	rt.id = frame[index : index+10]
 	index += 10
diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 4883506..0da3ac2 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -147,6 +147,9 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	s.PacketLength = codec.HeadLen + uint32(len(frame))
 	s.RequestId = SMGP_SUBMIT
 	s.SequenceId = seq
+	if len(frame) < 105 {
+		return codec.ErrShortFrame
+	}
 
 	var index int
 	s.msgType = frame[index]
@@ -175,14 +178,21 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destTermIDCount = frame[index]
 	index++
+	// 接收号码之后的定长部分：消息长度1字节、保留字段8字节
+	if len(frame) < index+int(s.destTermIDCount)*21+1+8 {
+		return codec.ErrShortFrame
+	}
 	for i := byte(0); i < s.destTermIDCount; i++ {
 		s.destTermID = append(s.destTermID, utils.TrimStr(frame[index:index+21]))
 		index += 21
 	}
 	s.msgLength = frame[index]
 	index++
+	if len(frame) < index+int(s.msgLength)+8 {
+		return codec.ErrShortFrame
+	}
 	content := frame[index : index+int(s.msgLength)]
-	if content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
 	}
 	index += int(s.msgLength)
@@ -236,6 +246,9 @@ func (r *SubmitRsp) Decode(seq uint32, frame []byte) error {
 	r.RequestId = SMGP_SUBMIT_RESP
 	r.SequenceId = seq
 	r.msgId = make([]byte, 10)
+	if len(frame) < 14 {
+		return codec.ErrShortFrame
+	}
 	copy(r.msgId, frame[0:10])
 	r.status = Status(binary.BigEndian.Uint32(frame[10:14]))
 	return nil
-- 
2.43.0


From fb448f043341b79c5df4dee9569caf8e5e48cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:22 +0000
Subject: [PATCH 11/72] fix: SMGP submit with truncated TLVs is rejected

---
 codec/smgp/submit.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 0da3ac2..924d1d9 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -202,7 +202,11 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	// 一个tlv至少5字节
 	if uint32(index+5) < s.PacketLength {
 		buf := bytes.NewBuffer(frame[index:])
-		s.tlvList, _ = utils.Read(buf)
+		var err error
+		s.tlvList, err = utils.Read(buf)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 802db18d51d89603f102f849668d8aa095786180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:24 +0000
Subject: [PATCH 12/72] fix: CMPP 2.x submit with more than 12 receivers is
 decoded completely

---
 codec/cmpp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 4dcaad1..ef9850a 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -215,7 +215,7 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	index += 21
 	s.destUsrTl = frame[index]
 	index++
-	l := int(s.destUsrTl * 21)
+	l := int(s.destUsrTl) * 21
 	if V30.MajorMatchV(s.Version) {
 		l = int(s.destUsrTl) << 5
 	}
-- 
2.43.0


From d5982316ea7f0b6744b6c00001a47bbacab27ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:26 +0000
Subject: [PATCH 13/72] fix: submit decoders keep non-UCS2 long message parts
 and headerless content intact

---
 codec/cmpp/submit.go | 7 +++++--
 codec/sgip/submit.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index ef9850a..2f8032d 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -237,9 +237,12 @@ func (s *Submit) Decode(seq uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.msgLength)]
 	s.msgContent = content
-	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if s.tpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		s.msgContent = content
+		if s.msgFmt == 8 {
+			s.msgContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	index += int(s.msgLength)
 	if V30.MajorMatchV(s.Version) {
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 3ab9c5e..137d05d 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -212,9 +212,12 @@ func (s *Submit) Decode(cid uint32, frame []byte) error {
 	}
 	content := frame[index : index+int(s.MessageLength)]
 	s.MessageContent = content
-	if len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
+	if s.TpUdhi == 1 && len(content) >= 6 && content[0] == 0x05 && content[1] == 0x00 && content[2] == 0x03 {
 		content = content[6:]
-		s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		s.MessageContent = content
+		if s.MessageCoding == 8 {
+			s.MessageContent, _ = utils.Ucs2ToUtf8(content)
+		}
 	}
 	s.Reserve = ""
 	return nil
-- 
2.43.0


From 552e69fb5d09335f39aa2ecc8fd990f4f0d7a06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:28 +0000
Subject: [PATCH 14/72] fix: CMPP delivery decodes destination and service id
 into their own fields

---
 codec/cmpp/delivery.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 5e7c19d..beb5e05 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -112,7 +112,7 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 	}
 	d.msgId = binary.BigEndian.Uint64(frame[0:8])
 	d.destId = utils.TrimStr(frame[8:29])
-	d.destId = utils.TrimStr(frame[29:39])
+	d.serviceId = utils.TrimStr(frame[29:39])
 	d.tpPid = frame[39]
 	d.tpUdhi = frame[40]
 	d.msgFmt = frame[41]
-- 
2.43.0


From 1e6107742661628374ecdc2feb6d5cf99572a63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:30 +0000
Subject: [PATCH 15/72] fix: CMPP delivery content is decoded by its format and
 length

---
 codec/cmpp/delivery.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index beb5e05..8d9df72 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -142,7 +142,11 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 		}
 		d.report = rpt
 	} else {
-		d.msgContent = utils.TrimStr(frame[index : index+l])
+		content := frame[index : index+l]
+		if d.msgFmt == 8 {
+			content, _ = utils.Ucs2ToUtf8(content)
+		}
+		d.msgContent = string(content)
 	}
 	index += l
 	if V30.MajorMatchV(d.Version) {
-- 
2.43.0


From 72ab734075e659d721f32985f367288d14d2b885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 16/72] fix: CMPP delivery of exactly one full message carries
 its content unsegmented

---
 codec/cmpp/delivery.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/codec/cmpp/delivery.go b/codec/cmpp/delivery.go
index 8d9df72..931a3a4 100644
--- a/codec/cmpp/delivery.go
+++ b/codec/cmpp/delivery.go
@@ -84,10 +84,11 @@ func (d *Delivery) Encode() []byte {
 		// 状态报告
 		copy(frame[index:index+l], d.report.Encode())
 	} else {
-		// 上行短信，不支持长短信，固定选用第一片 （New时需处理）
-		slices := utils.MsgSlices(d.msgFmt, d.msgContent)
-		// 不支持长短信，固定选用第一片
-		content := slices[0]
+		// 上行短信，不支持长短信，内容不拆分（New时已按最大长度截取）
+		content := []byte(d.msgContent)
+		if d.msgFmt == 8 {
+			content, _ = utils.Utf8ToUcs2(d.msgContent)
+		}
 		copy(frame[index:index+l], content)
 	}
 	index += l
@@ -174,12 +175,17 @@ func setMsgContent(dly *Delivery, msg string) {
 	dly.msgFmt = utils.MsgFmt(msg)
 	var l int
 	if dly.msgFmt == 8 {
-		l = 2 * len([]rune(msg))
-		if l > 140 {
-			// 只取前70个字符
-			rs := []rune(msg)
-			msg = string(rs[:70])
-			l = 140
+		for i, r := range msg {
+			n := 2
+			if r > 0xffff {
+				n = 4 // 基本平面以外的字符，占用4字节
+			}
+			if l+n > 140 {
+				// 只取前140字节可容纳的字符
+				msg = msg[:i]
+				break
+			}
+			l += n
 		}
 	} else {
 		l = len(msg)
-- 
2.43.0


From c9be3c45a82bb563b84bb8c7fb231d5e5541ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:33 +0000
Subject: [PATCH 17/72] fix: login responses carry the authenticator the
 protocols define

---
 codec/cmpp/connect.go | 2 +-
 codec/smgp/login.go   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/codec/cmpp/connect.go b/codec/cmpp/connect.go
index f85a203..fbf4743 100644
--- a/codec/cmpp/connect.go
+++ b/codec/cmpp/connect.go
@@ -137,7 +137,7 @@ func (c *Connect) ToResponse(code uint32) codec.Pdu {
 	if rsp.status == ConnStatusOK {
 		md5Auth := md5.Sum(bytes.Join([][]byte{
 			bs,
-			[]byte(c.sourceAddr),
+			c.authenticatorSource,
 			[]byte(c.secret),
 		}, nil))
 		rsp.authenticatorISMG = md5Auth[:]
diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index 895e9c0..d6bcb52 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -125,8 +125,8 @@ func (l *Login) ToResponse(code uint32) codec.Pdu {
 	rsp.status = Status(code)
 	if rsp.status == Status(0) {
 		md5Auth := md5.Sum(bytes.Join([][]byte{
-			{byte(code)},
-			[]byte(l.clientID),
+			{0, 0, 0, byte(code)},
+			l.authenticatorClient,
 			[]byte(l.secret),
 		}, nil))
 		rsp.authenticatorServer = md5Auth[:]
-- 
2.43.0


From 8fd49182bef63efc61c352838801b065e0acfc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:35 +0000
Subject: [PATCH 18/72] fix: CMPP submit's Msg_src is the SP id

---
 codec/cmpp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/cmpp/submit.go b/codec/cmpp/submit.go
index 2f8032d..17c2697 100644
--- a/codec/cmpp/submit.go
+++ b/codec/cmpp/submit.go
@@ -73,7 +73,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 	}
 	mt.termIds = termIds
 
-	mt.msgSrc = ac.SmsDisplayNo
+	mt.msgSrc = ac.ClientId
 
 	slices := utils.MsgSlices(mt.msgFmt, content)
 
-- 
2.43.0


From 03eda9230744507263fe5b09a2b66a957dc570f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:37 +0000
Subject: [PATCH 19/72] fix: SGIP report is sent as a report, not as a deliver

---
 codec/sgip/report.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index 40ce6ba..d249f51 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -25,7 +25,7 @@ const DlvPackLen = 64
 func NewReport(phone string, mtSequence []uint32, status Status, code byte) codec.RequestPdu {
 	dlv := &Report{}
 	dlv.PacketLength = DlvPackLen
-	dlv.CommandId = SGIP_DELIVER
+	dlv.CommandId = SGIP_REPORT
 	dlv.SequenceNumber = Sequencer.NextVal()
 	dlv.MtSequence = mtSequence
 	dlv.UserNumber = phone
-- 
2.43.0


From 5057a2a571bae362da562214658540526de4e10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:39 +0000
Subject: [PATCH 20/72] fix: over-long SGIP fields no longer spill into their
 neighbours

---
 codec/sgip/deliver.go |  8 +++-----
 codec/sgip/report.go  |  5 ++---
 codec/sgip/submit.go  | 29 ++++++++++-------------------
 3 files changed, 15 insertions(+), 27 deletions(-)

diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index 5c7ba5b..9e16c6f 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -59,10 +59,8 @@ func NewDeliver(ac *codec.AuthConf, phone, content, destNo string) codec.Request
 func (d *Deliver) Encode() []byte {
 	frame := d.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], d.UserNumber)
-	index += 21
-	copy(frame[index:], d.SPNumber)
-	index += 21
+	index = utils.CopyStr(frame, d.UserNumber, index, 21)
+	index = utils.CopyStr(frame, d.SPNumber, index, 21)
 	frame[index] = d.TpPid
 	index++
 	frame[index] = d.TpUdhi
@@ -73,7 +71,7 @@ func (d *Deliver) Encode() []byte {
 	index += 4
 	copy(frame[index:], d.MessageContent)
 	index += len(d.MessageContent)
-	copy(frame[index:], d.Reserve)
+	utils.CopyStr(frame, d.Reserve, index, 8)
 	return frame
 }
 
diff --git a/codec/sgip/report.go b/codec/sgip/report.go
index d249f51..0037422 100644
--- a/codec/sgip/report.go
+++ b/codec/sgip/report.go
@@ -43,13 +43,12 @@ func (r *Report) Encode() []byte {
 	}
 	frame[index] = r.ReportType
 	index++
-	copy(frame[index:], r.UserNumber)
-	index += 21
+	index = utils.CopyStr(frame, r.UserNumber, index, 21)
 	frame[index] = byte(r.State)
 	index++
 	frame[index] = r.ErrorCode
 	index++
-	copy(frame[index:], r.Reserve)
+	utils.CopyStr(frame, r.Reserve, index, 8)
 	return frame
 }
 
diff --git a/codec/sgip/submit.go b/codec/sgip/submit.go
index 137d05d..073ec07 100644
--- a/codec/sgip/submit.go
+++ b/codec/sgip/submit.go
@@ -99,36 +99,27 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, options ...c
 func (s *Submit) Encode() []byte {
 	frame := s.MessageHeader.Encode()
 	index := 20
-	copy(frame[index:], s.SPNumber)
-	index += 21
-	copy(frame[index:], s.ChargeNumber)
-	index += 21
+	index = utils.CopyStr(frame, s.SPNumber, index, 21)
+	index = utils.CopyStr(frame, s.ChargeNumber, index, 21)
 	frame[index] = s.UserCount
 	index++
 	for _, p := range s.UserNumber {
-		copy(frame[index:], p)
-		index += 21
+		index = utils.CopyStr(frame, p, index, 21)
 	}
-	copy(frame[index:], s.CorpId)
-	index += 5
-	copy(frame[index:], s.ServiceType)
-	index += 10
+	index = utils.CopyStr(frame, s.CorpId, index, 5)
+	index = utils.CopyStr(frame, s.ServiceType, index, 10)
 	frame[index] = s.FeeType
 	index++
-	copy(frame[index:], s.FeeValue)
-	index += 6
-	copy(frame[index:], s.GivenValue)
-	index += 6
+	index = utils.CopyStr(frame, s.FeeValue, index, 6)
+	index = utils.CopyStr(frame, s.GivenValue, index, 6)
 	frame[index] = s.AgentFlag
 	index++
 	frame[index] = s.MorelatetoMTFlag
 	index++
 	frame[index] = s.Priority
 	index++
-	copy(frame[index:], s.ExpireTime)
-	index += 16
-	copy(frame[index:], s.ScheduleTime)
-	index += 16
+	index = utils.CopyStr(frame, s.ExpireTime, index, 16)
+	index = utils.CopyStr(frame, s.ScheduleTime, index, 16)
 	frame[index] = s.ReportFlag
 	index++
 	frame[index] = s.TpPid
@@ -143,7 +134,7 @@ func (s *Submit) Encode() []byte {
 	index += 4
 	copy(frame[index:], s.MessageContent)
 	index += len(s.MessageContent)
-	copy(frame[index:], s.Reserve)
+	utils.CopyStr(frame, s.Reserve, index, 8)
 	return frame
 }
 
-- 
2.43.0


From a24f0963475d473e8e5e293f0ce8ecfba81c10e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:06 +0000
Subject: [PATCH 21/72] fix: SMGP submit keeps the account's report flag and
 priority unless options set them

---
 codec/smgp/submit.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 924d1d9..9131004 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -383,14 +383,12 @@ func (r *SubmitRsp) Status() Status {
 
 func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 	s.needReport = ac.NeedReport
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.NeedReport != 0 {
+	if options.NeedReport != uint8(0xf) {
 		s.needReport = options.NeedReport
 	}
 
 	s.priority = ac.DefaultMsgLevel
-	// 有点小bug，不能通过传参的方式设置未变量的"零值"
-	if options.MsgLevel != 0 {
+	if options.MsgLevel != uint8(0xf) {
 		s.priority = options.MsgLevel
 	}
 
-- 
2.43.0


From b96f9a3947582050024ad02651ef0ec2ca1d547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 22/72] fix: SMGP submit's validity follows the option or the
 account's duration

---
 codec/smgp/submit.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 9131004..50cdf0f 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -401,13 +401,12 @@ func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 		s.atTime = options.AtTime
 	}
 
-	vt := time.Now()
 	if options.ValidTime != "" {
 		s.validTime = options.ValidTime
 	} else {
-		vt.Add(ac.MtValidDuration)
+		vt := time.Now().Add(ac.MtValidDuration)
+		s.validTime = utils.FormatTime(vt)
 	}
-	s.validTime = utils.FormatTime(vt)
 
 	s.srcTermID = ac.SmsDisplayNo
 	if options.SpSubNo != "" {
-- 
2.43.0


From 33b870762601ae52fb888b4030e24e0919da7004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:09 +0000
Subject: [PATCH 23/72] fix: SMGP submit honours the fee options

---
 codec/smgp/submit.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 50cdf0f..0625dee 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -58,9 +58,6 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 	mt.SetOptions(ac, codec.LoadMtOptions(options...))
 	mt.msgType = 6
 	// 从配置文件设置属性
-	mt.feeType = ac.FeeType
-	mt.feeCode = ac.FeeCode
-	mt.chargeTermID = ac.FeeTerminalId
 	mt.fixedFee = ac.FixedFee
 	// 初步设置入参
 	mt.destTermID = phones
@@ -397,6 +394,21 @@ func (s *Submit) SetOptions(ac *codec.AuthConf, options *codec.MtOptions) {
 		s.serviceID = options.ServiceId
 	}
 
+	s.feeType = ac.FeeType
+	if options.FeeType != "" {
+		s.feeType = options.FeeType
+	}
+
+	s.feeCode = ac.FeeCode
+	if options.FeeCode != "" {
+		s.feeCode = options.FeeCode
+	}
+
+	s.chargeTermID = ac.FeeTerminalId
+	if options.FeeTerminalId != "" {
+		s.chargeTermID = options.FeeTerminalId
+	}
+
 	if options.AtTime != "" {
 		s.atTime = options.AtTime
 	}
-- 
2.43.0


From b1918d3ae492756e97316e18138c058dd3976388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:11 +0000
Subject: [PATCH 24/72] fix: SMGP PkNumber counts from 1

---
 codec/smgp/submit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 0625dee..9152134 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -92,7 +92,7 @@ func NewSubmit(ac *codec.AuthConf, phones []string, content string, seq uint32,
 			l += 5
 			sub.tlvList.Add(PkTotal, []byte{byte(len(slices))})
 			l += 5
-			sub.tlvList.Add(PkNumber, []byte{byte(i)})
+			sub.tlvList.Add(PkNumber, []byte{byte(i + 1)})
 			l += 5
 			sub.PacketLength = uint32(MtBaseLen + len(sub.destTermID)*21 + int(sub.msgLength) + l)
 			messages = append(messages, sub)
-- 
2.43.0


From f21d3c088a4b057a81b978bb855e401d19bc0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:13 +0000
Subject: [PATCH 25/72] fix: SMGP deliver response echoes the delivered message
 id

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index b5c95a6..26b0cf7 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -159,7 +159,7 @@ func (d *Delivery) ToResponse(code uint32) codec.Pdu {
 	resp.PacketLength = 26
 	resp.SequenceId = d.SequenceId
 	resp.status = Status(code)
-	resp.msgId = codec.BcdSeq.NextVal()
+	resp.msgId = d.msgId
 	return resp
 }
 
-- 
2.43.0


From 3f1e6fad6634545f4cc765a24e4c37b629e39d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:15 +0000
Subject: [PATCH 26/72] fix: SMGP status report's MsgLength is its content's
 length

---
 codec/smgp/deliver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 26b0cf7..07b90f8 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -75,7 +75,7 @@ func NewDeliveryReport(ac *codec.AuthConf, mt *Submit, seq uint32, msgId []byte)
 	dlv.SequenceId = seq
 	dlv.msgId = codec.BcdSeq.NextVal()
 	dlv.report = NewReport(msgId)
-	dlv.msgLength = 115
+	dlv.msgLength = byte(RptLen)
 	dlv.isReport = 1
 	dlv.msgFormat = 0
 	dlv.recvTime = time.Now().Format("20060102150405")
-- 
2.43.0


From 5e75ac0f72b50c4d9e5264683128a9f70f9a91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:17 +0000
Subject: [PATCH 27/72] fix: SMGP login accepts client ids shorter than 8 bytes

---
 codec/smgp/login.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/smgp/login.go b/codec/smgp/login.go
index d6bcb52..eb10899 100644
--- a/codec/smgp/login.go
+++ b/codec/smgp/login.go
@@ -76,7 +76,7 @@ func (l *Login) Decode(seq uint32, frame []byte) error {
 	if len(frame) < LoginLen-int(codec.HeadLen) {
 		return codec.ErrShortFrame
 	}
-	l.clientID = string(frame[0:8])
+	l.clientID = utils.TrimStr(frame[0:8])
 	l.authenticatorClient = frame[8:24]
 	l.loginMode = frame[24]
 	l.timestamp = binary.BigEndian.Uint32(frame[25:29])
-- 
2.43.0


From 3a4a041e345f7ca98e5634d505473ab9a7261007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:18 +0000
Subject: [PATCH 28/72] fix: SMGP deliver never exceeds 140 encoded bytes

---
 codec/smgp/deliver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 07b90f8..6fd30ff 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -60,6 +60,12 @@ func NewDeliver(ac *codec.AuthConf, phone string, destNo string, txt string, seq
 		subTxt = string(rs)
 	}
 	gbs, _ := GbEncoder.String(subTxt)
+	// 编码后最长140字节
+	for len(gbs) > 140 {
+		rs = rs[:len(rs)-1]
+		subTxt = string(rs)
+		gbs, _ = GbEncoder.String(subTxt)
+	}
 	msg := []byte(gbs)
 	dlv.msgBytes = msg
 	dlv.msgLength = byte(len(msg))
-- 
2.43.0


From 8bdfefd5eb6d719a8794d412e3efc3b7dde87c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:20 +0000
Subject: [PATCH 29/72] fix: decoded SMGP deliver keeps its encoded content

---
 codec/smgp/deliver.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codec/smgp/deliver.go b/codec/smgp/deliver.go
index 6fd30ff..9de9530 100644
--- a/codec/smgp/deliver.go
+++ b/codec/smgp/deliver.go
@@ -149,7 +149,8 @@ func (d *Delivery) Decode(seq uint32, frame []byte) error {
 			return err
 		}
 	} else {
-		bytes, err := GbDecoder.Bytes(frame[index : index+int(d.msgLength)])
+		d.msgBytes = frame[index : index+int(d.msgLength)]
+		bytes, err := GbDecoder.Bytes(d.msgBytes)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e3aadb54443aca82088106e2c59c379fe611a7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:22 +0000
Subject: [PATCH 30/72] fix: WithMtOptions takes effect

---
 codec/options_mt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codec/options_mt.go b/codec/options_mt.go
index cb002a8..5a88492 100644
--- a/codec/options_mt.go
+++ b/codec/options_mt.go
@@ -37,7 +37,7 @@ type MtOptions struct {
 // WithMtOptions 设置配置项
 func WithMtOptions(opt *MtOptions) OptionFunc {
 	return func(mtOps *MtOptions) {
-		mtOps = opt
+		*mtOps = *opt
 	}
 }
 
-- 
2.43.0


From 344d5fbbd1243144ab45f2e2aa5348386e2ea93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:51 +0000
Subject: [PATCH 31/72] fix: event handlers receive the arguments of the call

---
 event_manager/event_manage.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 1133ec7..0d0b5d1 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -66,7 +66,7 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if _, exists := m.Get(key); exists == false {
 		sMap.Store(key, func(args ...any) {
 			for _, fn := range events {
-				fn()
+				fn(args...)
 			}
 		})
 		return true
@@ -95,7 +95,7 @@ func (m *eventManage) Call(key string, args ...interface{}) {
 	}
 	if fn, exists := m.Get(key); exists {
 		log.Infof("Call: %#v, Key: %s", fn, key)
-		fn(args)
+		fn(args...)
 		log.Infof("Done: %#v, Key: %s", fn, key)
 
 	} else {
-- 
2.43.0


From bdbb999759c2bf67b65dbf86825d0bd77ab39293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:53 +0000
Subject: [PATCH 32/72] fix: concurrent event registrations of one key have a
 single winner

---
 event_manager/event_manage.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 0d0b5d1..8dcbd93 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -62,13 +62,12 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if !strings.HasPrefix(key, m.prefix) {
 		key = m.prefix + key
 	}
-	// 判断key下是否已有事件
-	if _, exists := m.Get(key); exists == false {
-		sMap.Store(key, func(args ...any) {
-			for _, fn := range events {
-				fn(args...)
-			}
-		})
+	// 判断key下是否已有事件，判断与存储须是原子操作
+	if _, exists := sMap.LoadOrStore(key, func(args ...any) {
+		for _, fn := range events {
+			fn(args...)
+		}
+	}); exists == false {
 		return true
 	} else {
 		log.Info(ErrorsFuncEventAlreadyExists + " , 相关键名：" + key)
-- 
2.43.0


From 7c29e8e9f6a79f27aa16bb5b6e5081e9f8d57454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:55 +0000
Subject: [PATCH 33/72] fix: reloading the account store revokes removed
 accounts and survives unreadable files

---
 auth/yaml_store.go | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 5701994..326d73c 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -21,9 +21,16 @@ func (y *YamlStore) Load() {
 	dir = y.Config.BasePath() + dir
 	fs, err := ioutil.ReadDir(dir)
 	if err != nil {
-		log.Fatalf("Config file init error: %v", err)
+		if len(y.snapshot()) == 0 {
+			log.Fatalf("Config file init error: %v", err)
+		}
+		// 定时刷新时读取失败，保留已加载的配置
+		log.Errorf("Config file reload error: %v", err)
+		return
 	}
 
+	old := y.snapshot()
+	cache := make(map[string]*Client, len(fs))
 	for _, f := range fs {
 		f := f
 		if f.IsDir() {
@@ -37,35 +44,49 @@ func (y *YamlStore) Load() {
 		if strings.HasSuffix(f.Name(), ".yml") {
 			key = f.Name()[:len(f.Name())-4]
 		}
-		if "" == key {
+		if len(key) < 4 {
 			continue
 		}
+		id := strings.ToLower(key)
 		data, err := ioutil.ReadFile(dir + f.Name())
 		if err != nil {
-			log.Fatalf("Config file init error: %v", err)
+			log.Errorf("Config file init error: %v", err)
+		} else if cli := unmarshal(data, id); cli != nil {
+			cache[id] = cli
+			continue
+		}
+		// 文件读取或解析失败时，沿用之前的配置
+		if cli, ok := old[id]; ok {
+			cache[id] = cli
 		}
-
-		unmarshal(data, strings.ToLower(key), y)
 	}
+
+	// 整体替换，已删除的配置不再有效
+	y.Lock()
+	defer y.Unlock()
+	y.Cache = cache
 }
 
-func (y *YamlStore) FindByCid(isp string, cid string) *Client {
+func (y *YamlStore) snapshot() map[string]*Client {
 	y.Lock()
 	defer y.Unlock()
-	client := y.Cache[strings.ToLower(isp)+"_"+cid]
-	return client
+	return y.Cache
 }
 
-func unmarshal(data []byte, id string, y *YamlStore) {
+func (y *YamlStore) FindByCid(isp string, cid string) *Client {
 	y.Lock()
 	defer y.Unlock()
+	client := y.Cache[strings.ToLower(isp)+"_"+cid]
+	return client
+}
 
+func unmarshal(data []byte, id string) *Client {
 	cli := &Client{}
 	err := yaml.Unmarshal(data, cli)
 	if err != nil {
 		log.Errorf("Config file init error: %v", err)
-	} else {
-		cli.ISP = id[0:4]
-		y.Cache[id] = cli
+		return nil
 	}
+	cli.ISP = id[0:4]
+	return cli
 }
-- 
2.43.0


From 4351be5bdc512d8e8d9f8107eab4befc5c345b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:33 +0000
Subject: [PATCH 34/72] fix: a header-only packet no longer discards the
 packets received after it

---
 msc_server/server/on_traffic.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 0bc76ad..5b8a381 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -93,9 +93,12 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 	// 消息体通过长度检查后,跳过消息头的前8字节
 	_, _ = c.Discard(12)
 
-	// 读取消息体
-	buff, _ = c.Peek(int(pkl - 12))
-	_, _ = c.Discard(int(pkl - 12))
+	// 读取消息体，注意 Peek(0)、Discard(0) 会取走全部缓存，没有消息体时不能调用
+	buff = nil
+	if pkl > codec.HeadLen {
+		buff, _ = c.Peek(int(pkl - 12))
+		_, _ = c.Discard(int(pkl - 12))
+	}
 	// buff returned by Peek() is not allowed to be passed to a new goroutine, as this []byte will be reused within event-loop.
 	// If you have to use buf in a new goroutine, then you need to make a copy of buf and pass this copy to that new goroutine.
 	newBuff := make([]byte, len(buff))
-- 
2.43.0


From 7efb1d0a58b7ef70f588f824227ee0b4fca06b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 35/72] fix: all packets received in one read are processed

---
 msc_server/server/on_traffic.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 5b8a381..539be57 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -17,18 +17,24 @@ import (
 )
 
 func (s *Server) OnTraffic(c gnet.Conn) (action gnet.Action) {
-	cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
-	if ok {
+	// 一次读事件可能收到多个报文，需全部处理完
+	for {
+		cmd, seq, buff, action, ok := DecodeAndCheckHeader(s, c)
+		if !ok {
+			return action
+		}
 		switch s.name {
 		case CMPP:
-			return ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(CmppHandlers(), cmd, seq, buff, c, s)
 		case SGIP:
-			return ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SgipHandlers(), cmd, seq, buff, c, s)
 		case SMGP:
-			return ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+			action = ExecuteChain(SmgpHandlers(), cmd, seq, buff, c, s)
+		}
+		if action != gnet.None {
+			return action
 		}
 	}
-	return action
 }
 
 // TrafficHandler Don't Read From gnet.Conn.
-- 
2.43.0


From ea3d3b7220d74da41f635c4357d327070dde237d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:37 +0000
Subject: [PATCH 36/72] fix: closing a connection refused by MaxSessions
 neither crashes nor miscounts

---
 msc_server/server/on_close.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index c4c334e..059b257 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -14,6 +14,11 @@ var logDb = msc.New("CounterDB")
 func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 	msg := fmt.Sprintf("[%s] OnClose ===", s.name)
 	sc := Session(c)
+	if sc == nil {
+		// 超出连接数阈值而被拒绝的连接，没有创建会话
+		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})...)
+		return
+	}
 	defer deferFunc(c, s, sc)
 
 	fields := FlatMapLog(sc.LogSession(), s.LogCounter(), []log.Field{OpConnectionClose.Field(), ErrorField(e)})
@@ -28,8 +33,5 @@ func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	s.sessionPool.Delete(sc.Id())
 	s.activeSessions -= 1
 	c.SetContext(nil)
-	if sc != nil {
-		sc.conn = nil
-		sc = nil
-	}
+	sc.conn = nil
 }
-- 
2.43.0


From ff1e694aed2d5b9e7793318cd58da65125eea13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:39 +0000
Subject: [PATCH 37/72] fix: MaxSessions is enforced and counted atomically
 across event loops

---
 msc_server/server/on_close.go |  3 +--
 msc_server/server/on_open.go  |  4 ++--
 msc_server/server/server.go   | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index 059b257..6e4d78f 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -30,8 +30,7 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
 	sc.closeResource() // 关闭通道，释放线程池
-	s.sessionPool.Delete(sc.Id())
-	s.activeSessions -= 1
+	s.RemoveSession(sc)
 	c.SetContext(nil)
 	sc.conn = nil
 }
diff --git a/msc_server/server/on_open.go b/msc_server/server/on_open.go
index fc3e0c0..1fb5eed 100644
--- a/msc_server/server/on_open.go
+++ b/msc_server/server/on_open.go
@@ -12,12 +12,12 @@ import (
 func (s *Server) OnOpen(c gnet.Conn) (out []byte, action gnet.Action) {
 	var msg = fmt.Sprintf("[%s] OnOpen ===", s.name)
 
-	if s.ActiveSessions() >= s.sessionPoolCap {
+	sc := s.CreateSession(c)
+	if sc == nil {
 		// 已达到连接数阈值时，拒绝新的连接
 		log.Warn(msg, FlatMapLog(s.LogCounter(), []log.Field{OpFlowControl.Field(), SErrField(msc.ErrorsSessionThreshReached)})...)
 		return nil, gnet.Close
 	} else {
-		sc := s.CreateSession(c)
 		log.Info(msg, FlatMapLog(sc.LogSession(), s.LogCounter())...)
 		return
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 11a63c5..d80d18a 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -78,9 +78,13 @@ func New(name string) *Server {
 	}
 }
 
+// CreateSession 创建会话，已达到连接数阈值时返回nil
 func (s *Server) CreateSession(c gnet.Conn) *session {
 	s.Lock()
 	defer s.Unlock()
+	if s.activeSessions >= s.sessionPoolCap {
+		return nil
+	}
 	sc := NewSession(c)
 	sc.serverName = s.name
 	c.SetContext(sc)
@@ -102,7 +106,17 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	return
 }
 
+// RemoveSession 移除会话
+func (s *Server) RemoveSession(sc *session) {
+	s.Lock()
+	defer s.Unlock()
+	s.sessionPool.Delete(sc.id)
+	s.activeSessions -= 1
+}
+
 func (s *Server) ActiveSessions() int {
+	s.Lock()
+	defer s.Unlock()
 	return s.activeSessions
 }
 
-- 
2.43.0


From 379a42fcb6e40637240873e1a56c5981a7121865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 38/72] fix: concurrent logins can not exceed an account's max
 connections

---
 msc_server/server/cmpp_connect.go |  3 +--
 msc_server/server/server.go       | 16 ++++++++++++++++
 msc_server/server/sgip_bind.go    |  3 +--
 msc_server/server/smgp_login.go   |  3 +--
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index 9cf83d1..c8d3ee8 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -50,8 +50,7 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	if code == cmpp.ConnStatusOK {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.ReserveLogin(sc, cli.ClientId, cli.MaxConns) {
 			code = cmpp.ConnStatusOthers
 		}
 	}
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index d80d18a..4c5d12a 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -96,6 +96,22 @@ func (s *Server) CreateSession(c gnet.Conn) *session {
 func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 	s.Lock()
 	defer s.Unlock()
+	return s.countSession(clientId)
+}
+
+// ReserveLogin 为会话占用客户端的一个连接名额，已达到客户端的最大连接数时返回false。
+// 统计与占用必须是原子操作，否则并发的登录请求会突破最大连接数
+func (s *Server) ReserveLogin(sc *session, clientId string, maxConns int) bool {
+	s.Lock()
+	defer s.Unlock()
+	if s.countSession(clientId) >= maxConns {
+		return false
+	}
+	sc.clientId = clientId
+	return true
+}
+
+func (s *Server) countSession(clientId string) (counter int) {
 	s.sessionPool.Range(func(key, value any) bool {
 		s, ok := value.(*session)
 		if ok && s.clientId == clientId {
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 1d747d9..08a1366 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -50,8 +50,7 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	if code == sgip.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(ac.ClientId)
-		if activeSession >= ac.MaxConns {
+		if !s.ReserveLogin(sc, ac.ClientId, ac.MaxConns) {
 			code = sgip.Status(3)
 		}
 	}
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 47613d9..0fb1695 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -50,8 +50,7 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	if code == smgp.Status(0) {
 		// 注意这里仅按照单节点计算某个client的session数，实际上应该计算集群中的某个client的session数。
 		// TODO 要支持集群，连接会话的计数，应该采用数据库或者redis等存储。
-		activeSession := s.CountSessionByClientId(cli.ClientId)
-		if activeSession >= cli.MaxConns {
+		if !s.ReserveLogin(sc, cli.ClientId, cli.MaxConns) {
 			code = smgp.Status(2)
 		}
 	}
-- 
2.43.0


From d1c56828aecfed1b0a1a0f302379998525f51bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:59 +0000
Subject: [PATCH 39/72] fix: session resources are never used after release,
 nor leaked when a connection closes during login

---
 msc_server/server/cmpp_active.go         |  7 +++--
 msc_server/server/cmpp_active_resp.go    |  7 +++--
 msc_server/server/cmpp_connect.go        |  2 --
 msc_server/server/cmpp_delivery_resp.go  |  7 +++--
 msc_server/server/cmpp_submit.go         |  7 +++--
 msc_server/server/cmpp_terminate.go      |  7 +++--
 msc_server/server/cmpp_terminate_resp.go |  7 +++--
 msc_server/server/on_close.go            |  3 +-
 msc_server/server/session.go             | 37 +++++++++++++++++++-----
 msc_server/server/sgip_bind.go           |  2 --
 msc_server/server/sgip_submit.go         |  7 +++--
 msc_server/server/sgip_unbind.go         |  7 +++--
 msc_server/server/sgip_unbind_resp.go    |  7 +++--
 msc_server/server/smgp_active.go         |  7 +++--
 msc_server/server/smgp_active_resp.go    |  7 +++--
 msc_server/server/smgp_delivery_resp.go  |  7 +++--
 msc_server/server/smgp_exit.go           |  7 +++--
 msc_server/server/smgp_exit_resp.go      |  7 +++--
 msc_server/server/smgp_login.go          |  2 --
 msc_server/server/smgp_submit.go         |  7 +++--
 20 files changed, 105 insertions(+), 46 deletions(-)

diff --git a/msc_server/server/cmpp_active.go b/msc_server/server/cmpp_active.go
index d523875..35eed57 100644
--- a/msc_server/server/cmpp_active.go
+++ b/msc_server/server/cmpp_active.go
@@ -42,8 +42,11 @@ var cmppActive TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleCmppActive(s *Server, sc *session, pdu *cmpp.ActiveTest) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_active_resp.go b/msc_server/server/cmpp_active_resp.go
index ce6b187..701b257 100644
--- a/msc_server/server/cmpp_active_resp.go
+++ b/msc_server/server/cmpp_active_resp.go
@@ -42,8 +42,11 @@ var cmppActiveResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Co
 
 func handleCmppActiveResp(s *Server, sc *session, pdu *cmpp.ActiveTestRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用ActiveResp进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index c8d3ee8..db45194 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -60,8 +60,6 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == cmpp.ConnStatusOK {
 			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 8eb9df6..865482e 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -42,8 +42,11 @@ var cmppDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 
 func handleCmppDeliveryResp(s *Server, sc *session, pdu *cmpp.DeliveryRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index e446a4d..cfc3bde 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -53,8 +53,11 @@ var cmppSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
diff --git a/msc_server/server/cmpp_terminate.go b/msc_server/server/cmpp_terminate.go
index 6d94c53..e295155 100644
--- a/msc_server/server/cmpp_terminate.go
+++ b/msc_server/server/cmpp_terminate.go
@@ -41,8 +41,11 @@ var cmppTerminate TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Con
 
 func handleCmppTerminate(s *Server, sc *session, term *cmpp.Terminate) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/cmpp_terminate_resp.go b/msc_server/server/cmpp_terminate_resp.go
index 2220091..48a74e8 100644
--- a/msc_server/server/cmpp_terminate_resp.go
+++ b/msc_server/server/cmpp_terminate_resp.go
@@ -41,8 +41,11 @@ var cmppTerminateResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet
 
 func handleCmppTerminateResp(s *Server, sc *session, term *cmpp.TerminateRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/on_close.go b/msc_server/server/on_close.go
index 6e4d78f..fb12bde 100644
--- a/msc_server/server/on_close.go
+++ b/msc_server/server/on_close.go
@@ -29,8 +29,7 @@ func (s *Server) OnClose(c gnet.Conn, e error) (action gnet.Action) {
 }
 
 func deferFunc(c gnet.Conn, s *Server, sc *session) {
-	sc.closeResource() // 关闭通道，释放线程池
+	sc.close() // 释放通道和线程池
 	s.RemoveSession(sc)
 	c.SetContext(nil)
-	sc.conn = nil
 }
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 9232444..a65e773 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -23,6 +23,7 @@ type session struct {
 	serverName  string          // 连接的Server的name
 	ver         byte            // 协议版本号
 	stat        stat            // 会话状态
+	closed      bool            // 连接是否已关闭
 	nAt         byte            // 未接收到响应的心跳次数
 	createTime  time.Time       // 创建时间
 	lastUseTime time.Time       // 接收到客户端的 active/active_resp 或 mt 消息会更新该时间
@@ -69,10 +70,14 @@ func createSessionSidePool(size int) *goroutine.Pool {
 	return pool
 }
 
+// 完成登录，会话已关闭时不做任何处理
 func (s *session) completeLogin(ac *codec.AuthConf) {
 	// 设置会话信息及会话级别资源，此代码非常重要！！！
 	s.Lock()
 	defer s.Unlock()
+	if s.closed {
+		return
+	}
 	s.stat = StatLogin
 	s.ver = ac.Version
 	s.clientId = ac.ClientId
@@ -94,16 +99,28 @@ func (s *session) setupLimiter(ac *codec.AuthConf) {
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-// 关闭通道和线程池
-func (s *session) closeResource() {
-	if s == nil {
-		return
-	}
+// 关闭会话，释放会话级别资源
+func (s *session) close() {
+	s.Lock()
+	defer s.Unlock()
+	s.closed = true
+	s.stat = StatClosing
+	s.closeResource()
+}
 
-	if s.window != nil {
-		close(s.window)
-		s.window = nil
+// 占用一个接收窗口，返回释放窗口的函数，会话资源已释放时返回nil
+func (s *session) acquire() (release func()) {
+	window := s.Window()
+	if window == nil {
+		return nil
 	}
+	window <- struct{}{}
+	return func() { <-window }
+}
+
+// 释放通道和线程池，注意不可关闭通道，可能还有任务在使用它
+func (s *session) closeResource() {
+	s.window = nil
 	if s.pool != nil {
 		s.pool.Release()
 		s.pool = nil
@@ -112,10 +129,14 @@ func (s *session) closeResource() {
 }
 
 func (s *session) Window() chan struct{} {
+	s.Lock()
+	defer s.Unlock()
 	return s.window
 }
 
 func (s *session) Pool() *goroutine.Pool {
+	s.Lock()
+	defer s.Unlock()
 	return s.pool
 }
 
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 08a1366..84619ea 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -60,8 +60,6 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == sgip.Status(0) {
 			sc.completeLogin(ac)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index ce53561..d8c2aec 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -52,8 +52,11 @@ var sgipSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
diff --git a/msc_server/server/sgip_unbind.go b/msc_server/server/sgip_unbind.go
index ca5fd78..73b1d2a 100644
--- a/msc_server/server/sgip_unbind.go
+++ b/msc_server/server/sgip_unbind.go
@@ -41,8 +41,11 @@ var sgipUnbind TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSgipUnbind(s *Server, sc *session, term *sgip.Unbind) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/sgip_unbind_resp.go b/msc_server/server/sgip_unbind_resp.go
index b620c91..0101546 100644
--- a/msc_server/server/sgip_unbind_resp.go
+++ b/msc_server/server/sgip_unbind_resp.go
@@ -41,8 +41,11 @@ var sgipUnbindRsp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Con
 
 func handleSgipUnbindRsp(s *Server, sc *session, term *sgip.UnbindRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_active.go b/msc_server/server/smgp_active.go
index ae132eb..63de150 100644
--- a/msc_server/server/smgp_active.go
+++ b/msc_server/server/smgp_active.go
@@ -42,8 +42,11 @@ var smgpActive TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSmgpActive(s *Server, sc *session, pdu *smgp.ActiveTest) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_active_resp.go b/msc_server/server/smgp_active_resp.go
index 62cf4bc..7071a3e 100644
--- a/msc_server/server/smgp_active_resp.go
+++ b/msc_server/server/smgp_active_resp.go
@@ -42,8 +42,11 @@ var smgpActiveResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Co
 
 func handleSmgpActiveResp(s *Server, sc *session, pdu *smgp.ActiveTestRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用ActiveResp进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_delivery_resp.go b/msc_server/server/smgp_delivery_resp.go
index 3872e2f..53b3f57 100644
--- a/msc_server/server/smgp_delivery_resp.go
+++ b/msc_server/server/smgp_delivery_resp.go
@@ -42,8 +42,11 @@ var smgpDeliveryResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.
 
 func handleSmgpDeliveryResp(s *Server, sc *session, pdu *smgp.DeliverRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用Active进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_exit.go b/msc_server/server/smgp_exit.go
index eb8c9e8..571487d 100644
--- a/msc_server/server/smgp_exit.go
+++ b/msc_server/server/smgp_exit.go
@@ -41,8 +41,11 @@ var smgpExit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn, s
 
 func handleSmgpExit(s *Server, sc *session, term *smgp.Exit) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_exit_resp.go b/msc_server/server/smgp_exit_resp.go
index 06f199b..2c9d5aa 100644
--- a/msc_server/server/smgp_exit_resp.go
+++ b/msc_server/server/smgp_exit_resp.go
@@ -41,8 +41,11 @@ var smgpExitResp TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn
 
 func handleSmgpExitResp(s *Server, sc *session, term *smgp.ExitRsp) {
 	// 【会话级别流控】采用通道控制消息收发速度,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 	// 这里采用流量控制目的是防止客户端采用此消息进行拒绝服务攻击
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 0fb1695..5b72ad7 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -60,8 +60,6 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 	err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
 		if code == smgp.Status(0) {
 			sc.completeLogin(cli)
-			// 更新会话
-			s.SessionPool().Store(sc.id, sc)
 		} else {
 			// 客户端登录失败，关闭连接
 			sc.stat = StatClosing
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 29e8bba..8004a8b 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -54,8 +54,11 @@ var smgpSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 
 func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 	// 【会话级别流控】采用通道控制消息收发窗口,向通道发送信号
-	sc.window <- struct{}{}
-	defer func() { <-sc.window }()
+	release := sc.acquire()
+	if release == nil {
+		return
+	}
+	defer release()
 
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 
-- 
2.43.0


From e6a2d3e0f25ebc4e63d964e76e67151d75cc7d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:40 +0000
Subject: [PATCH 40/72] fix: session state shared between the event loop,
 workers and ticker is read and written under its lock

---
 msc_server/server/cmpp_connect.go       |  2 +-
 msc_server/server/cmpp_delivery_resp.go |  3 +-
 msc_server/server/cmpp_submit.go        |  4 +-
 msc_server/server/on_tick.go            | 10 ++--
 msc_server/server/on_traffic.go         |  4 +-
 msc_server/server/server.go             |  4 +-
 msc_server/server/session.go            | 74 ++++++++++++++++++-------
 msc_server/server/sgip_bind.go          |  2 +-
 msc_server/server/sgip_submit.go        |  2 +-
 msc_server/server/smgp_delivery_resp.go |  3 +-
 msc_server/server/smgp_login.go         |  2 +-
 msc_server/server/smgp_submit.go        |  6 +-
 12 files changed, 74 insertions(+), 42 deletions(-)

diff --git a/msc_server/server/cmpp_connect.go b/msc_server/server/cmpp_connect.go
index db45194..7cb94b2 100644
--- a/msc_server/server/cmpp_connect.go
+++ b/msc_server/server/cmpp_connect.go
@@ -62,7 +62,7 @@ func handleCmppConnect(s *Server, sc *session, login *cmpp.Connect) {
 			sc.completeLogin(cli)
 		} else {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.loginFailed()
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/cmpp_delivery_resp.go b/msc_server/server/cmpp_delivery_resp.go
index 865482e..4031bc0 100644
--- a/msc_server/server/cmpp_delivery_resp.go
+++ b/msc_server/server/cmpp_delivery_resp.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"fmt"
-	"time"
 
 	"github.com/hrygo/log"
 	"github.com/panjf2000/gnet/v2"
@@ -52,6 +51,6 @@ func handleCmppDeliveryResp(s *Server, sc *session, pdu *cmpp.DeliveryRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
-	sc.lastUseTime = time.Now()
+	sc.touch()
 	// TODO more actions
 }
diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index cfc3bde..ff5bcb0 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -25,7 +25,7 @@ var cmppSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 		return false, gnet.Close
 	}
 
-	var mt = &cmpp.Submit{Version: cmpp.Version(sc.ver)}
+	var mt = &cmpp.Submit{Version: cmpp.Version(sc.Ver())}
 	err := mt.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -94,7 +94,7 @@ func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func cmppSubmitPacketCheck(s *session, mt *cmpp.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
 	check := strings.HasPrefix(mt.SrcId(), cli.SmsDisplayNo)
 	if check {
 		check = mt.MsgLevel() < 10
diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index 45e6dc6..dfff40f 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -33,11 +33,11 @@ func (s *Server) OnTick() (delay time.Duration, action gnet.Action) {
 				log.Info(msg, FlatMapLog(session.LogSession(), session.LogCounter())...)
 			}
 			// 发送心跳测试
-			if pass && session.stat == StatLogin {
+			if pass && session.Stat() == StatLogin {
 				activeTest(s, session)
 			}
 			// 发送模拟上行消息
-			if pass && session.stat == StatLogin {
+			if pass && session.Stat() == StatLogin {
 				mockDelivery(s, session)
 			}
 		}
@@ -47,7 +47,7 @@ func (s *Server) OnTick() (delay time.Duration, action gnet.Action) {
 }
 
 func activeTestNoneResponseCheck(s *Server, sc *session) bool {
-	if sc.nAt > 2 {
+	if sc.NAt() > 2 {
 		msg := fmt.Sprintf("[%s] OnTick ===", s.name)
 		// 发送关闭指令
 		sendTerminate(s, sc)
@@ -74,7 +74,7 @@ func closeCheck(s *Server, sc *session) bool {
 func activeTest(s *Server, sc *session) {
 	_ = s.goPool.Submit(func() {
 		// 如果使用时间在1分钟前则发送心跳
-		if sc.lastUseTime.Add(time.Minute).Before(time.Now()) {
+		if sc.LastUseTime().Add(time.Minute).Before(time.Now()) {
 			msg := fmt.Sprintf("[%s] OnTick %s", s.name, SD)
 			var active codec.RequestPdu
 			var seq = uint32(codec.B32Seq.NextVal())
@@ -119,7 +119,7 @@ func mockDelivery(s *Server, sc *session) {
 		return
 	}
 
-	cli := msc.FindAuthConf(s.name, sc.clientId)
+	cli := msc.FindAuthConf(s.name, sc.ClientId())
 	if cli == nil {
 		return
 	}
diff --git a/msc_server/server/on_traffic.go b/msc_server/server/on_traffic.go
index 539be57..5ba1340 100644
--- a/msc_server/server/on_traffic.go
+++ b/msc_server/server/on_traffic.go
@@ -117,7 +117,7 @@ func DecodeAndCheckHeader(s *Server, c gnet.Conn) (cmd uint32, seq uint32, buff
 // 流量控制检查，如果检查不通过返回客户端 errCode 指定的错误码
 func submitFlowControl(sc *session, mt codec.RequestPdu, errCode uint32) bool {
 	// 限速检查
-	ok := sc.limiter.Allow()
+	ok := sc.Limiter().Allow()
 	if !ok {
 		//  流量控制错误响应结果异步发送
 		_ = sc.Pool().Submit(func() {
@@ -147,7 +147,7 @@ func sendSubmitResponse(sc *session, pdu codec.RequestPdu, result uint32) (codec
 }
 
 func sessionCheck(s *session) bool {
-	if s.stat != StatLogin {
+	if s.Stat() != StatLogin {
 		log.Error(fmt.Sprintf("[%s] OnTraffic %s", s.ServerName(), RC),
 			FlatMapLog(s.LogSession(), []log.Field{OpConnectionClose.Field(), SErrField(msc.ErrorsDecodePacketBody)})...)
 		return false
diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 4c5d12a..0bcbbe5 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -107,14 +107,14 @@ func (s *Server) ReserveLogin(sc *session, clientId string, maxConns int) bool {
 	if s.countSession(clientId) >= maxConns {
 		return false
 	}
-	sc.clientId = clientId
+	sc.reserve(clientId)
 	return true
 }
 
 func (s *Server) countSession(clientId string) (counter int) {
 	s.sessionPool.Range(func(key, value any) bool {
 		s, ok := value.(*session)
-		if ok && s.clientId == clientId {
+		if ok && s.ClientId() == clientId {
 			counter += 1
 		}
 		return true
diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index a65e773..7633359 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -19,6 +19,7 @@ type session struct {
 	sync.Mutex
 	id          uint64
 	conn        gnet.Conn
+	remote      string          // 对端地址，连接关闭后 gnet.Conn 的地址不可用，因此在创建时保存
 	clientId    string          // 客户端识别号，由服务端分配
 	serverName  string          // 连接的Server的name
 	ver         byte            // 协议版本号
@@ -51,6 +52,9 @@ func NewSession(c gnet.Conn) *session {
 	se.id = uint64(codec.B64Seq.NextVal())
 	se.stat = StatConnect
 	se.conn = c
+	if addr := c.RemoteAddr(); addr != nil {
+		se.remote = addr.String()
+	}
 	se.createTime = time.Now()
 	se.lastUseTime = time.Now()
 	return se
@@ -108,6 +112,27 @@ func (s *session) close() {
 	s.closeResource()
 }
 
+// 登录失败，等待关闭连接
+func (s *session) loginFailed() {
+	s.Lock()
+	defer s.Unlock()
+	s.stat = StatClosing
+}
+
+// 为指定的客户端占用会话
+func (s *session) reserve(clientId string) {
+	s.Lock()
+	defer s.Unlock()
+	s.clientId = clientId
+}
+
+// 更新会话的使用时间
+func (s *session) touch() {
+	s.Lock()
+	defer s.Unlock()
+	s.lastUseTime = time.Now()
+}
+
 // 占用一个接收窗口，返回释放窗口的函数，会话资源已释放时返回nil
 func (s *session) acquire() (release func()) {
 	window := s.Window()
@@ -152,18 +177,26 @@ func (s *session) Id() uint64 {
 }
 
 func (s *session) ClientId() string {
+	s.Lock()
+	defer s.Unlock()
 	return s.clientId
 }
 
 func (s *session) Ver() byte {
+	s.Lock()
+	defer s.Unlock()
 	return s.ver
 }
 
 func (s *session) Stat() stat {
+	s.Lock()
+	defer s.Unlock()
 	return s.stat
 }
 
 func (s *session) NAt() byte {
+	s.Lock()
+	defer s.Unlock()
 	return s.nAt
 }
 
@@ -172,10 +205,14 @@ func (s *session) CreateTime() time.Time {
 }
 
 func (s *session) LastUseTime() time.Time {
+	s.Lock()
+	defer s.Unlock()
 	return s.lastUseTime
 }
 
 func (s *session) Limiter() *rate.Limiter {
+	s.Lock()
+	defer s.Unlock()
 	return s.limiter
 }
 
@@ -189,45 +226,42 @@ func (s *session) LogSession(size ...int) []log.Field {
 	} else if size[0] > 8 {
 		ret = make([]log.Field, 0, size[0])
 	}
-	cliName := s.clientId
+	cliName := s.ClientId()
 	if cliName == "" {
 		cliName = "not login"
 	}
-	remote := "closed"
-	if s.conn != nil {
-		remote = s.conn.RemoteAddr().String()
-	}
 	return append(ret,
 		log.String(SrvName, s.serverName),
 		log.String(CliName, cliName),
 		log.Uint64(Sid, s.Id()),
-		log.String(RemoteAddr, remote))
+		log.String(RemoteAddr, s.remote))
 }
 
 func (s *session) LogCounter() []log.Field {
 	var mt, dlv, rpt uint64 = 0, 0, 0
+	// 防止未登录而未初始化pool时的空指针异常。
+	free, pcap, swCur, swCap := 0, 0, 0, 0
+	ac := &codec.AuthConf{}
 	if s != nil {
+		if conf := msc.FindAuthConf(s.serverName, s.ClientId()); conf != nil {
+			ac = conf
+		}
+		s.Lock()
+		defer s.Unlock()
 		mt, dlv, rpt = s.counter.mt, s.counter.dly, s.counter.report
-	}
-	ac := msc.FindAuthConf(s.serverName, s.clientId)
-	if ac == nil {
-		ac = &codec.AuthConf{}
-	}
-
-	// 防止未登录而未初始化pool时的空指针异常。
-	free := 0
-	pcap := 0
-	if s.pool != nil {
-		free = s.pool.Free()
-		pcap = s.pool.Cap()
+		if s.pool != nil {
+			free = s.pool.Free()
+			pcap = s.pool.Cap()
+		}
+		swCur, swCap = len(s.window), cap(s.window)
 	}
 
 	return []log.Field{
 		log.Int(LogKeyClientConnsCap, ac.MaxConns),
 		log.Int(LogKeySessionPoolFree, free),
 		log.Int(LogKeySessionPoolCap, pcap),
-		log.Int(LogKeySessionSwCur, len(s.window)),
-		log.Int(LogKeySessionSwCap, cap(s.window)),
+		log.Int(LogKeySessionSwCur, swCur),
+		log.Int(LogKeySessionSwCap, swCap),
 		log.Uint64(LogKeyCounterMt, mt),
 		log.Uint64(LogKeyCounterDlv, dlv),
 		log.Uint64(LogKeyCounterRpt, rpt),
diff --git a/msc_server/server/sgip_bind.go b/msc_server/server/sgip_bind.go
index 84619ea..6fd72ca 100644
--- a/msc_server/server/sgip_bind.go
+++ b/msc_server/server/sgip_bind.go
@@ -62,7 +62,7 @@ func handleSgipBind(s *Server, sc *session, login *sgip.Bind) {
 			sc.completeLogin(ac)
 		} else {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.loginFailed()
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index d8c2aec..565465c 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -90,7 +90,7 @@ func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func sgipSubmitPacketCheck(s *session, mt *sgip.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
 	check := strings.HasPrefix(mt.SPNumber, cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority < 10
diff --git a/msc_server/server/smgp_delivery_resp.go b/msc_server/server/smgp_delivery_resp.go
index 53b3f57..744be77 100644
--- a/msc_server/server/smgp_delivery_resp.go
+++ b/msc_server/server/smgp_delivery_resp.go
@@ -2,7 +2,6 @@ package server
 
 import (
 	"fmt"
-	"time"
 
 	"github.com/hrygo/log"
 	"github.com/panjf2000/gnet/v2"
@@ -52,7 +51,7 @@ func handleSmgpDeliveryResp(s *Server, sc *session, pdu *smgp.DeliverRsp) {
 	var msg = fmt.Sprintf("[%s] OnTraffic %s", s.name, RC)
 	// 打印报文
 	log.Debug(msg, FlatMapLog(sc.LogSession(), pdu.Log())...)
-	sc.lastUseTime = time.Now()
+	sc.touch()
 
 	// TODO more actions
 }
diff --git a/msc_server/server/smgp_login.go b/msc_server/server/smgp_login.go
index 5b72ad7..1aba8cc 100644
--- a/msc_server/server/smgp_login.go
+++ b/msc_server/server/smgp_login.go
@@ -62,7 +62,7 @@ func handleSmgpLogin(s *Server, sc *session, login *smgp.Login) {
 			sc.completeLogin(cli)
 		} else {
 			// 客户端登录失败，关闭连接
-			sc.stat = StatClosing
+			sc.loginFailed()
 			_ = c.Flush()
 			_ = c.Close()
 		}
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 8004a8b..70124b6 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -26,7 +26,7 @@ var smgpSubmit TrafficHandler = func(cmd, seq uint32, buff []byte, c gnet.Conn,
 		return false, gnet.Close
 	}
 
-	var mt = &smgp.Submit{Version: smgp.Version(sc.ver)}
+	var mt = &smgp.Submit{Version: smgp.Version(sc.Ver())}
 	err := mt.Decode(seq, buff)
 	if err != nil {
 		decodeErrorLog(sc, buff)
@@ -95,7 +95,7 @@ func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 // 协议包检查，并根据检查情况给result赋值
 func smgpSubmitPacketCheck(s *session, mt *smgp.Submit) (result uint32, err error) {
 	// 获取客户端信息
-	cli := auth.Cache.FindByCid(s.serverName, s.clientId)
+	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
 	check := strings.HasPrefix(mt.SrcTermID(), cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority() < 4
@@ -112,7 +112,7 @@ func mockSendSmgpReport(sc *session, sub *smgp.Submit, msgId []byte) {
 	}
 	msg := fmt.Sprintf("[%s] OnTraffic %s", sc.serverName, SD)
 
-	cli := msc.FindAuthConf(sc.serverName, sc.clientId)
+	cli := msc.FindAuthConf(sc.serverName, sc.ClientId())
 	dly := smgp.NewDeliveryReport(cli, sub, uint32(codec.B32Seq.NextVal()), msgId)
 	// 模拟状态报告发送前的耗时
 	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
-- 
2.43.0


From c364cced75a05b3d870c21bfe1f8ea728c2bad8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:04 +0000
Subject: [PATCH 41/72] fix: submits of an account revoked during its session
 are answered

---
 msc_server/server/cmpp_submit.go | 4 ++++
 msc_server/server/sgip_submit.go | 4 ++++
 msc_server/server/smgp_submit.go | 8 ++++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/msc_server/server/cmpp_submit.go b/msc_server/server/cmpp_submit.go
index ff5bcb0..d63d7a9 100644
--- a/msc_server/server/cmpp_submit.go
+++ b/msc_server/server/cmpp_submit.go
@@ -95,6 +95,10 @@ func handleCmppSubmit(s *Server, sc *session, mt *cmpp.Submit) {
 func cmppSubmitPacketCheck(s *session, mt *cmpp.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	if cli == nil {
+		// 客户端已被注销，10：源号码错误
+		return 10, nil
+	}
 	check := strings.HasPrefix(mt.SrcId(), cli.SmsDisplayNo)
 	if check {
 		check = mt.MsgLevel() < 10
diff --git a/msc_server/server/sgip_submit.go b/msc_server/server/sgip_submit.go
index 565465c..a00310e 100644
--- a/msc_server/server/sgip_submit.go
+++ b/msc_server/server/sgip_submit.go
@@ -91,6 +91,10 @@ func handleSgipSubmit(s *Server, sc *session, mt *sgip.Submit) {
 func sgipSubmitPacketCheck(s *session, mt *sgip.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	if cli == nil {
+		// 客户端已被注销，1：非法登录
+		return 1, nil
+	}
 	check := strings.HasPrefix(mt.SPNumber, cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority < 10
diff --git a/msc_server/server/smgp_submit.go b/msc_server/server/smgp_submit.go
index 70124b6..7e90d31 100644
--- a/msc_server/server/smgp_submit.go
+++ b/msc_server/server/smgp_submit.go
@@ -96,6 +96,10 @@ func handleSmgpSubmit(s *Server, sc *session, mt *smgp.Submit) {
 func smgpSubmitPacketCheck(s *session, mt *smgp.Submit) (result uint32, err error) {
 	// 获取客户端信息
 	cli := auth.Cache.FindByCid(s.serverName, s.ClientId())
+	if cli == nil {
+		// 客户端已被注销，21：认证错误
+		return 21, nil
+	}
 	check := strings.HasPrefix(mt.SrcTermID(), cli.SmsDisplayNo)
 	if check {
 		check = mt.Priority() < 4
@@ -112,8 +116,8 @@ func mockSendSmgpReport(sc *session, sub *smgp.Submit, msgId []byte) {
 	}
 	msg := fmt.Sprintf("[%s] OnTraffic %s", sc.serverName, SD)
 
-	cli := msc.FindAuthConf(sc.serverName, sc.ClientId())
-	dly := smgp.NewDeliveryReport(cli, sub, uint32(codec.B32Seq.NextVal()), msgId)
+	ac := &codec.AuthConf{Version: sc.Ver()}
+	dly := smgp.NewDeliveryReport(ac, sub, uint32(codec.B32Seq.NextVal()), msgId)
 	// 模拟状态报告发送前的耗时
 	ms := msc.ConfigYml.GetInt("Server.Mock.FixReportRespMs")
 	if ms > 0 {
-- 
2.43.0


From 018b608607d739466678d034a87f28504e5a0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:06 +0000
Subject: [PATCH 42/72] fix: terminating an idle session no longer blocks the
 event loop of other sessions

---
 msc_server/server/on_tick.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/msc_server/server/on_tick.go b/msc_server/server/on_tick.go
index dfff40f..a705ff0 100644
--- a/msc_server/server/on_tick.go
+++ b/msc_server/server/on_tick.go
@@ -179,10 +179,9 @@ func sendTerminate(s *Server, sc *session) {
 		}
 		pack := term.Encode()
 		err := sc.conn.AsyncWrite(pack, func(c gnet.Conn) error {
-			_ = sc.Conn().Flush()
-			// 给对方预留1秒钟响应连接关闭事件
-			time.Sleep(time.Second)
-			_ = sc.Conn().Close()
+			_ = c.Flush()
+			// 给对方预留1秒钟响应连接关闭事件，此回调在 event-loop 中执行，不能阻塞
+			time.AfterFunc(time.Second, func() { _ = c.Close() })
 			return nil
 		})
 		if err == nil {
-- 
2.43.0


From 7d35134d4c79831016b0b96b6f0ca9375c7489dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 43/72] fix: connections are not flushed outside of their event
 loop

---
 msc_server/server/cmpp_terminate_resp.go | 1 -
 msc_server/server/sgip_unbind_resp.go    | 1 -
 msc_server/server/smgp_exit_resp.go      | 1 -
 3 files changed, 3 deletions(-)

diff --git a/msc_server/server/cmpp_terminate_resp.go b/msc_server/server/cmpp_terminate_resp.go
index 48a74e8..64508ba 100644
--- a/msc_server/server/cmpp_terminate_resp.go
+++ b/msc_server/server/cmpp_terminate_resp.go
@@ -53,6 +53,5 @@ func handleCmppTerminateResp(s *Server, sc *session, term *cmpp.TerminateRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/sgip_unbind_resp.go b/msc_server/server/sgip_unbind_resp.go
index 0101546..29711fa 100644
--- a/msc_server/server/sgip_unbind_resp.go
+++ b/msc_server/server/sgip_unbind_resp.go
@@ -53,6 +53,5 @@ func handleSgipUnbindRsp(s *Server, sc *session, term *sgip.UnbindRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
diff --git a/msc_server/server/smgp_exit_resp.go b/msc_server/server/smgp_exit_resp.go
index 2c9d5aa..cf0ff92 100644
--- a/msc_server/server/smgp_exit_resp.go
+++ b/msc_server/server/smgp_exit_resp.go
@@ -53,6 +53,5 @@ func handleSmgpExitResp(s *Server, sc *session, term *smgp.ExitRsp) {
 	log.Debug(msg, FlatMapLog(sc.LogSession(), term.Log())...)
 
 	// 关闭连接
-	_ = sc.conn.Flush()
 	_ = sc.conn.Close()
 }
-- 
2.43.0


From 3ef24956be8eb1d4c669054354980d2745151e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:35 +0000
Subject: [PATCH 44/72] fix: CMPP and SMGP submit responses are correlated with
 their results

---
 msc_client/session/on_traffic_cmpp.go | 2 +-
 msc_client/session/on_traffic_smgp.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 0eabd81..b2cac23 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -83,7 +83,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = sub.Result()
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index dffad5a..f10eda4 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -83,7 +83,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			log.Error(err.Error())
 			s.Close()
 		}
-		result, ok := SequenceIdResultCacheMap.Load(sub.SequenceId)
+		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
 			mtr.Result = uint32(sub.Status())
-- 
2.43.0


From bf383f07351307618119e090c227791db406758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:37 +0000
Subject: [PATCH 45/72] fix: a submit response arriving at once or after a
 partial send is not lost

---
 msc_client/session/on_traffic_cmpp.go | 17 ++++++++++-------
 msc_client/session/on_traffic_sgip.go | 17 ++++++++++-------
 msc_client/session/on_traffic_smgp.go | 17 ++++++++++-------
 3 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index b2cac23..b328d83 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -15,20 +15,23 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := cmpp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*cmpp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 必须在发送前存储，否则可能先收到响应而丢失结果
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 返回已发送成功的部分
+			return
 		}
-		mtt := mt.(*cmpp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index e1163d1..285071d 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -14,20 +14,23 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := sgip.NewSubmit(s.authConf, []string{phone}, message, options...)
 	for _, mt := range mts {
+		mtt := mt.(*sgip.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = mtt.Sequence2Uint64()
+		r.Phone = phone
+		// 必须在发送前存储，否则可能先收到响应而丢失结果
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 返回已发送成功的部分
+			return
 		}
-		mtt := mt.(*sgip.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = mtt.Sequence2Uint64()
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index f10eda4..1a6ef16 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -15,20 +15,23 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 	mts := smgp.NewSubmit(s.authConf, []string{phone}, message, uint32(codec.B32Seq.NextVal()), options...)
 	for _, mt := range mts {
+		mtt := mt.(*smgp.Submit)
+		r := Result{SendTime: time.Now()}
+		r.SequenceId = uint64(mtt.SequenceId)
+		r.Phone = phone
+		// 必须在发送前存储，否则可能先收到响应而丢失结果
+		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
+
 		_, err := s.con.Write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
+			SequenceIdResultCacheMap.Delete(r.SequenceId)
 			s.Close()
-			return nil
+			// 返回已发送成功的部分
+			return
 		}
-		mtt := mt.(*smgp.Submit)
 		log.Debug(send, mtt.Log()...)
-
-		r := Result{SendTime: time.Now()}
-		r.SequenceId = uint64(mtt.SequenceId)
-		r.Phone = phone
 		results = append(results, &r)
-		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 	}
 	return
 }
-- 
2.43.0


From b82f747403ebfdbb742f65560dc415912639bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:54 +0000
Subject: [PATCH 46/72] fix: packets split over several reads do not break the
 session

---
 msc_client/session/session.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 00ff0bd..87004a9 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -117,8 +118,9 @@ func (s *Session) startReceiver() {
 						return
 					}
 					head := make([]byte, 12)
-					n, err := s.con.Read(head)
-					if n != 12 || err != nil {
+					// 一次Read可能只收到部分数据，必须读满
+					_, err := io.ReadFull(s.con, head)
+					if err != nil {
 						log.Errorf("[%s] Read Packet Head error: %v. Session closing...", s.serverName, err)
 						s.Close()
 						return
@@ -137,8 +139,8 @@ func (s *Session) startReceiver() {
 					var bodyLen = int(pkl) - 12
 					if bodyLen > 0 {
 						buff = make([]byte, bodyLen)
-						n, err = s.con.Read(buff)
-						if n != bodyLen || err != nil {
+						_, err = io.ReadFull(s.con, buff)
+						if err != nil {
 							log.Errorf("[%s] Read Packet Body error: %v. Session closing...", s.serverName, err)
 							s.Close()
 							return
@@ -196,8 +198,8 @@ func (s *Session) login() error {
 	log.Info(fmt.Sprintf("[%s] Send login to %v.", s.serverName, s.con.RemoteAddr()), pdu.Log()...)
 
 	data := make([]byte, respLen)
-	n, err := s.con.Read(data[:])
-	if err != nil || n != respLen {
+	n, err := io.ReadFull(s.con, data)
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From 7dc7ccaba8543f39b808c6da7cb7dbb2e9c347cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:56 +0000
Subject: [PATCH 47/72] fix: an undecodable or failing response closes the
 session instead of crashing

---
 msc_client/session/on_traffic_cmpp.go | 13 +++++++++----
 msc_client/session/on_traffic_sgip.go | 11 ++++++++---
 msc_client/session/on_traffic_smgp.go | 13 +++++++++----
 3 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index b328d83..279f0fc 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -45,10 +45,14 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_CONNECT_RESP:
 		resp := &cmpp.ConnectResp{Version: cmpp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != cmpp.ConnStatusOK {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status() != cmpp.ConnStatusOK {
+			s.Close()
 		}
 	case cmpp.CMPP_ACTIVE_TEST:
 		act := &cmpp.ActiveTest{}
@@ -81,11 +85,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_SUBMIT_RESP:
 		sub := &cmpp.SubmitRsp{Version: cmpp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
@@ -98,12 +103,12 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 285071d..2797f76 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -45,10 +45,14 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 	case sgip.SGIP_BIND_RESP:
 		resp := &sgip.BindRsp{}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status != sgip.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status != sgip.Status(0) {
+			s.Close()
 		}
 	case sgip.SGIP_UNBIND:
 		term := &sgip.Unbind{}
@@ -66,11 +70,12 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 	case sgip.SGIP_SUBMIT_RESP:
 		sub := &sgip.SubmitRsp{}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 1a6ef16..bff6c97 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -45,10 +45,14 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_LOGIN_RESP:
 		resp := &smgp.LoginRsp{Version: smgp.Version(s.authConf.Version)}
 		err := resp.Decode(seq, buff)
-		log.Info(receive, resp.Log()...)
-		if err != nil || resp.Status() != smgp.Status(0) {
+		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
+		}
+		log.Info(receive, resp.Log()...)
+		if resp.Status() != smgp.Status(0) {
+			s.Close()
 		}
 	case smgp.SMGP_ACTIVE_TEST:
 		act := &smgp.ActiveTest{}
@@ -81,11 +85,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_SUBMIT_RESP:
 		sub := &smgp.SubmitRsp{Version: smgp.Version(s.authConf.Version)}
 		err := sub.Decode(seq, buff)
-		log.Debug(receive, sub.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
+			return
 		}
+		log.Debug(receive, sub.Log()...)
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
@@ -98,12 +103,12 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
 		err := dly.Decode(seq, buff)
-		log.Debug(receive, dly.Log()...)
 		if err != nil {
 			log.Error(err.Error())
 			s.Close()
 			return
 		}
+		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
 		_, err = s.con.Write(resp.Encode())
 		log.Debug(send, resp.Log()...)
-- 
2.43.0


From 9c0ba47df8dbacd8b1f6e6045183b7bddeb5ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:21 +0000
Subject: [PATCH 48/72] fix: a failed login closes its connection and a silent
 gateway can not block login forever

---
 msc_client/session/session.go | 9 +++++++++
 msc_client/session_factory.go | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 87004a9..90044bc 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -31,6 +31,9 @@ type Session struct {
 	cancel        chan struct{} // 用以接收停止信号
 }
 
+// LoginTimeout 登录的最长时间
+const LoginTimeout = 10 * time.Second
+
 // 会话状态
 type stat byte
 
@@ -47,8 +50,14 @@ const (
 // NewSession 创建一个新会话并登录，且启动定时器和接收服务
 func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 	sc := &Session{con: con, authConf: ac, serverName: isp, stat: StatConnect}
+	// 登录期间限时，避免对端不响应时一直阻塞
+	_ = con.SetDeadline(time.Now().Add(LoginTimeout))
 	err := sc.login()
+	if err == nil {
+		err = con.SetDeadline(time.Time{})
+	}
 	if err != nil {
+		_ = con.Close()
 		log.Error("create session error: " + err.Error())
 		return nil
 	}
diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 05e184b..337080c 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -107,7 +107,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	}
 
 	// 立即初始化一个连接
-	c, err := net.Dial("tcp", address)
+	c, err := net.DialTimeout("tcp", address, session.LoginTimeout)
 	if err == nil {
 		sc := session.NewSession(isp, ac, c)
 		if sc != nil {
@@ -333,7 +333,7 @@ func (f *SessionFactory) Swap(i, j int) {
 
 func (f *SessionFactory) newConnect() {
 	// 立即初始化一个连接
-	c, err := net.Dial("tcp", f.serverAddr)
+	c, err := net.DialTimeout("tcp", f.serverAddr, session.LoginTimeout)
 	if err == nil {
 		sc := session.NewSession(f.srvName, f.authConf, c)
 		if sc != nil {
-- 
2.43.0


From ad3bea79a42ded18bb5f57afecc15031c3d92123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 49/72] fix: a heartbeat that can not be sent marks the session
 unhealthy

---
 msc_client/session/session.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 90044bc..3bad302 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -304,7 +304,6 @@ func (s *Session) ActiveTest() error {
 		log.Info(msg, active.Log()...)
 	} else {
 		log.Error(msg + err.Error())
-		return nil
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 7154f9876804a64af01498c655469715454bb0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:24 +0000
Subject: [PATCH 50/72] fix: session state shared by senders, receiver and
 ticker is guarded by its lock

---
 msc_client/session/on_traffic_cmpp.go |  2 +-
 msc_client/session/on_traffic_sgip.go |  2 +-
 msc_client/session/on_traffic_smgp.go |  2 +-
 msc_client/session/session.go         | 32 +++++++++++++++++++++------
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 279f0fc..66e6f01 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -37,7 +37,7 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 2797f76..8117847 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -37,7 +37,7 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 
 func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index bff6c97..340ce95 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -37,7 +37,7 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 }
 
 func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
-	s.activeTime = time.Now()
+	s.touch()
 	var receive = fmt.Sprintf("[%s] OnTraffic <<<", s.serverName)
 	var send = fmt.Sprintf("[%s] OnTraffic >>>", s.serverName)
 
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index 3bad302..daf26c8 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -62,16 +62,24 @@ func NewSession(isp string, ac *codec.AuthConf, con net.Conn) *Session {
 		return nil
 	}
 	sc.cancel = make(chan struct{}, 1)
-	sc.startReceiver()
 	sc.createTime = time.Now()
-	sc.activeTime = time.Now()
+	sc.startReceiver()
 	return sc
 }
 
 func (s *Session) ResetCounter() {
+	s.Lock()
+	defer s.Unlock()
 	s.periodCounter = 0
 }
 
+// 更新活跃时间
+func (s *Session) touch() {
+	s.Lock()
+	defer s.Unlock()
+	s.activeTime = time.Now()
+}
+
 func (s *Session) AddCounter() {
 	s.AddCounterN(1)
 }
@@ -90,24 +98,27 @@ func (s *Session) LruPriority() uint64 {
 	if !s.HealthCheck() {
 		return 0
 	}
+	s.Lock()
+	defer s.Unlock()
 	return 1e10 - s.periodCounter
 }
 
 func (s *Session) Close() {
-	if s == nil || s.stat == StatClosing {
+	if s == nil {
 		return
 	}
 
 	s.Lock()
 	defer s.Unlock()
+	if s.stat == StatClosing {
+		return
+	}
 
 	// 关闭连接
 	s.stat = StatClosing
 	_ = s.con.Close()
 	// 发送取消信号
 	s.cancel <- struct{}{}
-	s.con = nil
-	s.authConf = nil
 }
 
 // startReceiver 启动接收服务
@@ -266,16 +277,23 @@ func (s *Session) login() error {
 			log.Info(fmt.Sprintf("[%s] Login result", s.serverName), resp.Log()...)
 		}
 	}
+	s.Lock()
+	defer s.Unlock()
 	s.stat = StatLogin
 	s.activeTime = time.Now()
 	return nil
 }
 
 func (s *Session) HealthCheck() bool {
-	ok := s != nil && s.stat == StatLogin && s.con != nil && s.authConf != nil && s.cancel != nil
+	if s == nil {
+		return false
+	}
+	s.Lock()
+	ok, activeTime := s.stat == StatLogin, s.activeTime
+	s.Unlock()
 
 	// 活跃状态为1分钟前，则发送心跳验证
-	if ok && s.activeTime.Add(time.Minute).Before(time.Now()) {
+	if ok && activeTime.Add(time.Minute).Before(time.Now()) {
 		err := s.ActiveTest()
 		if err != nil {
 			return false
-- 
2.43.0


From 955816ad345744ec5ae27c06a53c7839886bb27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:50 +0000
Subject: [PATCH 51/72] fix: results are read, expired and updated concurrently
 without races or lost entries

---
 msc_client/api.go                     | 16 ++++---
 msc_client/session/on_traffic_cmpp.go | 10 ++---
 msc_client/session/on_traffic_sgip.go |  7 ++--
 msc_client/session/on_traffic_smgp.go | 10 ++---
 msc_client/session/send_sms.go        | 60 +++++++++++++++++++++++----
 msc_client/session_factory.go         |  6 +--
 6 files changed, 76 insertions(+), 33 deletions(-)

diff --git a/msc_client/api.go b/msc_client/api.go
index a8da77c..e1456e1 100644
--- a/msc_client/api.go
+++ b/msc_client/api.go
@@ -44,19 +44,25 @@ func Query(queryId int64) []any {
 	if ok {
 		result, ok := value.([]any)
 		if ok {
-			_, ok := result[0].(*session.Result)
-			if ok {
-				return result
-			}
+			return snapshots(result)
 		}
 	}
 	return nil
 }
 
+// snapshots 返回发送结果的副本，发送结果随时可能被接收服务更新
+func snapshots(results []any) []any {
+	ret := make([]any, 0, len(results))
+	for _, a := range results {
+		ret = append(ret, a.(*session.Result).Snapshot())
+	}
+	return ret
+}
+
 func saveQueryCache(key int64, value []any) {
 	for _, a := range value {
 		r := a.(*session.Result)
-		r.QueryId = key
+		r.SetQueryId(key)
 	}
 	resultQueryCacheMap.Store(key, value)
 }
diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 66e6f01..40dce8c 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -94,11 +94,10 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
-			mtr.Result = sub.Result()
-			mtr.MsgId = utils.Uint64HexString(sub.MsgId())
-			mtr.ResponseTime = time.Now()
+			msgId := utils.Uint64HexString(sub.MsgId())
+			mtr.onResponse(sub.Result(), msgId)
 			// 已msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
+			MsgIdResultCacheMap.Store(msgId, mtr)
 		}
 	case cmpp.CMPP_DELIVER:
 		dly := &cmpp.Delivery{Version: cmpp.Version(s.authConf.Version)}
@@ -126,8 +125,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 			val, ok := MsgIdResultCacheMap.Load(key)
 			if ok {
 				mtr := val.(*Result)
-				mtr.Report = rpt.Stat()
-				mtr.ReportTime = time.Now()
+				mtr.onReport(rpt.Stat())
 			}
 		}
 	}
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 8117847..16a40bf 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -79,11 +79,10 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		result, ok := SequenceIdResultCacheMap.Load(sub.Sequence2Uint64())
 		if ok {
 			mtr := result.(*Result)
-			mtr.Result = uint32(sub.Status)
-			mtr.MsgId = sub.Sequence2String()
-			mtr.ResponseTime = time.Now()
+			msgId := sub.Sequence2String()
+			mtr.onResponse(uint32(sub.Status), msgId)
 			// 以msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
+			MsgIdResultCacheMap.Store(msgId, mtr)
 		}
 	}
 }
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 340ce95..0013d99 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -94,11 +94,10 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		result, ok := SequenceIdResultCacheMap.Load(uint64(sub.SequenceId))
 		if ok {
 			mtr := result.(*Result)
-			mtr.Result = uint32(sub.Status())
-			mtr.MsgId = hex.EncodeToString(sub.MsgId())
-			mtr.ResponseTime = time.Now()
+			msgId := hex.EncodeToString(sub.MsgId())
+			mtr.onResponse(uint32(sub.Status()), msgId)
 			// 已msgId为Key存储到内存缓存
-			MsgIdResultCacheMap.Store(mtr.MsgId, mtr)
+			MsgIdResultCacheMap.Store(msgId, mtr)
 		}
 	case smgp.SMGP_DELIVER:
 		dly := &smgp.Delivery{Version: smgp.Version(s.authConf.Version)}
@@ -126,8 +125,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 			val, ok := MsgIdResultCacheMap.Load(key)
 			if ok {
 				mtr := val.(*Result)
-				mtr.Report = rpt.Stat()
-				mtr.ReportTime = time.Now()
+				mtr.onReport(rpt.Stat())
 			}
 		}
 	}
diff --git a/msc_client/session/send_sms.go b/msc_client/session/send_sms.go
index 2b72355..c4fc446 100644
--- a/msc_client/session/send_sms.go
+++ b/msc_client/session/send_sms.go
@@ -8,15 +8,57 @@ import (
 )
 
 type Result struct {
-	QueryId      int64     `json:"QueryId"`      // 给客户端用的查询编号
-	Phone        string    `json:"phone"`        // 手机号
-	SequenceId   uint64    `json:"sequenceId"`   // 消息发送的标识
-	Result       uint32    `json:"result"`       // 消息发送的网关响应码
-	MsgId        string    `json:"msgId"`        // 消息的msgId用于关联状态报告
-	Report       string    `json:"report"`       // DELIVRD 等7直接状态码
-	SendTime     time.Time `json:"sendTime"`     // 发送时间
-	ResponseTime time.Time `json:"responseTime"` // 网关响应时间
-	ReportTime   time.Time `json:"reportTime"`   // 状态报告时间
+	mu           sync.Mutex // 接收响应、状态报告与查询是并发的
+	QueryId      int64      `json:"QueryId"`      // 给客户端用的查询编号
+	Phone        string     `json:"phone"`        // 手机号
+	SequenceId   uint64     `json:"sequenceId"`   // 消息发送的标识
+	Result       uint32     `json:"result"`       // 消息发送的网关响应码
+	MsgId        string     `json:"msgId"`        // 消息的msgId用于关联状态报告
+	Report       string     `json:"report"`       // DELIVRD 等7直接状态码
+	SendTime     time.Time  `json:"sendTime"`     // 发送时间
+	ResponseTime time.Time  `json:"responseTime"` // 网关响应时间
+	ReportTime   time.Time  `json:"reportTime"`   // 状态报告时间
+}
+
+// Snapshot 返回当前结果的副本
+func (r *Result) Snapshot() *Result {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return &Result{
+		QueryId:      r.QueryId,
+		Phone:        r.Phone,
+		SequenceId:   r.SequenceId,
+		Result:       r.Result,
+		MsgId:        r.MsgId,
+		Report:       r.Report,
+		SendTime:     r.SendTime,
+		ResponseTime: r.ResponseTime,
+		ReportTime:   r.ReportTime,
+	}
+}
+
+// SetQueryId 设置查询编号
+func (r *Result) SetQueryId(queryId int64) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.QueryId = queryId
+}
+
+// 收到网关响应
+func (r *Result) onResponse(result uint32, msgId string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.Result = result
+	r.MsgId = msgId
+	r.ResponseTime = time.Now()
+}
+
+// 收到状态报告
+func (r *Result) onReport(stat string) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.Report = stat
+	r.ReportTime = time.Now()
 }
 
 // SequenceIdResultCacheMap 临时存储短信发送的返回结果数据，Key为requestId,value为*Result，后续采用数据库存储
diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 337080c..79123a7 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -201,7 +201,7 @@ func cleanQueryCacheMap(asyncHandler func([]any)) {
 			r0 := results[0].(*session.Result)
 			if r0.SendTime.Add(d).Before(time.Now()) {
 				expired = append(expired, id)
-				batch = append(batch, results...)
+				batch = append(batch, snapshots(results)...)
 			}
 		}
 		// 如果过期处理器不为空，异步处理结果数据
@@ -230,7 +230,7 @@ func cleanRequestIdCacheMap() {
 		}
 		result := value.(*session.Result)
 		if result.SendTime.Add(d).Before(time.Now()) {
-			expiredKeys = append(expiredKeys, result.SequenceId)
+			expiredKeys = append(expiredKeys, key.(uint64))
 		}
 		return true
 	})
@@ -249,7 +249,7 @@ func cleanMsgIdCacheMap() {
 		}
 		result := value.(*session.Result)
 		if result.SendTime.Add(d).Before(time.Now()) {
-			expiredKeys = append(expiredKeys, result.MsgId)
+			expiredKeys = append(expiredKeys, key.(string))
 		}
 		return true
 	})
-- 
2.43.0


From 362ae47030952a243ffb502fc40bb07edc3c35dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:06 +0000
Subject: [PATCH 52/72] fix: picking a session neither races with the pool nor
 waits forever without a gateway

---
 msc_client/session_factory.go | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 79123a7..da45240 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -140,24 +140,34 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	return factory
 }
 
-// PeekSession 获取排序后在头部的会话（最近最少使用的会话）
+// 没有可用会话时的最长等待时间
+const peekTimeout = 3 * time.Second
+
+// PeekSession 获取排序后最靠前的正常会话（最近最少使用的会话），被限速或无可用会话时返回nil
 func (f *SessionFactory) PeekSession() *session.Session {
 	if !f.limiter.Allow() {
 		return nil
 	}
 
-	if len(f.sessions) > 0 && f.sessions[0] == nil && f.sessions[0].HealthCheck() {
-		return f.sessions[0]
-	}
-
-	var ret *session.Session
-	for ret == nil || !ret.HealthCheck() {
-		time.Sleep(time.Millisecond)
-		if len(f.sessions) > 0 {
-			ret = f.sessions[0]
+	deadline := time.Now().Add(peekTimeout)
+	for {
+		for _, sc := range f.snapshot() {
+			if sc.HealthCheck() {
+				return sc
+			}
 		}
+		if time.Now().After(deadline) {
+			return nil
+		}
+		time.Sleep(time.Millisecond)
 	}
-	return ret
+}
+
+// snapshot 会话列表的副本
+func (f *SessionFactory) snapshot() []*session.Session {
+	f.Lock()
+	defer f.Unlock()
+	return append([]*session.Session(nil), f.sessions...)
 }
 
 // StartCacheExpireTicker 过期数据定期检查器
@@ -300,7 +310,7 @@ func (f *SessionFactory) lruSort(cancel <-chan bool) {
 	f.sessions = newSlice
 	f.Unlock()
 
-	for len(f.sessions) < maxConns {
+	for len(f.snapshot()) < maxConns {
 		select {
 		case <-cancel:
 			log.Info("Receive signal and stop create new connects.")
@@ -349,7 +359,7 @@ func (f *SessionFactory) newConnect() {
 func (f *SessionFactory) RegCloseSessionsHooker() {
 	event_manager.RegisterShutdownHooker(fmt.Sprintf("CloseSessionHooker_%p", f), func(args ...any) {
 		close(f.window)
-		for _, sc := range f.sessions {
+		for _, sc := range f.snapshot() {
 			sc.Close()
 			log.Warnf("session %p closed.", sc)
 		}
-- 
2.43.0


From a6c8c5140cfa486a28856bcf468c808b0e73f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:01 +0000
Subject: [PATCH 53/72] fix: an SGIP upstream message is never cut inside a
 character

---
 codec/sgip/deliver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codec/sgip/deliver.go b/codec/sgip/deliver.go
index 9e16c6f..6e49d78 100644
--- a/codec/sgip/deliver.go
+++ b/codec/sgip/deliver.go
@@ -43,6 +43,10 @@ func NewDeliver(ac *codec.AuthConf, phone, content, destNo string) codec.Request
 		bs, _ = utils.Utf8ToUcs2(content)
 		if len(bs) > 140 {
 			bs = bs[:140]
+			// 末尾是高位代理时，该字符不完整，须整个去除
+			if bs[138]&0xfc == 0xd8 {
+				bs = bs[:138]
+			}
 		}
 	} else {
 		bs = []byte(content)
-- 
2.43.0


From f52406cbc20cca88799caff27061042f96b50978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:35 +0000
Subject: [PATCH 54/72] fix: printing a received SMGP submit with a short text
 does not panic

---
 codec/smgp/submit.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/smgp/submit.go b/codec/smgp/submit.go
index 9152134..b34f23c 100644
--- a/codec/smgp/submit.go
+++ b/codec/smgp/submit.go
@@ -220,8 +220,8 @@ func (s *Submit) ToResponse(code uint32) codec.Pdu {
 
 func (s *Submit) String() string {
 	bts := s.msgContent
-	if s.msgLength > 6 {
-		bts = s.msgContent[:6]
+	if len(bts) > 6 {
+		bts = bts[:6]
 	}
 	return fmt.Sprintf("{ header: %s, msgType: %v, NeedReport: %v, LruPriority: %v, ServiceID: %v, "+
 		"feeType: %v, feeCode: %v, fixedFee: %v, msgFormat: %v, validTime: %v, AtTime: %v, SrcTermID: %v, "+
-- 
2.43.0


From 4b9bf43ccf524fcaecbf9ad08fa07f7661ccaf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:09 +0000
Subject: [PATCH 55/72] fix: accounts whose id has upper-case letters are found
 in the file store

---
 auth/yaml_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/auth/yaml_store.go b/auth/yaml_store.go
index 326d73c..1bec3eb 100644
--- a/auth/yaml_store.go
+++ b/auth/yaml_store.go
@@ -47,7 +47,8 @@ func (y *YamlStore) Load() {
 		if len(key) < 4 {
 			continue
 		}
-		id := strings.ToLower(key)
+		// 运营商不区分大小写，客户端ID须与登录时使用的一致
+		id := strings.ToLower(key[:4]) + key[4:]
 		data, err := ioutil.ReadFile(dir + f.Name())
 		if err != nil {
 			log.Errorf("Config file init error: %v", err)
-- 
2.43.0


From fde9d29f36d25a1436a9c20b8237a739481d7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:40 +0000
Subject: [PATCH 56/72] fix: SGIP Bind_Resp has its 8 reserved octets (29
 octets) as the protocol says

---
 codec/sgip/bind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codec/sgip/bind.go b/codec/sgip/bind.go
index b7c2826..389a0c3 100644
--- a/codec/sgip/bind.go
+++ b/codec/sgip/bind.go
@@ -10,7 +10,7 @@ import (
 )
 
 const BindPkgLen = 61
-const BindRspPkgLen = 21
+const BindRspPkgLen = 29
 
 // Bind 登录报文结构体【61 bytes】
 type Bind struct {
@@ -77,7 +77,7 @@ func (b *Bind) Check(ac *codec.AuthConf) Status {
 
 func (b *Bind) ToResponse(code uint32) codec.Pdu {
 	rsp := &BindRsp{}
-	rsp.PacketLength = 21
+	rsp.PacketLength = BindRspPkgLen
 	rsp.CommandId = SGIP_BIND_RESP
 	rsp.SequenceNumber = b.SequenceNumber
 	rsp.Status = Status(code)
-- 
2.43.0


From ad4d214abd0740d1e9a98a31ecf47fc81dfd085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 57/72] fix: the client does not block forever when a gateway
 stops reading

---
 msc_client/session/on_traffic_cmpp.go |  8 ++++----
 msc_client/session/on_traffic_sgip.go |  4 ++--
 msc_client/session/on_traffic_smgp.go |  8 ++++----
 msc_client/session/session.go         | 21 ++++++++++++++++++++-
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/msc_client/session/on_traffic_cmpp.go b/msc_client/session/on_traffic_cmpp.go
index 40dce8c..f9cff41 100644
--- a/msc_client/session/on_traffic_cmpp.go
+++ b/msc_client/session/on_traffic_cmpp.go
@@ -22,7 +22,7 @@ func (s *Session) sendByCmpp(phone string, message string, options ...codec.Opti
 		// 必须在发送前存储，否则可能先收到响应而丢失结果
 		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 
-		_, err := s.con.Write(mt.Encode())
+		err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
@@ -59,7 +59,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		_ = act.Decode(seq, buff)
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
-		_, err := s.con.Write(resp.Encode())
+		err := s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
@@ -74,7 +74,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case cmpp.CMPP_TERMINATE_RESP:
@@ -109,7 +109,7 @@ func (s *Session) onTrafficCmpp(cmd, seq uint32, buff []byte) {
 		}
 		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
-		_, err = s.con.Write(resp.Encode())
+		err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
diff --git a/msc_client/session/on_traffic_sgip.go b/msc_client/session/on_traffic_sgip.go
index 16a40bf..5791cb0 100644
--- a/msc_client/session/on_traffic_sgip.go
+++ b/msc_client/session/on_traffic_sgip.go
@@ -21,7 +21,7 @@ func (s *Session) sendBySgip(phone string, message string, options ...codec.Opti
 		// 必须在发送前存储，否则可能先收到响应而丢失结果
 		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 
-		_, err := s.con.Write(mt.Encode())
+		err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
@@ -59,7 +59,7 @@ func (s *Session) onTrafficSgip(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case sgip.SGIP_UNBIND_RESP:
diff --git a/msc_client/session/on_traffic_smgp.go b/msc_client/session/on_traffic_smgp.go
index 0013d99..48800ae 100644
--- a/msc_client/session/on_traffic_smgp.go
+++ b/msc_client/session/on_traffic_smgp.go
@@ -22,7 +22,7 @@ func (s *Session) sendBySmgp(phone string, message string, options ...codec.Opti
 		// 必须在发送前存储，否则可能先收到响应而丢失结果
 		SequenceIdResultCacheMap.Store(r.SequenceId, &r)
 
-		_, err := s.con.Write(mt.Encode())
+		err := s.write(mt.Encode())
 		if err != nil {
 			log.Error(err.Error())
 			SequenceIdResultCacheMap.Delete(r.SequenceId)
@@ -59,7 +59,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		_ = act.Decode(seq, buff)
 		log.Info(receive, act.Log()...)
 		resp := act.ToResponse(0)
-		_, err := s.con.Write(resp.Encode())
+		err := s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
@@ -74,7 +74,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		_ = term.Decode(seq, buff)
 		log.Info(receive, term.Log()...)
 		resp := term.ToResponse(0)
-		_, _ = s.con.Write(resp.Encode())
+		_ = s.write(resp.Encode())
 		log.Info(send, resp.Log()...)
 		s.Close()
 	case smgp.SMGP_EXIT_RESP:
@@ -109,7 +109,7 @@ func (s *Session) onTrafficSmgp(cmd, seq uint32, buff []byte) {
 		}
 		log.Debug(receive, dly.Log()...)
 		resp := dly.ToResponse(0)
-		_, err = s.con.Write(resp.Encode())
+		err = s.write(resp.Encode())
 		log.Debug(send, resp.Log()...)
 		if err != nil {
 			log.Error(err.Error())
diff --git a/msc_client/session/session.go b/msc_client/session/session.go
index daf26c8..2d7f59a 100644
--- a/msc_client/session/session.go
+++ b/msc_client/session/session.go
@@ -21,6 +21,7 @@ type Session struct {
 	sync.Mutex
 
 	con           net.Conn
+	writeMu       sync.Mutex // 写操作互斥，写超时对单次写有效
 	authConf      *codec.AuthConf
 	serverName    string
 	stat          stat
@@ -34,6 +35,9 @@ type Session struct {
 // LoginTimeout 登录的最长时间
 const LoginTimeout = 10 * time.Second
 
+// WriteTimeout 写一个报文的最长时间，超时说明对端已不再接收数据
+const WriteTimeout = 10 * time.Second
+
 // 会话状态
 type stat byte
 
@@ -92,6 +96,21 @@ func (s *Session) AddCounterN(n uint64) {
 	s.activeTime = time.Now()
 }
 
+// 写一个报文，对端不接收数据时不会一直阻塞
+func (s *Session) write(frame []byte) error {
+	s.writeMu.Lock()
+	defer s.writeMu.Unlock()
+	err := s.con.SetWriteDeadline(time.Now().Add(WriteTimeout))
+	if err == nil {
+		_, err = s.con.Write(frame)
+	}
+	if err != nil {
+		// 可能已写出部分数据，连接不能再使用
+		_ = s.con.Close()
+	}
+	return err
+}
+
 // LruPriority 最近最少使用的优先级最高
 func (s *Session) LruPriority() uint64 {
 	// 非正常会话优先级最低
@@ -317,7 +336,7 @@ func (s *Session) ActiveTest() error {
 		return nil
 	}
 	pack := active.Encode()
-	_, err := s.con.Write(pack)
+	err := s.write(pack)
 	if err == nil {
 		log.Info(msg, active.Log()...)
 	} else {
-- 
2.43.0


From db7dbf293f4fd00ccd064843114b822de1a0192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:39 +0000
Subject: [PATCH 58/72] fix: a gateway account's rate is its configured
 throughput, not rounded up

---
 msc_server/server/session.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/msc_server/server/session.go b/msc_server/server/session.go
index 7633359..e4b8836 100644
--- a/msc_server/server/session.go
+++ b/msc_server/server/session.go
@@ -93,13 +93,12 @@ func (s *session) completeLogin(ac *codec.AuthConf) {
 }
 
 func (s *session) setupLimiter(ac *codec.AuthConf) {
-	// 默认1W微妙即10毫秒生成一个token，也即tps最大200
-	ev := 10 * time.Millisecond
-	if ac != nil && ac.Throughput != 0 {
-		// 1s = 1000*1000 microsecond = 1000000 microsecond, Throughput 单位时TPS
-		ev = time.Duration(1000000/ac.Throughput) * time.Microsecond
+	// 默认10毫秒生成一个token，也即tps最大100
+	limit := rate.Every(10 * time.Millisecond)
+	if ac != nil && ac.Throughput > 0 {
+		// Throughput 单位是TPS，不换算为整数微秒，否则实际速率会超过配置值
+		limit = rate.Limit(ac.Throughput)
 	}
-	limit := rate.Every(ev)
 	s.limiter = rate.NewLimiter(limit, cap(s.window))
 }
 
-- 
2.43.0


From 28dcce29162bd45f2b120cfc8de951395e240b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 59/72] fix: the client's rate is its configured throughput,
 not rounded up

---
 msc_client/session_factory.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index da45240..8bd68d8 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -124,14 +124,13 @@ func CreateSessionFactory(isp string) *SessionFactory {
 		factory.window = make(chan struct{}, 16)
 	}
 
-	// 默认1W微妙即10毫秒生成一个token，也即tps最大200
-	ev := 10 * time.Millisecond
+	// 默认10毫秒生成一个token，也即tps最大100
+	limit := rate.Every(10 * time.Millisecond)
 	throughput := ConfigYml.GetInt(isp + ".throughput")
 	if throughput > 0 {
-		// 1s = 1000*1000 microsecond = 1000000 microsecond, Throughput 单位时TPS
-		ev = time.Duration(1000000/throughput) * time.Microsecond
+		// throughput 单位是TPS，不换算为整数微秒，否则实际速率会超过配置值
+		limit = rate.Limit(throughput)
 	}
-	limit := rate.Every(ev)
 	factory.limiter = rate.NewLimiter(limit, cap(factory.window))
 	factory.startLruSortTicker()
 	factory.RegCloseSessionsHooker()
-- 
2.43.0


From a6aafcdd1d8cff229a6cdd370dac560be8454c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:13 +0000
Subject: [PATCH 60/72] fix: a reload of the mongo store replaces the accounts
 as a whole, or not at all

---
 auth/mongo_store.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index a47b2c2..13322eb 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -29,16 +29,43 @@ func (m *MongoStore) Load() {
 		return
 	}
 
-	m.Lock()
-	defer m.Unlock()
+	defer func() { _ = cursor.Close(ctx) }()
+
+	old := m.snapshot()
+	cache := make(map[string]*Client, len(old))
 	for cursor.Next(ctx) {
 		c := &Client{}
 		err := cursor.Decode(c)
-		if err != nil {
-			return
+		if err == nil {
+			cache[c.ISP+"_"+c.ClientId] = c
+			continue
+		}
+		log.Errorf("Client document error: %v", err)
+		// 文档解析失败时，沿用之前的配置
+		k := struct{ ISP, ClientId string }{}
+		if cursor.Decode(&k) == nil {
+			id := k.ISP + "_" + k.ClientId
+			if cli, ok := old[id]; ok {
+				cache[id] = cli
+			}
 		}
-		m.Cache[c.ISP+"_"+c.ClientId] = c
 	}
+	if err := cursor.Err(); err != nil {
+		// 未能读取全部数据，保留已加载的配置
+		log.Error(err.Error())
+		return
+	}
+
+	// 整体替换，已删除的配置不再有效
+	m.Lock()
+	defer m.Unlock()
+	m.Cache = cache
+}
+
+func (m *MongoStore) snapshot() map[string]*Client {
+	m.Lock()
+	defer m.Unlock()
+	return m.Cache
 }
 
 func (m *MongoStore) FindByCid(isp string, cid string) (c *Client) {
-- 
2.43.0


From 8d3605cb5aef685efd776f6ca3ced62417ed8355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:15 +0000
Subject: [PATCH 61/72] fix: accounts in mongo are found whatever the case of
 their protocol name

---
 auth/mongo_store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auth/mongo_store.go b/auth/mongo_store.go
index 13322eb..9c9a9cf 100644
--- a/auth/mongo_store.go
+++ b/auth/mongo_store.go
@@ -37,14 +37,14 @@ func (m *MongoStore) Load() {
 		c := &Client{}
 		err := cursor.Decode(c)
 		if err == nil {
-			cache[c.ISP+"_"+c.ClientId] = c
+			cache[strings.ToLower(c.ISP)+"_"+c.ClientId] = c
 			continue
 		}
 		log.Errorf("Client document error: %v", err)
 		// 文档解析失败时，沿用之前的配置
 		k := struct{ ISP, ClientId string }{}
 		if cursor.Decode(&k) == nil {
-			id := k.ISP + "_" + k.ClientId
+			id := strings.ToLower(k.ISP) + "_" + k.ClientId
 			if cli, ok := old[id]; ok {
 				cache[id] = cli
 			}
-- 
2.43.0


From cc0794c0575084a1db67bcb80453369fb767aee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 62/72] fix: registered events do not share memory with the
 caller's slice

---
 event_manager/event_manage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/event_manager/event_manage.go b/event_manager/event_manage.go
index 8dcbd93..51bea61 100644
--- a/event_manager/event_manage.go
+++ b/event_manager/event_manage.go
@@ -38,7 +38,8 @@ func RegisterShutdownHooker(key string, hookers ...Event) bool {
 // 当执行优雅停机时，events 会先被执行，然后发送信号给通道
 func RegisterShutdownHookerAddChan(key string, events ...Event) <-chan bool {
 	cancel := make(chan bool, 1)
-	events = append(events, func(args ...any) {
+	// 不能写入调用者的切片
+	events = append(events[:len(events):len(events)], func(args ...any) {
 		cancel <- true
 	})
 	ok := RegisterShutdownHooker(key, events...)
@@ -62,6 +63,8 @@ func (m *eventManage) Register(key string, events ...Event) bool {
 	if !strings.HasPrefix(key, m.prefix) {
 		key = m.prefix + key
 	}
+	// 调用者之后可能修改其切片
+	events = append([]Event(nil), events...)
 	// 判断key下是否已有事件，判断与存储须是原子操作
 	if _, exists := sMap.LoadOrStore(key, func(args ...any) {
 		for _, fn := range events {
-- 
2.43.0


From ac2b8b97da78ddb4b4082118bd7af41486db9ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 63/72] fix: a connection logs in once, a second login does not
 bring a new allowance

---
 msc_server/server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 0bcbbe5..2ec7d95 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -104,6 +104,10 @@ func (s *Server) CountSessionByClientId(clientId string) (counter int) {
 func (s *Server) ReserveLogin(sc *session, clientId string, maxConns int) bool {
 	s.Lock()
 	defer s.Unlock()
+	// 一个连接只能登录一次，重复登录会得到新的限速器，从而突破客户端的最大吞吐
+	if sc.ClientId() != "" {
+		return false
+	}
 	if s.countSession(clientId) >= maxConns {
 		return false
 	}
-- 
2.43.0


From 5c0d15375496a219064c70ca27d8e01f344d3f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:29 +0000
Subject: [PATCH 64/72] fix: the pid file keeps the end of a longer one found
 at the start

---
 msc_server/cmd/gosmc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_server/cmd/gosmc.go b/msc_server/cmd/gosmc.go
index 85f2544..91bb1fe 100644
--- a/msc_server/cmd/gosmc.go
+++ b/msc_server/cmd/gosmc.go
@@ -36,7 +36,7 @@ func main() {
 
 // 在程序执行的当前目录生成pid文件
 func savePid(pf string) string {
-	file, err := os.OpenFile(pf, os.O_WRONLY|os.O_CREATE, 0600)
+	file, err := os.OpenFile(pf, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600)
 	if err != nil {
 		log.Errorf("%v", err)
 	}
-- 
2.43.0


From 32aa289cf9ae39355f5cc03a2cedb0e74a21e9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:31 +0000
Subject: [PATCH 65/72] fix: a second signal during the shutdown crashes the
 process

---
 msc_client/destory.go | 4 ++--
 msc_server/destory.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msc_client/destory.go b/msc_client/destory.go
index 46036c8..640d662 100644
--- a/msc_client/destory.go
+++ b/msc_client/destory.go
@@ -18,8 +18,8 @@ func init() {
 		// 控制关闭 main goroutine
 		defer func() { statChan <- struct{}{} }()
 		// 接收信号
-		var c = make(chan os.Signal)
-		defer close(c)
+		// 不能关闭该通道，停机过程中再次收到信号会向已关闭的通道写入而崩溃
+		var c = make(chan os.Signal, 1)
 
 		// 监听可能的退出信号
 		signal.Notify(c, os.Interrupt, os.Kill, syscall.SIGQUIT, syscall.SIGINT, syscall.SIGTERM)
diff --git a/msc_server/destory.go b/msc_server/destory.go
index 1e01017..d870114 100644
--- a/msc_server/destory.go
+++ b/msc_server/destory.go
@@ -17,8 +17,8 @@ func init() {
 		// 控制关闭 main goroutine
 		defer func() { statChan <- struct{}{} }()
 		// 接收信号
-		var c = make(chan os.Signal)
-		defer close(c)
+		// 不能关闭该通道，停机过程中再次收到信号会向已关闭的通道写入而崩溃
+		var c = make(chan os.Signal, 1)
 
 		// 监听可能的退出信号
 		signal.Notify(c, os.Interrupt, os.Kill, syscall.SIGQUIT, syscall.SIGINT, syscall.SIGTERM)
-- 
2.43.0


From f291cb7b812cf6f2a7d9a0a18bdc33dc35362a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:19 +0000
Subject: [PATCH 66/72] fix: the client program sends every message to the last
 number

---
 msc_client/cmd/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msc_client/cmd/client.go b/msc_client/cmd/client.go
index 24afca0..5812fac 100644
--- a/msc_client/cmd/client.go
+++ b/msc_client/cmd/client.go
@@ -31,6 +31,7 @@ func main() {
 		arr := strings.Split(*phone, ",")
 		for i > 0 {
 			for _, s := range arr {
+				s := s // 异步执行时不能共用循环变量
 				err := sms.AsyncPool().Submit(func() {
 					sms.Send(*message, s)
 				})
-- 
2.43.0


From 72274f757fa32a430d5d27ae2c5b3272785aca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:50 +0000
Subject: [PATCH 67/72] fix: keep the database's credentials out of the log

---
 database/mongodb/mongo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/mongodb/mongo.go b/database/mongodb/mongo.go
index 6c98ec9..6e9d250 100644
--- a/database/mongodb/mongo.go
+++ b/database/mongodb/mongo.go
@@ -69,6 +69,6 @@ func setConnect(config yaml_config.YmlConfig, prefix string) *mongo.Client {
 	if err != nil {
 		log.Panic(err.Error())
 	}
-	log.Infof("Connected to %s", uri)
+	log.Infof("Connected to %s", strings.Join(option.Hosts, ","))
 	return client
 }
-- 
2.43.0


From 1865e8ceece9b7379675c865d8e747b4794f4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:52 +0000
Subject: [PATCH 68/72] fix: let the gateway start anew while connections of
 the last run are in TIME_WAIT

---
 msc_server/server/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msc_server/server/server.go b/msc_server/server/server.go
index 2ec7d95..08bf226 100644
--- a/msc_server/server/server.go
+++ b/msc_server/server/server.go
@@ -46,6 +46,7 @@ func Start(s *Server) {
 		err := gnet.Run(
 			s,
 			addr,
+			gnet.WithReuseAddr(true), // 重启时，旧连接的TIME_WAIT状态不应妨碍监听
 			gnet.WithTicker(true),
 			gnet.WithMulticore(s.multicore),
 			gnet.WithLogger(log.Default().Sugar()),
-- 
2.43.0


From d6ce19df22189234487cdb1819f75ece0b0a3fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:21 +0000
Subject: [PATCH 69/72] fix: custom logs follow their configured level

---
 msc_server/custom_log.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_server/custom_log.go b/msc_server/custom_log.go
index 72b34fa..7572546 100644
--- a/msc_server/custom_log.go
+++ b/msc_server/custom_log.go
@@ -34,7 +34,7 @@ func New(name string, opts ...log.Option) *zap.Logger {
 		maxAge = 14
 	}
 	compress := ConfigYml.GetBool("Logs." + name + ".Compress")
-	level := log.Level(ConfigYml.GetInt("Logs" + name + "Level"))
+	level := log.Level(ConfigYml.GetInt("Logs." + name + ".Level"))
 
 	var top = []log.TeeOption{{
 		Filename:      BasePath + fileName,
-- 
2.43.0


From 1683ed48d61909de59d776bc30e3435fe05d9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:22 +0000
Subject: [PATCH 70/72] fix: the client's error log follows its own configured
 level

---
 msc_client/bootstrap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/bootstrap.go b/msc_client/bootstrap.go
index 01a43cf..7f8c02f 100644
--- a/msc_client/bootstrap.go
+++ b/msc_client/bootstrap.go
@@ -104,7 +104,7 @@ func logInit() {
 				MaxBackups: ConfigYml.GetInt("Logs.Error.MaxBackups"),
 				Compress:   ConfigYml.GetBool("Logs.Error.Compress"),
 			},
-			Level: log.Level(ConfigYml.GetInt("Logs.Default.Level")),
+			Level: log.Level(ConfigYml.GetInt("Logs.Error.Level")),
 		},
 	}
 
-- 
2.43.0


From 7dc22d858047bbd5f783a27c2ee28b6f74205602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:40 +0000
Subject: [PATCH 71/72] fix: the client's burst is the configured window, with
 or without a number of connections

---
 msc_client/session_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 8bd68d8..683c605 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -118,7 +118,7 @@ func CreateSessionFactory(isp string) *SessionFactory {
 	}
 
 	winSize := ConfigYml.GetInt(isp + ".mt-window-size")
-	if maxConns > 0 {
+	if winSize > 0 {
 		factory.window = make(chan struct{}, winSize)
 	} else {
 		factory.window = make(chan struct{}, 16)
-- 
2.43.0


From b8ae4ceb3b484973b695b6caf383d6b56c332be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:41 +0000
Subject: [PATCH 72/72] fix: concurrent sends do not raise the client's rate

---
 msc_client/session_factory.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msc_client/session_factory.go b/msc_client/session_factory.go
index 683c605..fd5e14c 100644
--- a/msc_client/session_factory.go
+++ b/msc_client/session_factory.go
@@ -144,7 +144,11 @@ const peekTimeout = 3 * time.Second
 
 // PeekSession 获取排序后最靠前的正常会话（最近最少使用的会话），被限速或无可用会话时返回nil
 func (f *SessionFactory) PeekSession() *session.Session {
-	if !f.limiter.Allow() {
+	// Allow在加锁前读取时间，并发调用会使限速器时间倒退而多发令牌，因此需串行调用
+	f.Lock()
+	allowed := f.limiter.Allow()
+	f.Unlock()
+	if !allowed {
 		return nil
 	}
 
-- 
2.43.0

