package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"github.com/hrygo/gosms/utils"
	"verif/gen"
	"verif/refc"
)

// seqs are deterministic sequence generators injected where the library takes its own from.
type seq32 struct{ last int32 }

func (s *seq32) NextVal() int32 { s.last++; return s.last }

type seq64 struct{ last int64 }

func (s *seq64) NextVal() int64 { s.last += 0x100000001; return s.last }

type seqBcd struct{ n int }

func (s *seqBcd) NextVal() []byte {
	s.n++
	b := make([]byte, 10)
	copy(b, fmt.Sprintf("\x12\x34\x56\x09%06d", s.n%1000000))
	return b
}

func sequences() {
	codec.B32Seq = &seq32{last: 1000}
	codec.B64Seq = &seq64{last: 77}
	codec.BcdSeq = &seqBcd{}
	sgip.NewSequencer(3100012345, 7)
}

// newObj is an empty message of a kind.
func newObj(p gen.PV, kind string) codec.Pdu {
	cv, sv := cmpp.Version(p.Ver), smgp.Version(p.Ver)
	switch p.Proto + "/" + kind {
	case "cmpp/connect":
		return &cmpp.Connect{}
	case "cmpp/connect_resp":
		return &cmpp.ConnectResp{Version: cv}
	case "cmpp/terminate":
		return &cmpp.Terminate{}
	case "cmpp/terminate_resp":
		return &cmpp.TerminateRsp{}
	case "cmpp/active":
		return &cmpp.ActiveTest{}
	case "cmpp/active_resp":
		return &cmpp.ActiveTestRsp{}
	case "cmpp/submit":
		return &cmpp.Submit{Version: cv}
	case "cmpp/submit_resp":
		return &cmpp.SubmitRsp{Version: cv}
	case "cmpp/deliver":
		return &cmpp.Delivery{Version: cv}
	case "cmpp/deliver_resp":
		return &cmpp.DeliveryRsp{Version: cv}
	case "sgip/bind":
		return &sgip.Bind{}
	case "sgip/bind_resp":
		return &sgip.BindRsp{}
	case "sgip/unbind":
		return &sgip.Unbind{}
	case "sgip/unbind_resp":
		return &sgip.UnbindRsp{}
	case "sgip/submit":
		return &sgip.Submit{}
	case "sgip/submit_resp":
		return &sgip.SubmitRsp{}
	case "sgip/deliver":
		return &sgip.Deliver{}
	case "sgip/deliver_resp":
		return &sgip.DeliverRsp{}
	case "sgip/report":
		return &sgip.Report{}
	case "sgip/report_resp":
		return &sgip.ReportRsp{}
	case "smgp/login":
		return &smgp.Login{}
	case "smgp/login_resp":
		return &smgp.LoginRsp{Version: sv}
	case "smgp/submit":
		return &smgp.Submit{Version: sv}
	case "smgp/submit_resp":
		return &smgp.SubmitRsp{Version: sv}
	case "smgp/deliver":
		return &smgp.Delivery{Version: sv}
	case "smgp/deliver_resp":
		return &smgp.DeliverRsp{Version: sv}
	case "smgp/active":
		return &smgp.ActiveTest{}
	case "smgp/active_resp":
		return &smgp.ActiveTestRsp{}
	case "smgp/exit":
		return &smgp.Exit{}
	case "smgp/exit_resp":
		return &smgp.ExitRsp{}
	}
	return nil
}

// allKinds lists every message kind of a protocol.
func allKinds(p gen.PV) (l []string) {
	for _, k := range refc.Bodies(p.Proto) {
		if newObj(p, k) != nil {
			l = append(l, k)
		}
	}
	return
}

// decode hands a whole frame to the decoder of an object the way the library's callers do.
func decode(obj codec.Pdu, frame []byte) error {
	_, _, seq := codec.UnpackHead(frame)
	return obj.Decode(seq, frame[12:len(frame):len(frame)])
}

func tlvs(l *utils.TlvList, want []refc.TLV) any {
	if l == nil {
		return 0
	}
	n := int(l.Length())
	// every distinct tag in turn, in order
	got := map[uint16][][]byte{}
	for _, w := range want {
		if _, ok := got[w.T]; ok {
			continue
		}
		got[w.T] = [][]byte{}
		for _, o := range l.GetAll(w.T) {
			got[w.T] = append(got[w.T], o.Value())
		}
	}
	exp := map[uint16][][]byte{}
	for _, w := range want {
		exp[w.T] = append(exp[w.T], w.V)
	}
	if len(want) == n && reflect.DeepEqual(got, exp) {
		return n
	}
	return fmt.Sprint("tags differ: ", n, got)
}

// fields reads what an object tells about itself, under the names of the reference tables.
func fields(o codec.Pdu, want refc.M) map[string]any {
	switch x := o.(type) {
	case *cmpp.Connect:
		return map[string]any{"src": x.SourceAddr(), "auth": x.AuthenticatorSource(), "ver": byte(x.Version), "ts": x.Timestamp()}
	case *cmpp.ConnectResp:
		return map[string]any{"status": byte(x.Status()), "auth": x.AuthenticatorISMG(), "ver": byte(x.Version)}
	case *cmpp.Submit:
		w := 21
		if x.Version&0xf0 == 0x30 {
			w = 32
		}
		var ids []string
		for t := x.TermIds(); len(t) >= w; t = t[w:] {
			ids = append(ids, strings.TrimRight(string(t[:w]), "\x00"))
		}
		m := map[string]any{"pkTotal": x.PkTotal(), "pkNumber": x.PkNumber(), "needReport": x.RegisteredDel(), "level": x.MsgLevel(),
			"serviceId": x.ServiceId(), "feeUser": x.FeeUsertype(), "feeTerm": x.FeeTerminalId(), "tpPid": x.TpPid(), "tpUdhi": x.TpUdhi(),
			"fmt": x.MsgFmt(), "msgSrc": x.MsgSrc(), "feeType": x.FeeType(), "feeCode": x.FeeCode(), "valid": x.ValidTime(), "at": x.AtTime(),
			"src": x.SrcId(), "n": x.DestUsrTl(), "dest": ids, "len": x.MsgLength(), "content": x.MsgContent()}
		if w == 32 {
			m["linkId"] = x.LinkID()
			m["feeTermType"] = x.FeeTerminalType()
			m["destType"] = x.DestTerminalType()
		}
		return m
	case *cmpp.SubmitRsp:
		return map[string]any{"msgId": x.MsgId(), "result": x.Result()}
	case *cmpp.Delivery:
		m := map[string]any{"msgId": x.MsgId(), "dest": x.DestId(), "serviceId": x.ServiceId(), "tpPid": x.TpPid(), "tpUdhi": x.TpUdhi(),
			"fmt": x.MsgFmt(), "src": x.SrcTerminalId(), "isReport": map[bool]int{true: 1}[x.IsReport()], "len": x.MsgLength()}
		if x.Version&0xf0 == 0x30 {
			m["linkId"] = x.LinkID()
			m["srcType"] = x.SrcTerminalType()
		}
		if x.IsReport() {
			rt := x.Report()
			m["report"] = refc.M{"msgId": rt.MsgId(), "stat": rt.Stat(), "submitTime": rt.SubmitTime(), "doneTime": rt.DoneTime(),
				"dest": rt.DestTerminalId(), "smsc": uint64(rt.SmscSequence())}
		} else {
			m["text"] = x.MsgContent()
		}
		return m
	case *sgip.Bind:
		return map[string]any{"type": x.LoginType, "name": x.LoginName, "password": x.LoginPassword}
	case *sgip.BindRsp:
		return map[string]any{"result": byte(x.Status)}
	case *sgip.Submit:
		return map[string]any{"sp": x.SPNumber, "charge": x.ChargeNumber, "n": x.UserCount, "dest": x.UserNumber, "corp": x.CorpId, "service": x.ServiceType,
			"feeType": x.FeeType, "feeValue": x.FeeValue, "given": x.GivenValue, "agent": x.AgentFlag, "moreMt": x.MorelatetoMTFlag, "level": x.Priority,
			"valid": x.ExpireTime, "at": x.ScheduleTime, "needReport": x.ReportFlag, "tpPid": x.TpPid, "tpUdhi": x.TpUdhi, "fmt": x.MessageCoding,
			"type": x.MessageType, "len": x.MessageLength, "content": x.MessageContent}
	case *sgip.SubmitRsp:
		return map[string]any{"result": byte(x.Status)}
	case *sgip.Deliver:
		return map[string]any{"src": x.UserNumber, "dest": x.SPNumber, "tpPid": x.TpPid, "tpUdhi": x.TpUdhi, "fmt": x.MessageCoding,
			"len": x.MessageLength, "content": x.MessageContent}
	case *sgip.DeliverRsp:
		return map[string]any{"result": byte(x.Status)}
	case *sgip.Report:
		m := map[string]any{"type": x.ReportType, "user": x.UserNumber, "state": byte(x.State), "err": x.ErrorCode}
		for i, v := range x.MtSequence {
			m[fmt.Sprint("mt", i)] = v
		}
		return m
	case *sgip.ReportRsp:
		return map[string]any{"result": byte(x.Status)}
	case *smgp.Login:
		return map[string]any{"client": x.ClientID(), "auth": x.AuthenticatorClient(), "mode": x.LoginMode(), "ts": x.Timestamp(), "ver": byte(x.Version)}
	case *smgp.LoginRsp:
		return map[string]any{"status": uint32(x.Status()), "auth": x.AuthenticatorServer(), "ver": byte(x.Version)}
	case *smgp.Submit:
		return map[string]any{"type": x.MsgType(), "needReport": x.NeedReport(), "level": x.Priority(), "serviceId": x.ServiceID(),
			"feeType": x.FeeType(), "feeCode": x.FeeCode(), "fixedFee": x.FixedFee(), "fmt": x.MsgFormat(), "valid": x.ValidTime(), "at": x.AtTime(),
			"src": x.SrcTermID(), "charge": x.ChargeTermID(), "n": x.DestTermIDCount(), "dest": x.DestTermID(), "len": x.MsgLength(),
			"text": string(x.MsgContent()), "ntlv": tlvs(x.TlvList(), want.T("tlv"))}
	case *smgp.SubmitRsp:
		return map[string]any{"msgId": x.MsgId(), "status": uint32(x.Status())}
	case *smgp.Delivery:
		m := map[string]any{"msgId": x.MsgId(), "isReport": map[bool]int{true: 1}[x.IsReport()], "fmt": x.MsgFormat(), "recv": x.RecvTime(),
			"src": x.SrcTermID(), "dest": x.DestTermID(), "len": x.MsgLength()}
		if x.IsReport() {
			rt := x.Report()
			m["report"] = refc.M{"id": rt.Id(), "sub": rt.Sub(), "dlvrd": rt.Dlvrd(), "submit": rt.SubmitDate(), "done": rt.DoneDate(), "stat": rt.Stat()}
		} else {
			m["text"] = x.MsgContent()
		}
		return m
	case *smgp.DeliverRsp:
		return map[string]any{"msgIdHex": x.MsgId(), "status": uint32(x.Status())}
	}
	return map[string]any{}
}

// head reads the header an object holds.
func head(o codec.Pdu) (cmd uint32, seq []uint32) {
	v := reflect.Indirect(reflect.ValueOf(o))
	if f := v.FieldByName("CommandId"); f.IsValid() {
		cmd = uint32(f.Uint())
	} else if f = v.FieldByName("RequestId"); f.IsValid() {
		cmd = uint32(f.Uint())
	}
	if f := v.FieldByName("SequenceId"); f.IsValid() {
		seq = []uint32{uint32(f.Uint())}
	} else if f = v.FieldByName("SequenceNumber"); f.IsValid() {
		for i := 0; i < f.Len(); i++ {
			seq = append(seq, uint32(f.Index(i).Uint()))
		}
	}
	return
}

// same compares a value read from an object with the reference.
func same(got, want any) bool {
	switch w := want.(type) {
	case []string:
		g, ok := got.([]string)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if g[i] != w[i] {
				return false
			}
		}
		return true
	case []byte:
		g, ok := got.([]byte)
		return ok && string(g) == string(w)
	}
	return fmt.Sprint(got) == fmt.Sprint(want)
}

func randPV(r *rand.Rand) gen.PV { return gen.All[r.Intn(len(gen.All))] }
