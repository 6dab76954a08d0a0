package main

import (
	"fmt"
	"math/rand"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"verif/gen"
	"verif/refc"
)

// account is a random account; over allows values longer than their wire fields.
func account(r *rand.Rand, p gen.PV, over int) *codec.AuthConf {
	cw := map[string]int{refc.CMPP: 6, refc.SGIP: 16, refc.SMGP: 8}[p.Proto]
	id := ""
	switch p.Proto {
	case refc.SGIP: // the corporation code is the client id, or its tail behind the 5-digit node prefix
		id = gen.Str(r, []int{1 + r.Intn(5), 10}[r.Intn(2)])
	default:
		for id == "" {
			id = gen.UpTo(r, cw, over)
		}
	}
	return &codec.AuthConf{
		ISP: p.Proto, ClientId: id, LoginName: id, SharedSecret: gen.UpTo(r, 16, over), Version: p.Ver,
		NeedReport: byte(r.Intn(2)), SmsDisplayNo: gen.UpTo(r, 21, over), ServiceId: gen.UpTo(r, 10, over),
		DefaultMsgLevel: byte(r.Intn(10)), FeeUserType: byte(r.Intn(4)), FeeTerminalType: byte(r.Intn(2)),
		FeeTerminalId: gen.UpTo(r, 32, over), FeeType: gen.UpTo(r, 2, over), FeeCode: gen.UpTo(r, 6, over),
		FixedFee: gen.UpTo(r, 6, over), LinkId: gen.UpTo(r, 20, over), MtValidDuration: time.Duration(r.Intn(200000)) * time.Second,
		MaxConns: 1 + r.Intn(9), MtWindowSize: 1 + r.Intn(99), Throughput: 1 + r.Intn(999),
	}
}

// optModel is what a caller asked for: only what is set and valid counts.
type optModel struct {
	report, level, feeUser, feeTermType *byte
	service, feeTerm, feeType, feeCode  string
	valid, at, sub, link                string
}

func pick(p *byte, d byte) uint64 {
	if p != nil {
		return uint64(*p)
	}
	return uint64(d)
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

func bp(b byte) *byte { return &b }

// options is a random choice of options together with its model; desc tells it for replay.
func options(r *rand.Rand, over int) (fs []codec.OptionFunc, m optModel, desc []string) {
	add := func(d string, f codec.OptionFunc) {
		fs = append(fs, f)
		desc = append(desc, d)
	}
	var one func(k int)
	one = func(k int) {
		b := byte(r.Intn(256))
		if r.Intn(3) > 0 {
			b = byte(r.Intn(11))
		}
		set := func(p **byte, ok bool) {
			if ok {
				*p = bp(b)
			} else {
				*p = nil // an invalid value counts as not given
			}
		}
		switch k {
		case 0:
			add(fmt.Sprint("NeedReport ", b), codec.MtNeedReport(b))
			set(&m.report, b <= 1)
		case 1:
			add(fmt.Sprint("MsgLevel ", b), codec.MtMsgLevel(b))
			set(&m.level, b <= 9)
		case 2:
			add(fmt.Sprint("FeeUsertype ", b), codec.MtFeeUsertype(b))
			set(&m.feeUser, b <= 3)
		case 3:
			add(fmt.Sprint("FeeTerminalType ", b), codec.MtFeeTerminalType(b))
			set(&m.feeTermType, b <= 1)
		case 4:
			s := gen.UpTo(r, 10, over)
			add("ServiceId "+s, codec.MtServiceId(s))
			m.service = s
		case 5:
			s := gen.UpTo(r, 21, over)
			add("FeeTerminalId "+s, codec.MtFeeTerminalId(s))
			m.feeTerm = s
		case 6:
			s := []string{"01", "02", "03", "04", "05", "06", "", "1", "10"}[r.Intn(9)]
			add("FeeType "+s, codec.MtFeeType(s))
			m.feeType = ""
			if s >= "01" && s <= "05" && len(s) == 2 {
				m.feeType = s
			}
		case 7:
			s := gen.UpTo(r, 6, over)
			add("FeeCode "+s, codec.MtFeeCode(s))
			m.feeCode = s
		case 8:
			s := gen.UpTo(r, 17, over)
			if r.Intn(2) == 0 {
				s = gen.Digits(r, 12) + "032+"
			}
			add("ValidTime "+s, codec.MtValidTime(s))
			m.valid = s
		case 9:
			if r.Intn(2) == 0 {
				t := time.Date(2000+r.Intn(99), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.Local)
				add("AtTime "+t.String(), codec.MtAtTime(t))
				m.at = t.Format("060102150405") + "032+"
			} else {
				s := gen.Digits(r, 12+r.Intn(3))
				add("AtTimeStr "+s, codec.MtAtTimeStr(s))
				m.at = s[:12] + "032+"
			}
		case 10:
			s := gen.UpTo(r, 8, over)
			add("SpSubNo "+s, codec.MtSpSubNo(s))
			m.sub = s
		case 11:
			s := gen.UpTo(r, 20, over)
			add("LinkID "+s, codec.MtLinkID(s))
			m.link = s
		}
	}
	if r.Intn(8) == 0 { // all at once
		o := codec.LoadMtOptions()
		if r.Intn(2) == 0 {
			o.MsgLevel = byte(r.Intn(10))
			m.level = bp(o.MsgLevel)
		}
		if r.Intn(2) == 0 {
			o.NeedReport = byte(r.Intn(2))
			m.report = bp(o.NeedReport)
		}
		o.ServiceId, o.FeeCode, o.SpSubNo, o.LinkID = gen.UpTo(r, 10, over), gen.UpTo(r, 6, over), gen.UpTo(r, 6, over), gen.UpTo(r, 20, over)
		m.service, m.feeCode, m.sub, m.link = o.ServiceId, o.FeeCode, o.SpSubNo, o.LinkID
		c := *o
		add(fmt.Sprintf("WithMtOptions %+v", c), codec.WithMtOptions(&c))
	}
	switch r.Intn(4) {
	case 0:
	case 1:
		one(r.Intn(12))
	default:
		for i := 0; i < 12; i++ {
			if r.Intn(2) == 0 {
				one(r.Intn(12))
			}
		}
	}
	return
}

// submitWant is what the submits of a message must carry, apart from their content and part numbers.
func submitWant(p gen.PV, ac *codec.AuthConf, o optModel, phones []string) refc.M {
	sub := ac.SmsDisplayNo + o.sub
	var dest []string
	w := 21
	if p.Proto == refc.CMPP && p.Ver&0xf0 == 0x30 {
		w = 32
	}
	for _, s := range phones {
		dest = append(dest, gen.Cut(s, w))
	}
	m := refc.M{"n": len(phones), "dest": dest, "needReport": pick(o.report, ac.NeedReport), "level": pick(o.level, ac.DefaultMsgLevel)}
	switch p.Proto {
	case refc.CMPP:
		m["msgId"], m["tpPid"] = 0, 0
		m["serviceId"] = gen.Cut(or(o.service, ac.ServiceId), 10)
		m["feeUser"] = pick(o.feeUser, ac.FeeUserType)
		m["feeTerm"] = gen.Cut(or(o.feeTerm, ac.FeeTerminalId), w)
		m["msgSrc"] = gen.Cut(ac.ClientId, 6)
		m["feeType"] = gen.Cut(or(o.feeType, ac.FeeType), 2)
		m["feeCode"] = gen.Cut(or(o.feeCode, ac.FeeCode), 6)
		m["src"] = gen.Cut(sub, 21)
		m["at"] = o.at
		if w == 32 {
			m["feeTermType"] = pick(o.feeTermType, ac.FeeTerminalType)
			m["linkId"] = gen.Cut(or(o.link, ac.LinkId), 20)
			m["destType"] = 0
		} else {
			m["reserve"] = make([]byte, 8)
		}
	case refc.SGIP:
		m["sp"] = gen.Cut(sub, 21)
		m["charge"], m["feeType"], m["feeValue"], m["given"], m["agent"], m["tpPid"], m["type"] = "", 0, "", "", 0, 0, 0
		m["moreMt"] = 2
		m["service"] = gen.Cut(or(o.service, ac.ServiceId), 10)
		m["at"] = o.at
		m["corp"] = ac.ClientId
		if len(ac.ClientId) > 5 {
			m["corp"] = ac.ClientId[5:]
		}
		m["reserve"] = make([]byte, 8)
	case refc.SMGP:
		m["type"], m["fmt"] = 6, 15
		m["serviceId"] = gen.Cut(or(o.service, ac.ServiceId), 10)
		m["feeType"] = gen.Cut(or(o.feeType, ac.FeeType), 2)
		m["feeCode"] = gen.Cut(or(o.feeCode, ac.FeeCode), 6)
		m["fixedFee"] = gen.Cut(ac.FixedFee, 6)
		m["charge"] = gen.Cut(or(o.feeTerm, ac.FeeTerminalId), 21)
		m["src"] = gen.Cut(sub, 21)
		m["at"] = o.at
		m["reserve"] = make([]byte, 8)
	}
	if o.valid != "" {
		vw := 17
		if p.Proto == refc.SGIP {
			vw = 16
		}
		m["valid"] = gen.Cut(o.valid, vw)
	}
	return m
}

func newSubmit(p gen.PV, ac *codec.AuthConf, phones []string, content string, seq uint32, fs ...codec.OptionFunc) []codec.RequestPdu {
	switch p.Proto {
	case refc.CMPP:
		return cmpp.NewSubmit(ac, phones, content, seq, fs...)
	case refc.SGIP:
		return sgip.NewSubmit(ac, phones, content, fs...)
	}
	return smgp.NewSubmit(ac, phones, content, seq, fs...)
}

func newDeliver(p gen.PV, ac *codec.AuthConf, phone, content, dest string, seq uint32) codec.RequestPdu {
	switch p.Proto {
	case refc.CMPP:
		return cmpp.NewDelivery(ac, phone, content, dest, "", seq)
	case refc.SGIP:
		return sgip.NewDeliver(ac, phone, content, dest)
	}
	return smgp.NewDeliver(ac, phone, dest, content, seq)
}

// validBetween tells whether a default validity lies in the span the message was built in.
func validBetween(s string, before, after time.Time, ac *codec.AuthConf) bool {
	a, b := before.Add(ac.MtValidDuration).Format("060102150405")+"032+", after.Add(ac.MtValidDuration).Format("060102150405")+"032+"
	return a <= s && s <= b
}

func phoneList(r *rand.Rand, over int) []string {
	n := 1 + r.Intn(3)
	if r.Intn(12) == 0 {
		n = []int{0, 2, 50, 99, 100}[r.Intn(5)]
	}
	out := make([]string, n)
	for i := range out {
		out[i] = gen.Digits(r, 11)
		if r.Intn(4) == 0 {
			out[i] = gen.UpTo(r, 21, over)
		}
	}
	return out
}

// built is a message made by a constructor.
type built struct {
	kind  string
	pdu   codec.Pdu
	want  refc.M // demanded fields
	seq   []uint32
	free  map[string]bool // fields the program chooses itself
	check func(m refc.M) string
	text  string
	mult  bool
}

func free(l ...string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// construct builds one random message of a random kind with the library's constructors.
func construct(r *rand.Rand, p gen.PV, over, maxText int) (out []built, desc any) {
	ac := account(r, p, over)
	seq := r.Uint32()
	code := uint32(r.Intn(256))
	if r.Intn(2) == 0 {
		code = 0
	}
	now := func(s uint64, before, after time.Time) bool {
		for t := before; !t.After(after.Add(time.Second)); t = t.Add(time.Second) {
			if fmt.Sprintf("%010d", s) == t.Format("0102150405") {
				return true
			}
		}
		return false
	}
	between := func(s, layout string, before, after time.Time, slack time.Duration) bool {
		return before.Format(layout) <= s && s <= after.Add(slack).Format(layout)
	}
	t0 := time.Now()
	v3 := p.Ver&0xf0 == 0x30
	switch k := r.Intn(10); {
	case k < 4: // submit and its responses
		phones := phoneList(r, over)
		fs, om, d := options(r, over)
		text := gen.Text(r, gen.TextLen(r, maxText), r.Intn(3))
		desc = map[string]any{"message": "submit", "phones": phones, "options": d, "text": text, "seq": seq}
		pdus := newSubmit(p, ac, phones, text, seq, fs...)
		t1 := time.Now()
		for i, s := range pdus {
			b := built{kind: "submit", pdu: s, want: submitWant(p, ac, om, phones), text: text, mult: len(pdus) > 1,
				free: free("content", "len", "valid", "tpUdhi", "pkTotal", "pkNumber", "tlv", "fmt")}
			if i == 0 && p.Proto != refc.SGIP {
				b.seq = []uint32{seq}
			}
			b.check = func(m refc.M) string {
				if _, ok := b.want["valid"]; !ok && !validBetween(m.S("valid"), t0, t1, ac) {
					return fmt.Sprintf("validity %q is not the account's default", m.S("valid"))
				}
				if p.Proto != refc.SMGP && m.U("fmt") != uint64(gen.Coding(text)) {
					return fmt.Sprintf("data coding %d", m.U("fmt"))
				}
				if len(pdus) == 1 && string(m.B("content")) != string(gen.Octets(p.Proto, text)) {
					return fmt.Sprintf("content %x", m.B("content"))
				}
				return ""
			}
			out = append(out, b)
		}
		if len(pdus) > 0 {
			_, sq := head(pdus[0])
			rs := built{kind: "submit_resp", pdu: pdus[0].ToResponse(code), seq: sq}
			switch p.Proto {
			case refc.CMPP:
				rs.want = refc.M{"result": code}
				rs.free = free("msgId")
			case refc.SGIP:
				rs.want = refc.M{"result": code, "reserve": make([]byte, 8)}
			case refc.SMGP:
				rs.want = refc.M{"status": code}
				rs.free = free("msgId")
			}
			out = append(out, rs)
			t2 := time.Now()
			switch s := pdus[0].(type) {
			case *cmpp.Submit:
				id := r.Uint64()
				rep := s.ToDeliveryReport(id)
				w := refc.M{"dest": gen.Cut(ac.SmsDisplayNo+om.sub, 21), "serviceId": gen.Cut(or(om.service, ac.ServiceId), 10), "tpPid": 0, "tpUdhi": 0, "fmt": 0,
					"isReport": 1, "len": 60}
				if v3 {
					w["srcType"] = 0
					w["linkId"] = ""
				} else {
					w["reserve"] = make([]byte, 8)
				}
				b := built{kind: "deliver", pdu: rep, want: w, free: free("msgId", "content", "src")}
				b.check = func(m refc.M) string {
					x, err := refc.Parse(refc.CMPP, 0, "report", m.B("content"))
					if err != nil {
						return "report content: " + err.Error()
					}
					if x.U("msgId") != id {
						return fmt.Sprintf("report names message %x instead of %x", x.U("msgId"), id)
					}
					if len(phones) == 1 && (x.S("dest") != gen.Cut(phones[0], 21) || m.S("src") != gen.Cut(phones[0], map[bool]int{true: 32, false: 21}[v3])) {
						return fmt.Sprintf("report recipient %q/%q", x.S("dest"), m.S("src"))
					}
					if len(x.S("stat")) != 7 || !between(x.S("submitTime"), "0601021504", t0, t2, time.Minute) || !between(x.S("doneTime"), "0601021504", t0, t2, 2*time.Minute) {
						return fmt.Sprintf("report status or times: %v", x)
					}
					return ""
				}
				out = append(out, b)
			case *smgp.Submit:
				if len(phones) > 0 {
					id := gen.Bytes(r, 10)
					rep := smgp.NewDeliveryReport(ac, s, seq, id)
					b := built{kind: "deliver", pdu: rep, seq: []uint32{seq}, want: refc.M{"isReport": 1, "src": gen.Cut(phones[0], 21),
						"dest": gen.Cut(ac.SmsDisplayNo+om.sub, 21), "len": len(refc.SmgpReport{}.Octets()), "reserve": make([]byte, 8), "tlv": []refc.TLV(nil)},
						free: free("msgId", "content", "recv", "fmt")}
					b.check = func(m refc.M) string {
						x, err := refc.ParseSmgpReport(m.B("content"))
						if err != nil {
							return err.Error()
						}
						if string(x.ID) != string(id) {
							return fmt.Sprintf("report names message %x instead of %x", x.ID, id)
						}
						if x.Sub != "001" || x.Dlvrd != "001" || !between(x.SubmitDate, "0601021504", t0, t2, time.Minute) || !between(x.DoneDate, "0601021504", t0, t2, 2*time.Minute) {
							return fmt.Sprintf("report: %+v", x)
						}
						if !between(m.S("recv"), "20060102150405", t0, t2, time.Second) {
							return "receive time " + m.S("recv")
						}
						return ""
					}
					out = append(out, b)
				}
			}
		}
	case k < 6: // deliver and its response
		phone, dest := gen.Digits(r, 11), gen.UpTo(r, 6, over)
		if r.Intn(3) == 0 {
			phone = gen.UpTo(r, 32, over)
		}
		if r.Intn(3) == 0 { // a number given in full
			dest = ac.SmsDisplayNo + dest
		}
		text := gen.Text(r, r.Intn(31), r.Intn(3))
		desc = map[string]any{"message": "deliver", "phone": phone, "text": text, "dest": dest, "seq": seq}
		d := newDeliver(p, ac, phone, text, dest, seq)
		t1 := time.Now()
		b := built{kind: "deliver", pdu: d, text: text, seq: []uint32{seq}, free: free("msgId", "recv")}
		data := gen.Octets(p.Proto, text)
		switch p.Proto {
		case refc.CMPP:
			b.want = refc.M{"dest": gen.Cut(ac.SmsDisplayNo+dest, 21), "serviceId": gen.Cut(ac.ServiceId, 10), "tpPid": 0, "tpUdhi": 0, "fmt": gen.Coding(text),
				"src": gen.Cut(phone, map[bool]int{true: 32, false: 21}[v3]), "isReport": 0, "len": len(data), "content": data}
			if v3 {
				b.want["srcType"] = 0
				b.want["linkId"] = ""
			} else {
				b.want["reserve"] = make([]byte, 8)
			}
		case refc.SGIP:
			b.seq = nil
			b.want = refc.M{"src": gen.Cut(phone, 21), "tpPid": 0, "tpUdhi": 0, "fmt": gen.Coding(text), "len": len(data), "content": data, "reserve": make([]byte, 8)}
			full := ac.SmsDisplayNo + dest
			if len(dest) >= len(ac.SmsDisplayNo) && dest[:len(ac.SmsDisplayNo)] == ac.SmsDisplayNo {
				full = dest
			}
			b.want["dest"] = gen.Cut(full, 21)
		case refc.SMGP:
			b.want = refc.M{"src": gen.Cut(phone, 21), "dest": gen.Cut(ac.SmsDisplayNo+dest, 21), "isReport": 0, "fmt": 15, "len": len(data), "content": data,
				"reserve": make([]byte, 8), "tlv": []refc.TLV(nil)}
			b.check = func(m refc.M) string {
				if !between(m.S("recv"), "20060102150405", t0, t1, time.Second) {
					return "receive time " + m.S("recv")
				}
				return ""
			}
		}
		out = append(out, b)
		_, sq := head(d)
		rs := built{kind: "deliver_resp", pdu: d.ToResponse(code), seq: sq}
		switch p.Proto {
		case refc.CMPP:
			rs.want, rs.free = refc.M{"result": code}, free("msgId")
		case refc.SGIP:
			rs.want = refc.M{"result": code, "reserve": make([]byte, 8)}
		case refc.SMGP:
			rs.want, rs.free = refc.M{"status": code}, free("msgId")
		}
		out = append(out, rs)
		if p.Proto == refc.SGIP {
			mt := []uint32{r.Uint32(), r.Uint32(), r.Uint32()}
			st := byte(r.Intn(3))
			rep := sgip.NewReport(phone, mt, sgip.Status(st), byte(code))
			_, sq := head(rep)
			out = append(out, built{kind: "report", pdu: rep, want: refc.M{"mt0": mt[0], "mt1": mt[1], "mt2": mt[2], "type": 0, "user": gen.Cut(phone, 21),
				"state": st, "err": code, "reserve": make([]byte, 8)}})
			out = append(out, built{kind: "report_resp", pdu: rep.ToResponse(code), seq: sq, want: refc.M{"result": code, "reserve": make([]byte, 8)}})
		}
	case k < 9: // login
		desc = map[string]any{"message": "login", "account": ac, "seq": seq}
		lcode := []uint32{0, 0, 1, 2, 3, 4, 5}[r.Intn(7)]
		switch p.Proto {
		case refc.CMPP, refc.SMGP:
			var req codec.RequestPdu
			var b built
			if p.Proto == refc.CMPP {
				c := cmpp.NewConnect(ac, seq)
				c.SetSecret(ac.SharedSecret)
				req = c
				b = built{kind: "connect", want: refc.M{"src": gen.Cut(ac.ClientId, 6), "ver": p.Ver}}
			} else {
				c := smgp.NewLogin(ac, seq)
				c.SetSecret(ac.SharedSecret)
				req = c
				b = built{kind: "login", want: refc.M{"client": gen.Cut(ac.ClientId, 8), "ver": p.Ver, "mode": 2}}
			}
			b.pdu, b.seq, b.free = req, []uint32{seq}, free("ts", "auth")
			t1 := time.Now()
			var auth []byte
			b.check = func(m refc.M) string {
				auth = m.B("auth")
				if !now(m.U("ts"), t0, t1) {
					return fmt.Sprintf("timestamp %d", m.U("ts"))
				}
				if w := gen.Auth(p.Proto, ac.ClientId, ac.SharedSecret, uint32(m.U("ts"))); string(w) != string(m.B("auth")) {
					return fmt.Sprintf("authenticator %x instead of %x", m.B("auth"), w)
				}
				return ""
			}
			rs := built{kind: b.kind + "_resp", pdu: req.ToResponse(lcode), seq: []uint32{seq}, want: refc.M{"status": lcode, "ver": p.Ver}, free: free("auth")}
			rs.check = func(m refc.M) string {
				if lcode == 0 && auth != nil {
					if w := gen.Proof(p, auth, ac.SharedSecret); string(w) != string(m.B("auth")) {
						return fmt.Sprintf("gateway authenticator %x instead of %x", m.B("auth"), w)
					}
				}
				return ""
			}
			out = append(out, b, rs)
		case refc.SGIP:
			typ := byte(1 + r.Intn(2))
			req := sgip.NewBind(ac, typ)
			_, sq := head(req)
			out = append(out, built{kind: "bind", pdu: req, want: refc.M{"type": typ, "name": gen.Cut(ac.LoginName, 16), "password": gen.Cut(ac.SharedSecret, 16), "reserve": make([]byte, 8)}},
				built{kind: "bind_resp", pdu: req.ToResponse(lcode), seq: sq, want: refc.M{"result": lcode, "reserve": make([]byte, 8)}})
		}
	default: // heartbeat and logout
		desc = map[string]any{"message": "control", "seq": seq}
		add := func(kind string, q codec.RequestPdu, sq []uint32) {
			out = append(out, built{kind: kind, pdu: q, want: refc.M{}, seq: sq})
			_, s2 := head(q)
			rs := built{kind: kind + "_resp", pdu: q.ToResponse(0), want: refc.M{}, seq: s2}
			if p.Proto == refc.CMPP && kind == "active" {
				rs.want["reserve"] = []byte{0}
			}
			out = append(out, rs)
		}
		switch p.Proto {
		case refc.CMPP:
			add("active", cmpp.NewActiveTest(seq), []uint32{seq})
			add("terminate", cmpp.NewTerminate(seq), []uint32{seq})
		case refc.SMGP:
			add("active", smgp.NewActiveTest(seq), []uint32{seq})
			add("exit", smgp.NewExit(seq), []uint32{seq})
		case refc.SGIP:
			add("unbind", sgip.NewUnbind(), nil)
		}
	}
	return
}
