package main

import (
	"fmt"

	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C01"] = layoutCheck; checks["C02"] = decodeCheck }

func layoutCheck() *lib.Run {
	r := lib.NewRun("C01", "exploration", "a case is one message built by a public constructor from a random account, options, addresses and text (values up to and beyond their fields); its bytes are parsed by an independent table-driven codec; distinct by protocol, version, kind, and bytes; non-trivial when it has a body")
	sequences()
	rnd := r.Sub("layout")
	for i, n := 0, r.N(60000, 1500000); i < n && r.NFailed() < 20; i++ {
		p := gen.All[i%len(gen.All)]
		over := 0
		if rnd.Intn(2) == 0 {
			over = 12
		}
		var bs []built
		var desc any
		if pn := lib.Guard(func() { bs, desc = construct(rnd, p, over, 900) }); pn != nil {
			r.Fail("panic-construct", fmt.Sprint(pn), "%v: building a message panics: %v", p, pn)
			continue
		}
		for _, b := range bs {
			var enc []byte
			if pn := lib.Guard(func() { enc = b.pdu.Encode() }); pn != nil {
				r.Fail("panic-"+b.kind, desc, "%v %s: Encode panics: %v; %v", p, b.kind, pn, desc)
				continue
			}
			replay := map[string]any{"proto": p.String(), "kind": b.kind, "bytes": fmt.Sprintf("%x", enc), "input": desc}
			bad := func(f string, a ...any) {
				r.Fail("layout-"+p.Proto+"-"+b.kind, replay, "%v %s: %s; input %v; bytes %x", p, b.kind, fmt.Sprintf(f, a...), desc, enc)
			}
			key := ""
			if len(enc) > 20 {
				key = fmt.Sprintf("%v %s %x", p, b.kind, enc)
			}
			r.Case(key)
			r.Count(p.Proto+" "+b.kind, 1)
			pk, err := refc.ParseFrame(p.Proto, p.Ver, enc)
			if err != nil {
				bad("%v", err)
				continue
			}
			if pk.Kind != b.kind {
				bad("command %08x", pk.Cmd)
				continue
			}
			if b.seq != nil && fmt.Sprint(b.seq) != fmt.Sprint(pk.Seq) {
				bad("sequence %v instead of %v", pk.Seq, b.seq)
			}
			if _, hs := head(b.pdu); hs != nil && fmt.Sprint(hs) != fmt.Sprint(pk.Seq) {
				bad("sequence on the wire %v, of the object %v", pk.Seq, hs)
			}
			for _, f := range refc.Fields(p.Proto, p.Ver, b.kind) {
				w, ok := b.want[f.Name]
				if !ok {
					if !b.free[f.Name] {
						bad("harness: no expectation for %s", f.Name)
					}
					continue
				}
				if f.Kind == 't' {
					if fmt.Sprint(pk.M.T(f.Name)) != fmt.Sprint(w) {
						bad("field %s is %v instead of %v", f.Name, pk.M[f.Name], w)
					}
				} else if f.Count != "" && f.Kind == 's' {
					if !same(pk.M.L(f.Name), w) && len(pk.M.L(f.Name))+len(w.([]string)) > 0 {
						bad("field %s is %q instead of %q", f.Name, pk.M[f.Name], w)
					}
				} else if !same(pk.M[f.Name], w) {
					bad("field %s is %q instead of %q", f.Name, fmt.Sprint(pk.M[f.Name]), fmt.Sprint(w))
				}
			}
			if b.check != nil {
				if e := b.check(pk.M); e != "" {
					bad("%s", e)
				}
			}
			if i%9973 == 0 {
				r.Sample(replay)
			}
		}
	}
	return r
}

// reencodes lists the kinds whose object keeps everything the wire form has.
func reencodes(p gen.PV, kind string, m refc.M) bool {
	switch p.Proto + "/" + kind {
	case "cmpp/submit", "smgp/submit":
		return false
	case "smgp/deliver":
		return len(m.T("tlv")) == 0
	case "sgip/submit":
		return m.U("tpUdhi") == 0
	}
	return true
}

// headerOnly reads the header of a message by itself.
func headerOnly(p gen.PV, frame []byte, cmd uint32, seq []uint32) (what string) {
	if pn := lib.Guard(func() {
		var err error
		var l, c uint32
		var sq []uint32
		n := 12
		switch p.Proto {
		case refc.CMPP:
			h := &cmpp.MessageHeader{}
			err = h.Decode(frame)
			l, c, sq = h.TotalLength, uint32(h.CommandId), []uint32{h.SequenceId}
		case refc.SMGP:
			h := &smgp.MessageHeader{}
			err = h.Decode(frame)
			l, c, sq = h.PacketLength, uint32(h.RequestId), []uint32{h.SequenceId}
		default:
			n = 20
			h := &sgip.MessageHeader{}
			err = h.Decode(frame)
			l, c, sq = h.PacketLength, uint32(h.CommandId), h.SequenceNumber
		}
		if err != nil || int(l) != len(frame) || c != cmd || fmt.Sprint(sq) != fmt.Sprint(seq) {
			what = fmt.Sprintf("the header by itself is read as length %d command %08x sequence %v (%v)", l, c, sq, err)
			return
		}
		cut := frame[:n-1]
		switch p.Proto {
		case refc.CMPP:
			err = (&cmpp.MessageHeader{}).Decode(cut)
		case refc.SMGP:
			err = (&smgp.MessageHeader{}).Decode(cut)
		default:
			err = (&sgip.MessageHeader{}).Decode(cut)
		}
		if err == nil {
			what = "a header cut short is accepted"
		}
	}); pn != nil {
		what = fmt.Sprintf("reading the header panics: %v", pn)
	}
	return
}

// decodeOne hands a well-formed frame to the decoder and compares what the object then says.
func decodeOne(r *lib.Run, p gen.PV, kind string, seq []uint32, frame []byte, m refc.M, text string, mult bool, desc any) {
	replay := map[string]any{"proto": p.String(), "kind": kind, "bytes": fmt.Sprintf("%x", frame), "input": desc}
	bad := func(f string, a ...any) {
		r.Fail("decode-"+p.Proto+"-"+kind, replay, "%v %s: %s; bytes %x", p, kind, fmt.Sprintf(f, a...), frame)
	}
	key := ""
	if len(frame) > 20 {
		key = fmt.Sprintf("%v %s %x", p, kind, frame)
	}
	r.Case(key)
	r.Count(p.Proto+" "+kind, 1)
	o := newObj(p, kind)
	keep := string(frame)
	var err error
	if pn := lib.Guard(func() { err = decode(o, frame) }); pn != nil {
		bad("Decode panics: %v", pn)
		return
	}
	if err != nil {
		bad("Decode refuses a well-formed message: %v", err)
		return
	}
	if string(frame) != keep {
		bad("Decode changed the bytes it was given")
	}
	cmd, sq := head(o)
	if cmd != refc.Cmd(p.Proto, kind) || fmt.Sprint(sq) != fmt.Sprint(seq) {
		bad("header read as command %08x sequence %v instead of %v", cmd, sq, seq)
	}
	if e := headerOnly(p, frame, cmd, seq); e != "" {
		bad("%s", e)
	}
	var got map[string]any
	if pn := lib.Guard(func() { got = fields(o, m) }); pn != nil {
		bad("reading the fields panics: %v", pn)
		return
	}
	for name, g := range got {
		var w any
		switch name {
		case "n":
			w = len(m.L("dest"))
		case "len":
			w = len(m.B("content"))
		case "text":
			if mult {
				continue
			}
			w = text
		case "ntlv":
			w = len(m.T("tlv"))
		case "msgIdHex":
			w = fmt.Sprintf("%x", m.B("msgId"))
		case "report":
			if rep, ok := m["report"].(refc.SmgpReport); ok {
				w = refc.M{"id": rep.ID, "sub": rep.Sub, "dlvrd": rep.Dlvrd, "submit": rep.SubmitDate, "done": rep.DoneDate, "stat": rep.Stat}
			} else {
				w = m["report"]
			}
			if fmt.Sprint(g) != fmt.Sprint(w) {
				bad("report read as %v instead of %v", g, w)
			}
			continue
		case "content":
			body := m.B("content")
			if len(body) >= 6 && m.U("tpUdhi") == 1 {
				body = body[6:]
			}
			gb, _ := g.([]byte)
			if string(gb) != string(body) && !(m.U("fmt") == 8 && string(gb) == gen.FromUCS2(body)) {
				bad("content read as %x instead of %x", gb, body)
			}
			continue
		default:
			w = m[name]
		}
		if l, ok := w.([]string); ok && len(l) == 0 {
			if gl, ok := g.([]string); ok && len(gl) == 0 {
				continue
			}
		}
		if !same(g, w) {
			bad("field %s read as %q instead of %q", name, fmt.Sprint(g), fmt.Sprint(w))
		}
	}
	if reencodes(p, kind, m) {
		var enc []byte
		if pn := lib.Guard(func() { enc = o.Encode() }); pn != nil {
			bad("Encode of the decoded message panics: %v", pn)
		} else if string(enc) != string(frame) {
			bad("encodes differently after decoding: %x", enc)
		}
	}
}

func decodeCheck() *lib.Run {
	r := lib.NewRun("C02", "exploration", "a case is one well-formed frame, produced by an independent codec from random field values or by the library's own constructors, read by the library's decoder and compared field by field (and byte by byte when encoded again); distinct by bytes; non-trivial when it has a body")
	sequences()
	rnd := r.Sub("decode")
	var all []struct {
		p gen.PV
		k string
	}
	for _, p := range gen.All {
		for _, k := range allKinds(p) {
			all = append(all, struct {
				p gen.PV
				k string
			}{p, k})
		}
	}
	for i, n := 0, r.N(80000, 2000000); i < n && r.NFailed() < 20; i++ {
		c := all[i%len(all)]
		seq := gen.Seq(rnd, c.p.Proto)
		m, text := gen.Message(rnd, c.p, c.k)
		mult := false
		if c.k == "submit" && rnd.Intn(3) == 0 { // one part of a long message
			max := 249
			if c.p.Proto == refc.SGIP {
				max = 1000
			}
			if b := m.B("content"); len(b) <= max {
				m["tpUdhi"] = 1
				tot := 2 + rnd.Intn(250)
				m["content"] = append([]byte{5, 0, 3, byte(rnd.Intn(256)), byte(tot), byte(1 + rnd.Intn(tot))}, b...)
				r.Count("parts of long messages", 1)
			}
		}
		frame := refc.Frame(c.p.Proto, c.p.Ver, c.k, m, seq...)
		decodeOne(r, c.p, c.k, seq, frame, m, text, mult, m)
		if i%19973 == 0 {
			r.Sample(map[string]any{"proto": c.p.String(), "kind": c.k, "bytes": fmt.Sprintf("%x", frame)})
		}
	}
	for i, n := 0, r.N(20000, 400000); i < n && r.NFailed() < 20; i++ {
		p := randPV(rnd)
		bs, desc := construct(rnd, p, 0, 900)
		for _, b := range bs {
			enc := b.pdu.Encode()
			pk, err := refc.ParseFrame(p.Proto, p.Ver, enc)
			if err != nil || pk.Kind != b.kind {
				continue // property C01
			}
			if pk.M.U("isReport") == 1 {
				if p.Proto == refc.CMPP {
					pk.M["report"], err = refc.Parse(refc.CMPP, 0, "report", pk.M.B("content"))
				} else {
					pk.M["report"], err = refc.ParseSmgpReport(pk.M.B("content"))
				}
				if err != nil {
					continue
				}
			}
			decodeOne(r, p, b.kind, pk.Seq, enc, pk.M, b.text, b.mult, desc)
		}
		r.Count("constructed inputs", 1)
	}
	return r
}
