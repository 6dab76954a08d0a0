package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/smgp"
	"github.com/hrygo/gosms/utils"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() {
	checks["C04"] = splitCheck
	checks["C05"] = textCheck
	checks["C06"] = optionCheck
	checks["C09"] = responseCheck
}

// reassemble checks the parts of one message and returns their joined user data.
func reassemble(p gen.PV, text string, parts []*refc.Packet) ([]byte, string) {
	n := len(parts)
	if n == 0 {
		return nil, "no part at all"
	}
	limit := 140
	if p.Proto != refc.SMGP && gen.ASCII(text) {
		limit = 160
	}
	one := func(m refc.M, tag uint16) (int, bool) {
		c := 0
		v := -1
		for _, t := range m.T("tlv") {
			if t.T == tag {
				c++
				if len(t.V) == 1 {
					v = int(t.V[0])
				}
			}
		}
		return v, c == 1
	}
	var all []byte
	ref := -1
	seen := map[string]bool{}
	for i, pk := range parts {
		m := pk.M
		c := m.B("content")
		if len(c) > limit {
			return nil, fmt.Sprintf("part %d/%d has %d octets, the air interface takes %d", i+1, n, len(c), limit)
		}
		if seen[pk.SeqKey()] {
			return nil, fmt.Sprintf("two parts have sequence number %v", pk.Seq)
		}
		seen[pk.SeqKey()] = true
		flag := m.U("tpUdhi")
		if p.Proto == refc.SMGP {
			flag = 0
			if len(m.T("tlv")) > 0 {
				v, ok := one(m, 2)
				if !ok {
					return nil, fmt.Sprintf("part %d/%d: TP_udhi parameter missing or repeated: %v", i+1, n, m.T("tlv"))
				}
				flag = uint64(v)
			}
		}
		if p.Proto == refc.CMPP {
			if m.U("pkTotal") != uint64(n) || m.U("pkNumber") != uint64(i+1) {
				return nil, fmt.Sprintf("part %d of %d says it is part %d of %d", i+1, n, m.U("pkNumber"), m.U("pkTotal"))
			}
		}
		if n == 1 {
			if flag != 0 {
				return nil, "a single part is flagged as concatenated"
			}
			return c, ""
		}
		if flag != 1 {
			return nil, fmt.Sprintf("part %d/%d is not flagged as concatenated", i+1, n)
		}
		if p.Proto == refc.SMGP {
			if v, ok := one(m, 9); !ok || v != n {
				return nil, fmt.Sprintf("part %d/%d: PkTotal parameter %v", i+1, n, m.T("tlv"))
			}
			if v, ok := one(m, 10); !ok || v != i+1 {
				return nil, fmt.Sprintf("part %d/%d: PkNumber parameter %v", i+1, n, m.T("tlv"))
			}
		}
		if len(c) < 7 || c[0] != 5 || c[1] != 0 || c[2] != 3 {
			return nil, fmt.Sprintf("part %d/%d has no concatenation header: %x", i+1, n, c)
		}
		if ref >= 0 && int(c[3]) != ref {
			return nil, fmt.Sprintf("part %d/%d has reference %d, the first has %d", i+1, n, c[3], ref)
		}
		ref = int(c[3])
		if int(c[4]) != n || int(c[5]) != i+1 {
			return nil, fmt.Sprintf("part %d of %d announces part %d of %d", i+1, n, c[5], c[4])
		}
		all = append(all, c[6:]...)
	}
	return all, ""
}

func splitCheck() *lib.Run {
	r := lib.NewRun("C04", "exploration", "a case is one text of a certain length and alphabet sent through the submit constructor of a protocol version (or cut by the splitting helpers); its parts are reassembled by an independent implementation of the concatenation rules; distinct by protocol, length, alphabet and text; non-trivial when it makes more than one part")
	sequences()
	rnd := r.Sub("split")
	used := map[string]bool{} // sequence numbers the parts got from the program's generator
	one := func(p gen.PV, text string) {
		ac := account(rnd, p, 0)
		replay := map[string]any{"proto": p.String(), "text": text, "chars": utf8.RuneCountInString(text)}
		bad := func(f string, a ...any) {
			r.Fail("split-"+p.Proto, replay, "%v, text of %d characters: %s", p, utf8.RuneCountInString(text), fmt.Sprintf(f, a...))
		}
		phones := phoneList(rnd, 0)
		var parts []*refc.Packet
		if pn := lib.Guard(func() {
			for _, s := range newSubmit(p, ac, phones, text, rnd.Uint32()) {
				pk, err := refc.ParseFrame(p.Proto, p.Ver, s.Encode())
				if err != nil {
					bad("%v", err)
					return
				}
				parts = append(parts, pk)
			}
		}); pn != nil {
			bad("panic: %v", pn)
			return
		}
		key := ""
		if len(parts) > 1 {
			key = fmt.Sprint(p, text)
		}
		r.Case(key)
		r.Max("most parts", int64(len(parts)))
		r.Count("parts", int64(len(parts)))
		if r.Failed() && len(parts) == 0 {
			return
		}
		for i, k := range parts {
			id := fmt.Sprint(p.Proto, k.Seq)
			if p.Proto != refc.SGIP && i == 0 {
				continue // the caller's
			}
			if used[id] {
				bad("part %d has sequence number %v, as an earlier part", i+1, k.Seq)
				return
			}
			used[id] = true
		}
		got, e := reassemble(p, text, parts)
		if e != "" {
			bad("%s", e)
			return
		}
		want := gen.Octets(p.Proto, text)
		if !bytes.Equal(got, want) {
			bad("the parts join to %d octets instead of the %d of the text: %x / %x", len(got), len(want), got, want)
		}
	}
	// every length, two alphabets and a mixed one
	max := r.N(620, 3000)
	for _, p := range []gen.PV{gen.All[0], gen.All[1], gen.All[3], gen.All[4]} {
		for n := 0; n <= max && r.NFailed() < 10; n++ {
			for mode := 0; mode < 3; mode++ {
				one(p, gen.Text(rnd, n, mode))
			}
			one(p, strings.Repeat("中", n))
		}
	}
	// up to the 255 parts the header can number
	for i, n := 0, r.N(120, 1500); i < n && r.NFailed() < 10; i++ {
		p := randPV(rnd)
		top := 134 * 255 / 4
		if i%3 == 0 {
			one(p, gen.Text(rnd, 134*(1+rnd.Intn(255))-rnd.Intn(2), 0))
		} else if i%3 == 1 {
			one(p, strings.Repeat("汉", 67*(1+rnd.Intn(254))+rnd.Intn(3)-1))
		} else {
			one(p, gen.Text(rnd, rnd.Intn(top), 2))
		}
	}
	// the helpers themselves
	for i, n := 0, r.N(4000, 40000); i < n && r.NFailed() < 10; i++ {
		pk := []int{140, 160}[rnd.Intn(2)]
		b := gen.Bytes(rnd, rnd.Intn(pk*12))
		if rnd.Intn(2) == 0 {
			b = gen.Bytes(rnd, (pk-6)*rnd.Intn(40)+rnd.Intn(3))
		}
		keep := string(b)
		sl := utils.ToTPUDHISlices(b, pk)
		var all []byte
		ok := len(sl) > 0
		for j, s := range sl {
			ok = ok && len(s) <= pk
			if len(sl) == 1 {
				all = s
				break
			}
			ok = ok && len(s) > 6 && s[0] == 5 && s[1] == 0 && s[2] == 3 && s[3] == sl[0][3] && int(s[4]) == len(sl) && int(s[5]) == j+1
			if ok {
				all = append(all, s[6:]...)
			}
		}
		r.Case(fmt.Sprint("slices", pk, keep))
		if !ok || string(all) != keep || string(b) != keep {
			r.Fail("slices", map[string]any{"limit": pk, "octets": fmt.Sprintf("%x", keep)}, "%d octets cut at %d: %d parts that do not reassemble", len(keep), pk, len(sl))
		}
	}
	r.Sample("every length from 0 to " + strconv.Itoa(max) + " characters in ASCII, Latin/Chinese, anything, and one Chinese character repeated")
	return r
}

func textCheck() *lib.Run {
	r := lib.NewRun("C05", "exploration", "a case is one value converted and converted back (every code point, long random texts, digit strings, numbers, times) or one upstream text whose delivered content is compared with what was typed; distinct by value")
	sequences()
	rnd := r.Sub("text")
	fail := func(sig string, in any, f string, a ...any) { r.Fail(sig, in, f, a...) }
	conv := func(s string) {
		r.Case("t" + s)
		b, err := utils.Utf8ToUcs2(s)
		if err != nil || !bytes.Equal(b, gen.UCS2(s)) {
			fail("ucs2-encode", s, "UCS-2 of %q: %x %v, expected %x", s, b, err, gen.UCS2(s))
			return
		}
		back, err := utils.Ucs2ToUtf8(b)
		if err != nil || string(back) != s {
			fail("ucs2-decode", s, "UCS-2 back: %q instead of %q (%v)", back, s, err)
		}
		for _, c := range s {
			if c >= 0xe000 && c <= 0xf8ff {
				return // private use: no assigned characters in GB 18030
			}
		}
		g, err := utils.Utf8ToGB18030(s)
		if err != nil || g != string(gen.GB(s)) {
			fail("gb-encode", s, "GB18030 of %q: %x %v, expected %x", s, g, err, gen.GB(s))
			return
		}
		bk, err := utils.GB18030ToUtf8(g)
		if err != nil || bk != s {
			fail("gb-decode", s, "GB18030 back: %q instead of %q (%v)", bk, s, err)
		}
	}
	step := rune(r.N(7, 1))
	for c := rune(0); c <= 0x10ffff && r.NFailed() < 20; c++ {
		if c >= 0xd800 && c <= 0xdfff || c > 0xffff && c%step != 0 {
			continue
		}
		conv(string(c))
	}
	for i, n := 0, r.N(3000, 30000); i < n && r.NFailed() < 20; i++ {
		l := rnd.Intn(200)
		if i%20 == 0 {
			l = 3900 + rnd.Intn(9000)
		}
		conv(gen.Text(rnd, l, rnd.Intn(3)))
	}
	for _, s := range []string{"\xff", "a\x80b", "中\xe4\xb8", "\xed\xa0\x80"} {
		r.Case("bad" + s)
		if _, err := utils.Utf8ToUcs2(s); err == nil {
			fail("invalid-utf8", s, "invalid UTF-8 %x is converted to UCS-2 without an error", s)
		}
		if _, err := utils.Utf8ToGB18030(s); err == nil {
			fail("invalid-utf8", s, "invalid UTF-8 %x is converted to GB18030 without an error", s)
		}
	}
	for i, n := 0, r.N(20000, 200000); i < n && r.NFailed() < 20; i++ {
		d := gen.Digits(rnd, 2*rnd.Intn(20))
		switch rnd.Intn(4) {
		case 0:
			d = strings.Repeat("0", 2*rnd.Intn(10)) + d
		case 1:
			d += strings.Repeat("0", 2*rnd.Intn(10))
		}
		b := utils.StoBcd(d)
		var want []byte
		for j := 0; j < len(d); j += 2 {
			want = append(want, (d[j]-'0')<<4|(d[j+1]-'0'))
		}
		r.Case("d" + d)
		if !bytes.Equal(b, want) || utils.BcdToString(b) != d {
			fail("bcd", d, "digits %q pack to %x and back to %q", d, b, utils.BcdToString(b))
		}
		v := rnd.Uint64() >> rnd.Intn(64)
		if g := utils.Uint64HexString(v); g != fmt.Sprintf("%016x", v) {
			fail("hex64", v, "hexadecimal of %x is %q", v, g)
		}
		if g := utils.Uint32HexString(uint32(v)); g != fmt.Sprintf("%08x", uint32(v)) {
			fail("hex32", v, "hexadecimal of %x is %q", uint32(v), g)
		}
		if g := utils.TimeStamp2Str(uint32(v)); g != fmt.Sprintf("%010d", uint32(v)) {
			fail("timestamp", v, "timestamp string of %d is %q", uint32(v), g)
		}
		l := 1 + rnd.Intn(18)
		x := rnd.Int63()
		for j := l; j < 19; j++ {
			x /= 10
		}
		if rnd.Intn(3) == 0 {
			for j := rnd.Intn(l); j > 0; j-- {
				x /= 10
			}
		}
		if s := strconv.FormatInt(x, 10); len(s) <= l {
			if g := utils.IntToFixStr(x, l); g != strings.Repeat("0", l-len(s))+s {
				fail("fixed", x, "number %d in %d digits is %q", x, l, g)
			}
		}
		t := time.Unix(rnd.Int63n(4e9), 0)
		if g := utils.FormatTime(t); g != t.Format("060102150405")+"032+" {
			fail("time", t.String(), "time %v is %q", t, g)
		}
		w := 1 + rnd.Intn(30)
		s := gen.Str(rnd, rnd.Intn(w+1))
		o := utils.OctetString(s, w)
		if len(o) != w || utils.TrimStr([]byte(o)) != s || string(utils.TrimOctetString([]byte(o))) != s {
			fail("octets", s, "octet string of %q in %d is %q and back %q", s, w, o, utils.TrimStr([]byte(o)))
		}
		k := 1 + rnd.Intn(5)
		var l1 []string
		var buf []byte
		for j := 0; j < k; j++ {
			e := gen.Str(rnd, rnd.Intn(w+1))
			l1 = append(l1, e)
			f := make([]byte, w)
			copy(f, e)
			buf = append(buf, f...)
		}
		if g := utils.Bytes2StringSlice(buf, w); !reflect.DeepEqual(g, l1) {
			fail("list", l1, "list %q of width %d is read as %q", l1, w, g)
		}
	}
	now := func() {
		t0 := time.Now()
		s, i := utils.Now()
		t1 := time.Now()
		if fmt.Sprintf("%010d", i) != s || s < t0.Format("0102150405") && s != t1.Format("0102150405") {
			fail("now", s, "current time reads %q and %d", s, i)
		}
	}
	for i := 0; i < 1000; i++ {
		now()
	}
	// what a phone typed
	for i, n := 0, r.N(30000, 400000); i < n && r.NFailed() < 20; i++ {
		p := randPV(rnd)
		ac := account(rnd, p, 0)
		mode := rnd.Intn(3)
		text := gen.Text(rnd, gen.TextLen(rnd, 300), mode)
		if rnd.Intn(6) == 0 {
			text = gen.Text(rnd, 60+rnd.Intn(20), 2)
		}
		if rnd.Intn(10) == 0 { // a wide character right at the limit
			text = strings.Repeat("a", rnd.Intn(3)) + strings.Repeat("中", 67+rnd.Intn(3)) + "😀𐀀ab"
		}
		replay := map[string]any{"proto": p.String(), "text": text}
		var pk *refc.Packet
		var err error
		if pn := lib.Guard(func() {
			pk, err = refc.ParseFrame(p.Proto, p.Ver, newDeliver(p, ac, "13800138000", text, "12", 7).Encode())
		}); pn != nil {
			r.Fail("mo-panic", replay, "%v: an upstream message panics: %v", p, pn)
			continue
		}
		r.Case(fmt.Sprint("mo", p, text))
		r.Count("upstream messages", 1)
		if err != nil {
			r.Fail("mo-layout", replay, "%v: %v", p, err)
			continue
		}
		c := pk.M.B("content")
		var got string
		switch {
		case p.Proto == refc.SMGP:
			got = gen.FromGB(c)
		case pk.M.U("fmt") == 8:
			got = gen.FromUCS2(c)
		default:
			got = string(c)
		}
		limit := 140
		if p.Proto != refc.SMGP && gen.ASCII(text) {
			limit = 160
		}
		if len(c) > limit {
			r.Fail("mo-long", replay, "%v: upstream content of %d octets", p, len(c))
		}
		if !strings.HasPrefix(text, got) {
			r.Fail("mo-garbled", replay, "%v: typed %q, delivered %q", p, text, got)
			continue
		}
		if got != text { // is there room for one more character?
			r.Count("upstream messages cut", 1)
			_, sz := utf8.DecodeRuneInString(text[len(got):])
			more := text[:len(got)+sz]
			enc := len(gen.Octets(p.Proto, more))
			if p.Proto == refc.CMPP || p.Proto == refc.SGIP {
				if pk.M.U("fmt") == 8 {
					enc = len(gen.UCS2(more))
				}
			} else if utf8.RuneCountInString(got) >= 70 {
				enc = 1000 // 70 characters
			}
			if enc <= limit {
				r.Fail("mo-short", replay, "%v: typed %q, only %q delivered", p, text, got)
			}
		}
		// and the receiving side reads it so
		o := newObj(p, "deliver")
		if err := decode(o, pk.Raw); err != nil {
			r.Fail("mo-read", replay, "%v: the delivered message can not be read: %v", p, err)
			continue
		}
		switch d := o.(type) {
		case *cmpp.Delivery:
			if d.MsgContent() != got {
				r.Fail("mo-read", replay, "%v: delivered %q, read %q", p, got, d.MsgContent())
			}
		case *smgp.Delivery:
			if d.MsgContent() != got {
				r.Fail("mo-read", replay, "%v: delivered %q, read %q", p, got, d.MsgContent())
			}
		}
	}
	r.Sample("every code point of the basic plane and every " + strconv.Itoa(int(step)) + "th beyond, both codings")
	return r
}

func optionCheck() *lib.Run {
	r := lib.NewRun("C06", "exploration", "a case is one submit built for a random account with a random list of options; the attributes on the wire are compared with a model (last valid option given, else the account); distinct by protocol, account and options; non-trivial when at least one option is given")
	sequences()
	rnd := r.Sub("options")
	attrs := map[string]bool{"needReport": true, "level": true, "serviceId": true, "service": true, "feeUser": true, "feeTermType": true, "feeTerm": true,
		"charge": true, "feeType": true, "feeCode": true, "fixedFee": true, "linkId": true, "at": true, "valid": true, "src": true, "sp": true}
	for i, n := 0, r.N(40000, 800000); i < n && r.NFailed() < 20; i++ {
		p := randPV(rnd)
		ac := account(rnd, p, 0)
		copyOf := *ac
		for k := 1 + rnd.Intn(3); k > 0; k-- { // several messages through one account
			fs, om, desc := options(rnd, 0)
			phones := phoneList(rnd, 0)
			keep := append([]string(nil), phones...)
			text := gen.Text(rnd, []int{3, 3, 200, 400}[rnd.Intn(4)], rnd.Intn(2))
			replay := map[string]any{"proto": p.String(), "account": copyOf, "options": desc}
			want := submitWant(p, &copyOf, om, phones)
			if p.Proto == refc.SGIP { // SGIP carries no charging options here
				delete(want, "feeType")
				delete(want, "charge")
			}
			t0 := time.Now()
			pdus := newSubmit(p, ac, phones, text, 1, fs...)
			t1 := time.Now()
			key := ""
			if len(desc) > 0 {
				key = fmt.Sprint(p, copyOf, desc)
				for _, d := range desc {
					r.Count("option "+strings.SplitN(d, " ", 2)[0], 1)
				}
			}
			r.Case(key)
			for j, s := range pdus {
				pk, err := refc.ParseFrame(p.Proto, p.Ver, s.Encode())
				if err != nil {
					r.Fail("layout", replay, "%v: %v", p, err)
					continue
				}
				for name, w := range want {
					if attrs[name] && !same(pk.M[name], w) {
						r.Fail("option-"+p.Proto+"-"+name, replay, "%v: attribute %s of part %d is %q instead of %q; options %q, account %+v", p, name, j+1, fmt.Sprint(pk.M[name]), fmt.Sprint(w), desc, copyOf)
					}
				}
				if _, ok := want["valid"]; !ok && !validBetween(pk.M.S("valid"), t0, t1, &copyOf) {
					r.Fail("option-"+p.Proto+"-valid", replay, "%v: validity %q is not now plus %v; options %q", p, pk.M.S("valid"), copyOf.MtValidDuration, desc)
				}
			}
			if !reflect.DeepEqual(*ac, copyOf) {
				r.Fail("account-changed", replay, "%v: building a message changed the account: %+v", p, *ac)
			}
			if !same(phones, keep) {
				r.Fail("phones-changed", replay, "%v: building a message changed the caller's numbers: %v", p, phones)
			}
			if i%7919 == 0 {
				r.Sample(replay)
			}
		}
	}
	return r
}

func responseCheck() *lib.Run {
	r := lib.NewRun("C09", "exploration", "a case is one request, read from a peer's bytes, and the response built for it with a random result code; the response's bytes are parsed by an independent codec and read back by the library's own decoder; distinct by request bytes and code")
	sequences()
	rnd := r.Sub("responses")
	reqs := map[string][]string{refc.CMPP: {"connect", "terminate", "submit", "deliver", "active"}, refc.SGIP: {"bind", "unbind", "submit", "deliver", "report"},
		refc.SMGP: {"login", "submit", "deliver", "active", "exit"}}
	for i, n := 0, r.N(60000, 1200000); i < n && r.NFailed() < 20; i++ {
		p := gen.All[i%len(gen.All)]
		kind := reqs[p.Proto][rnd.Intn(5)]
		seq := gen.Seq(rnd, p.Proto)
		m, _ := gen.Message(rnd, p, kind)
		secret := gen.UpTo(rnd, 16, 4)
		code := uint32(rnd.Intn(256))
		if p.Proto != refc.SGIP && kind != "connect" && kind != "login" && (p.Proto == refc.SMGP || p.Ver == 0x30) && rnd.Intn(3) == 0 {
			code = rnd.Uint32()
		}
		if rnd.Intn(2) == 0 {
			code = 0
		}
		if kind == "connect" {
			code %= 6
		}
		var conf *codec.AuthConf
		switch kind {
		case "connect", "login":
			id := gen.Str(rnd, 1+rnd.Intn(map[string]int{"connect": 6, "login": 8}[kind]))
			conf = &codec.AuthConf{ISP: p.Proto, ClientId: id, SharedSecret: secret, Version: p.Ver}
			m["src"], m["client"] = id, id
			m["auth"] = gen.Auth(p.Proto, id, secret, uint32(m.U("ts")))
		}
		frame := refc.Frame(p.Proto, p.Ver, kind, m, seq...)
		replay := map[string]any{"proto": p.String(), "request": fmt.Sprintf("%x", frame), "code": code}
		bad := func(f string, a ...any) {
			r.Fail("response-"+p.Proto+"-"+kind, replay, "%v response to %s with result %d: %s; request %x", p, kind, code, fmt.Sprintf(f, a...), frame)
		}
		r.Case(fmt.Sprint(p, code, string(frame)))
		r.Count(p.Proto+" "+kind, 1)
		o := newObj(p, kind)
		if err := decode(o, frame); err != nil {
			bad("request refused: %v", err)
			continue
		}
		switch c := o.(type) {
		case *cmpp.Connect:
			if s := c.Check(conf); s != 0 {
				bad("a proper login is refused: %v", s)
			}
		case *smgp.Login:
			if s := c.Check(conf); s != 0 {
				bad("a proper login is refused: %v", s)
			}
		}
		q := o.(codec.RequestPdu)
		var resp codec.Pdu
		var enc []byte
		if pn := lib.Guard(func() { resp = q.ToResponse(code); enc = resp.Encode() }); pn != nil {
			bad("panic: %v", pn)
			continue
		}
		pk, err := refc.ParseFrame(p.Proto, p.Ver, enc)
		if err != nil {
			bad("%v; %x", err, enc)
			continue
		}
		if pk.Kind != kind+"_resp" {
			bad("command %08x", pk.Cmd)
			continue
		}
		if fmt.Sprint(pk.Seq) != fmt.Sprint(seq) {
			bad("sequence %v instead of %v", pk.Seq, seq)
		}
		for _, f := range []string{"result", "status"} {
			if v, ok := pk.M[f]; ok && v.(uint64) != uint64(code) {
				bad("%s %v", f, v)
			}
		}
		switch p.Proto + "/" + kind {
		case "cmpp/deliver":
			if pk.M.U("msgId") != m.U("msgId") {
				bad("message id %x instead of %x", pk.M.U("msgId"), m.U("msgId"))
			}
		case "smgp/deliver":
			if !bytes.Equal(pk.M.B("msgId"), m.B("msgId")) {
				bad("message id %x instead of %x", pk.M.B("msgId"), m.B("msgId"))
			}
		case "cmpp/submit":
			if s := resp.(*cmpp.SubmitRsp); s.MsgId() != pk.M.U("msgId") || code == 0 && s.MsgId() == 0 {
				bad("message id %x on the wire, %x told", pk.M.U("msgId"), s.MsgId())
			}
		case "smgp/submit":
			if s := resp.(*smgp.SubmitRsp); !bytes.Equal(s.MsgId(), pk.M.B("msgId")) || code == 0 && bytes.Equal(s.MsgId(), make([]byte, 10)) {
				bad("message id %x on the wire, %x told", pk.M.B("msgId"), s.MsgId())
			}
		case "cmpp/connect", "smgp/login":
			if code == 0 {
				if w := gen.Proof(p, m.B("auth"), secret); !bytes.Equal(w, pk.M.B("auth")) {
					bad("the gateway's proof is %x instead of %x", pk.M.B("auth"), w)
				}
				r.Count("gateway proofs verified", 1)
			}
			if pk.M.U("ver") != uint64(p.Ver) {
				bad("version %x", pk.M.U("ver"))
			}
		}
		// the other end reads the same
		back := newObj(p, kind+"_resp")
		if err := decode(back, enc); err != nil {
			bad("the response can not be read: %v", err)
			continue
		}
		if _, sq := head(back); fmt.Sprint(sq) != fmt.Sprint(seq) {
			bad("the client reads sequence %v instead of %v", sq, seq)
		}
		got := fields(back, pk.M)
		for name, g := range got {
			if name == "msgIdHex" {
				if fmt.Sprint(g) != fmt.Sprintf("%x", pk.M.B("msgId")) {
					bad("the client reads message id %v", g)
				}
				continue
			}
			if !same(g, pk.M[name]) {
				bad("the client reads %s as %v instead of %v", name, g, pk.M[name])
			}
		}
		if i%9973 == 0 {
			r.Sample(replay)
		}
	}
	return r
}
