package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"sync/atomic"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C03"] = malformedCheck }

// probe decodes body[:n] and uses the result in every way a program logs or reads it.
func probe(p gen.PV, kind string, seq uint32, body []byte) (o codec.Pdu, err error, told string) {
	o = newObj(p, kind)
	err = o.Decode(seq, body)
	told = fmt.Sprint(err != nil)
	told += fmt.Sprint(o.Log())
	if s, ok := o.(fmt.Stringer); ok {
		told += s.String()
	}
	if err == nil {
		m := refc.M{}
		if p.Proto == refc.SMGP {
			m["tlv"] = []refc.TLV{{T: 1}, {T: 2}, {T: 9}, {T: 10}}
		}
		if d, ok := o.(*cmpp.Delivery); !ok || !d.IsReport() || d.Report() != nil {
			told += fmt.Sprint(fields(o, m))
		} else {
			told += "report without content"
		}
	}
	return
}

func malformedCheck() *lib.Run {
	r := lib.NewRun("C03", "exploration", "a case is one byte string handed to one message decoder, followed by logging, printing and reading the result: cut, flipped, with lying counts and lengths, or random; distinct by decoder and bytes; non-trivial when the bytes are not a well-formed message of that kind")
	sequences()
	var stamp, done int64
	var current atomic.Value
	current.Store("")
	go func() {
		last, since := int64(-1), time.Now()
		for atomic.LoadInt64(&done) == 0 {
			time.Sleep(200 * time.Millisecond)
			if s := atomic.LoadInt64(&stamp); s != last {
				last, since = s, time.Now()
			} else if time.Since(since) > 60*time.Second {
				r.Fail("hang", current.Load(), "decoding does not come back within 60 s: %v", current.Load())
				r.Finish()
			}
		}
	}()
	rnd := r.Sub("malformed")
	var all []struct {
		p gen.PV
		k string
	}
	for _, p := range gen.All {
		for _, k := range allKinds(p) {
			all = append(all, struct {
				p gen.PV
				k string
			}{p, k})
		}
	}
	try := func(p gen.PV, kind, how string, frame []byte, mustFail bool) {
		if r.NFailed() > 20 {
			return
		}
		if len(frame) < 12 {
			frame = append(frame, make([]byte, 12-len(frame))...)
		}
		atomic.AddInt64(&stamp, 1)
		seq := binary.BigEndian.Uint32(frame[8:])
		replay := map[string]any{"proto": p.String(), "decoder": kind, "how": how, "bytes": fmt.Sprintf("%x", frame)}
		current.Store(fmt.Sprint(p, " ", kind, " ", how, " ", fmt.Sprintf("%x", frame)))
		r.Case(fmt.Sprint(p, kind, string(frame)))
		r.Count(how, 1)
		body := frame[12:]
		// the very bytes, then the same bytes inside larger buffers with different surroundings
		var told [3]string
		for i := 0; i < 3; i++ {
			b := body[:len(body):len(body)]
			if i > 0 {
				big := make([]byte, len(body)+700)
				for j := range big {
					big[j] = byte(0x5a * i)
				}
				copy(big, body)
				b = big[:len(body)]
			} else {
				b = append(make([]byte, 0, len(body)), body...)
				b = b[:len(body):len(body)]
			}
			var err error
			if pn := lib.Guard(func() { _, err, told[i] = probe(p, kind, seq, b) }); pn != nil {
				r.Fail("panic-"+p.Proto+"-"+kind, replay, "%v %s (%s): %v; bytes %x", p, kind, how, pn, frame)
				return
			}
			if err != nil {
				r.Count("reported as error", 1)
			} else if mustFail {
				r.Fail("accepts-"+p.Proto+"-"+kind, replay, "%v %s: a message cut short inside a mandatory field is accepted: %x", p, kind, frame)
				return
			}
			if i > 0 && string(b) != string(body) {
				r.Fail("writes-"+p.Proto+"-"+kind, replay, "%v %s (%s): decoding changed the bytes it was given: %x", p, kind, how, frame)
			}
		}
		if told[1] != told[2] {
			r.Fail("overread-"+p.Proto+"-"+kind, replay, "%v %s (%s): the result depends on octets behind the message: %s / %s; bytes %x", p, kind, how, told[1], told[2], frame)
		}
	}
	// every kind, cut at every length
	rounds := r.N(6, 60)
	for k := 0; k < rounds; k++ {
		for _, c := range all {
			for v := 0; v < 2; v++ {
				m, _ := gen.Message(rnd, c.p, c.k)
				if c.k == "submit" && rnd.Intn(2) == 0 {
					m["tpUdhi"] = 1
					n := rnd.Intn(14)
					m["content"] = append([]byte{5, 0, 3, 1, 2, 1}, gen.Bytes(rnd, n)...)
				}
				if l := m.L("dest"); len(l) > 3 && k > 0 {
					m["dest"] = l[:3]
				}
				frame := refc.Frame(c.p.Proto, c.p.Ver, c.k, m, gen.Seq(rnd, c.p.Proto)...)
				man := refc.HeadLen(c.p.Proto) + refc.Mandatory(c.p.Proto, c.p.Ver, c.k, m)
				try(c.p, c.k, "whole", frame, false)
				for n := 12; n < len(frame); n++ {
					must := n < man
					f := append([]byte(nil), frame[:n]...)
					try(c.p, c.k, "cut", f, must)
				}
				// a part header that is cut or nearly one
				if c.k == "submit" {
					for n := 0; n < 8; n++ {
						b := []byte{5, 0, 3, 1, 2, 1, 'a', 'b'}[:n]
						m["content"] = append([]byte(nil), b...)
						m["tpUdhi"] = v
						for _, fm := range []int{0, 8, 15, 4} {
							m["fmt"] = fm
							try(c.p, c.k, "short part header", refc.Frame(c.p.Proto, c.p.Ver, c.k, m, gen.Seq(rnd, c.p.Proto)...), false)
						}
					}
				}
			}
		}
	}
	mutate := func(r2 *rand.Rand, f []byte) []byte {
		f = append([]byte(nil), f...)
		for i := 1 + r2.Intn(4); i > 0; i-- {
			j := 12
			if len(f) > 12 {
				j += r2.Intn(len(f) - 12)
			} else {
				j = r2.Intn(len(f))
			}
			switch r2.Intn(6) {
			case 0:
				f[j] ^= 1 << r2.Intn(8)
			case 1:
				f[j] = byte(r2.Intn(256))
			case 2:
				f[j] = []byte{0, 1, 0x7f, 0x80, 0xff}[r2.Intn(5)]
			case 3:
				if j+4 <= len(f) {
					binary.BigEndian.PutUint32(f[j:], []uint32{0, 1, 0x7fffffff, 0x80000000, 0xffffffff, uint32(len(f))}[r2.Intn(6)])
				}
			case 4:
				f = f[:j]
			case 5:
				f = append(f, gen.Bytes(r2, r2.Intn(30))...)
			}
			if len(f) < 12 {
				break
			}
		}
		return f
	}
	for i, n := 0, r.N(150000, 4000000); i < n && r.NFailed() <= 20; i++ {
		c := all[i%len(all)]
		m, _ := gen.Message(rnd, c.p, c.k)
		switch rnd.Intn(4) {
		case 0: // lying counts and lengths
			if _, ok := m["dest"]; ok {
				m["n"] = rnd.Intn(256)
			}
			m["len"] = []uint64{0, 1, 5, 6, 7, 0x7f, 0x80, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, uint64(rnd.Intn(400))}[rnd.Intn(13)]
			if rnd.Intn(2) == 0 {
				m["tpUdhi"] = 1
			}
			if rnd.Intn(3) == 0 {
				m["isReport"] = 1
			}
			try(c.p, c.k, "lying length", refc.Frame(c.p.Proto, c.p.Ver, c.k, m, gen.Seq(rnd, c.p.Proto)...), false)
		case 1:
			try(c.p, c.k, "mutated", mutate(rnd, refc.Frame(c.p.Proto, c.p.Ver, c.k, m, gen.Seq(rnd, c.p.Proto)...)), false)
		case 2:
			try(c.p, c.k, "random", gen.Bytes(rnd, 12+rnd.Intn([]int{20, 60, 200, 600}[rnd.Intn(4)])), false)
		case 3: // the message of another kind
			d := all[rnd.Intn(len(all))]
			m2, _ := gen.Message(rnd, d.p, d.k)
			try(c.p, c.k, "other kind", refc.Frame(d.p.Proto, d.p.Ver, d.k, m2, gen.Seq(rnd, d.p.Proto)...), false)
		}
		if i%29989 == 0 {
			r.Sample(current.Load())
		}
	}
	// headers
	for n := 0; n < 40; n++ {
		for k := 0; k < r.N(20, 200); k++ {
			b := gen.Bytes(rnd, n)
			if pn := lib.Guard(func() {
				codec.UnpackHead(b)
				h1, h2, h3 := &cmpp.MessageHeader{}, &sgip.MessageHeader{}, &smgp.MessageHeader{}
				_ = h1.Decode(b)
				_, _, _ = fmt.Sprint(h1.Log()), h2.Decode(b), h3.Decode(b)
				_, _ = h2.Log(), h2.String()
				_, _ = h3.Log(), h3.String()
			}); pn != nil {
				r.Fail("panic-header", fmt.Sprintf("%x", b), "decoding the header %x: %v", b, pn)
			}
			r.Case(fmt.Sprintf("head %x", b))
		}
	}
	atomic.StoreInt64(&done, 1)
	_ = os.Stdout
	return r
}
