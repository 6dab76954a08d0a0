package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing/iotest"

	"github.com/hrygo/gosms/utils"
	"verif/lib"
)

func init() { checks["C07"] = tlvCheck }

type kv struct {
	t uint16
	v []byte
}

// chunked returns a reader delivering b in random pieces, ending with EOF or err
type chunked struct {
	b   []byte
	rnd *rand.Rand
	err error
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.err
	}
	n := 1 + c.rnd.Intn(1+c.rnd.Intn(9))
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.b) {
		n = len(c.b)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.rnd.Intn(2) == 0 {
		return n, c.err
	}
	return n, nil
}

func encodeKvs(l []kv) []byte {
	var b []byte
	for _, k := range l {
		b = append(b, byte(k.t>>8), byte(k.t), byte(len(k.v)>>8), byte(len(k.v)))
		b = append(b, k.v...)
	}
	return b
}

func tlvCheck() *lib.Run {
	r := lib.NewRun("C07", "exploration", "a case is a random list of tagged values with a random delivery of its bytes, a truncation point or a script of list operations; distinct by content and delivery; non-trivial when the list is not empty")
	rnd := r.Sub("tlv")
	gen := func() []kv {
		n := rnd.Intn(7)
		l := make([]kv, n)
		for i := range l {
			ln := []int{0, 1, 2, 3, 8, 20, 160, 255, 256, 1000}[rnd.Intn(10)]
			if rnd.Intn(400) == 0 {
				ln = 65535
			}
			l[i] = kv{uint16(rnd.Intn(6)), make([]byte, ln)}
			if rnd.Intn(3) == 0 {
				l[i].t = uint16(rnd.Intn(65536))
			}
			rnd.Read(l[i].v)
		}
		return l
	}
	same := func(tl *utils.TlvList, l []kv) bool {
		if tl == nil || int(tl.Length()) != len(l) {
			return false
		}
		var w bytes.Buffer
		if tl.Write(&w) != nil {
			return false
		}
		return bytes.Equal(w.Bytes(), encodeKvs(l))
	}
	for c := 0; c < r.N(4000, 100000); c++ {
		l := gen()
		raw := encodeKvs(l)
		desc := fmt.Sprintf("%x", raw)
		if len(desc) > 400 {
			desc = desc[:400] + "..."
		}
		// build and write
		tl := utils.NewTlvList()
		buf := make([]byte, 0, 65535) // the caller's buffer, used for one value after the other
		for i, k := range l {
			buf = append(buf[:0], k.v...)
			if i%2 == 0 {
				tl.Add(k.t, buf)
			} else {
				tl.AddObject(utils.New(k.t, buf))
			}
		}
		rnd.Read(buf)
		if !same(tl, l) {
			r.Fail("tlv-write", desc, "a list built from %s is not written as those objects", desc)
		}
		// read back whatever the delivery
		readers := map[string]func() io.Reader{
			"whole":   func() io.Reader { return bytes.NewReader(raw) },
			"onebyte": func() io.Reader { return iotest.OneByteReader(bytes.NewReader(raw)) },
			"half":    func() io.Reader { return iotest.HalfReader(bytes.NewReader(raw)) },
			"dataerr": func() io.Reader { return iotest.DataErrReader(bytes.NewReader(raw)) },
			"random":  func() io.Reader { return &chunked{append([]byte(nil), raw...), rnd, io.EOF} },
		}
		for name, mk := range readers {
			var got *utils.TlvList
			var err error
			if p := lib.Guard(func() { got, err = utils.Read(mk()) }); p != nil {
				r.Fail("tlv-panic", desc, "reading %s (%s) panics: %v", desc, name, p)
				continue
			}
			if err != nil || !same(got, l) {
				r.Fail("tlv-read", desc, "reading %s delivered %s gives %v, error %v", desc, name, got, err)
			}
			key := ""
			if len(l) > 0 {
				key = name + desc
			}
			r.Case(key)
		}
		// single object
		if len(l) > 0 {
			k := l[0]
			one := encodeKvs(l[:1])
			arg := append([]byte(nil), one...)
			o, err := utils.FromBytes(arg)
			rnd.Read(arg)
			if err != nil || o.Type() != k.t || int(o.Length()) != len(k.v) || !bytes.Equal(o.Value(), k.v) {
				r.Fail("tlv-object", desc, "object %x read as %v, %v", one, o, err)
			}
			b, err := utils.ToBytes(utils.New(k.t, k.v))
			if err != nil || !bytes.Equal(b, one) {
				r.Fail("tlv-object", desc, "object %x written as %x, %v", one, b, err)
			}
		}
		// truncation at a random point: error unless the cut falls between two objects
		if len(raw) > 0 {
			cut := rnd.Intn(len(raw))
			bounds := map[int]int{0: 0}
			pos := 0
			for i, k := range l {
				pos += 4 + len(k.v)
				bounds[pos] = i + 1
			}
			n, whole := bounds[cut]
			for _, mode := range []string{"whole", "random"} {
				var rd io.Reader = bytes.NewReader(raw[:cut])
				if mode == "random" {
					rd = &chunked{append([]byte(nil), raw[:cut]...), rnd, io.EOF}
				}
				var got *utils.TlvList
				var err error
				if p := lib.Guard(func() { got, err = utils.Read(rd) }); p != nil {
					r.Fail("tlv-panic", desc, "reading the first %d bytes of %s panics: %v", cut, desc, p)
					continue
				}
				if whole && (err != nil || !same(got, l[:n])) {
					r.Fail("tlv-trunc", desc, "the first %d bytes of %s hold %d whole objects but read as %v, %v", cut, desc, n, got, err)
				}
				if !whole && err == nil {
					r.Fail("tlv-trunc", desc, "the first %d bytes of %s end inside an object but read without error as %v", cut, desc, got)
				}
				r.Case("cut" + mode + fmt.Sprint(cut) + desc)
				r.Count("truncations", 1)
			}
			// a failing reader is reported
			boom := errors.New("boom")
			_, err := utils.Read(&chunked{append([]byte(nil), raw[:cut]...), rnd, boom})
			if err == nil {
				r.Fail("tlv-ioerr", desc, "a reader failing after %d bytes of %s is not reported", cut, desc)
			}
		}
		// list operations against a slice model
		model := append([]kv(nil), l...)
		for k := 0; k < 6; k++ {
			op := rnd.Intn(5)
			t := uint16(rnd.Intn(6))
			switch op {
			case 0:
				got, err := tl.Get(t)
				var want *kv
				for i := range model {
					if model[i].t == t {
						want = &model[i]
						break
					}
				}
				if (want == nil) != (err != nil) || (want != nil && !bytes.Equal(got.Value(), want.v)) {
					r.Fail("tlv-get", desc, "Get(%d) on %v gives %v, %v", t, tl, got, err)
				}
			case 1:
				got := tl.GetAll(t)
				i := 0
				ok := true
				for _, m := range model {
					if m.t == t {
						if i >= len(got) || !bytes.Equal(got[i].Value(), m.v) {
							ok = false
							break
						}
						i++
					}
				}
				if !ok || i != len(got) {
					r.Fail("tlv-getall", desc, "GetAll(%d) on %v gives %v", t, tl, got)
				}
			case 2:
				n := tl.Remove(t)
				var m2 []kv
				for _, m := range model {
					if m.t != t {
						m2 = append(m2, m)
					}
				}
				if n != len(model)-len(m2) || !same(tl, m2) {
					r.Fail("tlv-remove", desc, "Remove(%d) from %d objects reports %d and leaves %v", t, len(model), n, tl)
				}
				model = m2
			case 3:
				if len(model) == 0 {
					continue
				}
				x := model[rnd.Intn(len(model))]
				n := tl.RemoveObject(utils.New(x.t, x.v))
				var m2 []kv
				for _, m := range model {
					if m.t != x.t || !bytes.Equal(m.v, x.v) {
						m2 = append(m2, m)
					}
				}
				if n != len(model)-len(m2) || !same(tl, m2) {
					r.Fail("tlv-removeobj", desc, "RemoveObject(%d,%x) reports %d and leaves %v", x.t, x.v, n, tl)
				}
				model = m2
			case 4:
				v := make([]byte, rnd.Intn(5))
				rnd.Read(v)
				tl.Add(t, v)
				model = append(model, kv{t, append([]byte(nil), v...)})
				rnd.Read(v)
				if !same(tl, model) {
					r.Fail("tlv-add", desc, "Add(%d,%x) gives %v", t, model[len(model)-1].v, tl)
				}
			}
			r.Count("list_operations", 1)
		}
		if c < 2 {
			r.Sample(desc)
		}
	}
	return r
}
