package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C15"] = c15 }

func c15() {
	run := lib.NewRun("C15", "exhaustive observation of sampled executions",
		"one evaluation: one hostile connection, or one submit of a well-behaved one served meanwhile, or one login of a new client; distinct: protocol version × logged in or not × kind of hostility × size class")
	for i := 0; i < run.N(12, 100) && !run.Failed(); i++ {
		c15gateway(run, run.Sub(fmt.Sprint("c15", i)), i)
	}
	run.Finish()
}

// c15ways: hostilities; those marked close have to end in the connection being closed by the gateway.
var c15ways = []struct {
	name  string
	close bool
}{
	{"random octets", false},
	{"impossible length", true},
	{"unknown command", true},
	{"cut body", true},
	{"mutated packets", false},
	{"random bodies", false},
	{"odd values", false},
	{"responses nobody asked for", false},
	{"reset at once", false},
	{"reset within a packet", false},
	{"half-closed after requests", false},
	{"never completes a packet", false},
	{"stops reading", false},
	{"requests and away", false},
	{"login again and again", false},
	{"longest packets", false},
}

type c15w struct {
	run  *lib.Run
	g    *e2e.Gateway
	pvs  []gen.PV
	hac  []e2e.Account // accounts of the hostile
	wac  []e2e.Account // accounts of the witnesses
	held struct {
		sync.Mutex
		l []net.Conn
	}
}

func c15gateway(run *lib.Run, r *rand.Rand, rep int) {
	cfg := e2e.Config{Success: 1, Multicore: rep%2 == 0, LogLevel: []int{-1, 2}[rep%2], Tick: "20ms", Deliver: true, DeliverRate: 1, Contents: []string{"01_,_hello", "2_,_中文上行"},
		MaxMs: 2, ReportMs: 1, MaxSessions: 2000}
	if rep%3 == 2 {
		cfg.Success = 0.5
	}
	w := &c15w{run: run}
	for i, pv := range gen.All {
		h, a := account(pv, i, 100000, 32, 1000000), account(pv, 50+i, 100000, 64, 1000000)
		w.pvs, w.hac, w.wac = append(w.pvs, pv), append(w.hac, h), append(w.wac, a)
		cfg.Accounts = append(cfg.Accounts, h, a)
	}
	if w.g = start(run, cfg); w.g == nil {
		return
	}
	defer w.g.Stop()
	type wit struct {
		c  *e2e.Conn
		pv gen.PV
	}
	var wits []wit
	for i, pv := range w.pvs {
		for k := 0; k < 2; k++ {
			c, err := e2e.Login(w.g, w.wac[i], e2e.AutoClient)
			if err != nil {
				if alive(run, w.g, "login") {
					run.Fail("login", pv.String(), "%s: login not accepted: %v", pv, err)
				}
				return
			}
			defer c.Close()
			wits = append(wits, wit{c, pv})
		}
	}
	var stop atomic.Bool
	var wg sync.WaitGroup
	for i, x := range wits {
		wg.Add(1)
		seed := r.Int63()
		go func(i int, x wit) {
			defer wg.Done()
			r := rand.New(rand.NewSource(seed))
			for !stop.Load() && !run.Failed() {
				if !w.witness(r, x.c, x.pv, cfg.Success) {
					return
				}
				time.Sleep(time.Duration(5+r.Intn(10)) * time.Millisecond)
			}
		}(i, x)
	}
	// the hostile, per protocol version side by side
	seeds := make([]int64, len(w.pvs))
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	par(len(w.pvs), func(i int) {
		r := rand.New(rand.NewSource(seeds[i]))
		for round := 0; round < run.N(3, 8); round++ {
			for _, k := range r.Perm(len(c15ways)) {
				for _, in := range []bool{false, true} {
					if run.Failed() || w.g.Dead() {
						return
					}
					w.hostile(r, i, c15ways[k].name, c15ways[k].close, in)
				}
				if round == 0 || r.Intn(4) == 0 {
					w.newcomer(i, c15ways[k].name)
				}
			}
		}
	})
	// many connections at once
	if !run.Failed() && !w.g.Dead() {
		var l []net.Conn
		for i := 0; i < 600; i++ {
			c, err := net.DialTimeout("tcp", w.g.Addr(w.pvs[i%len(w.pvs)].Proto), 10*time.Second)
			if err == nil {
				l = append(l, c)
			}
		}
		for i := range w.pvs {
			w.newcomer(i, "many connections")
		}
		for i, c := range l {
			if i%2 == 0 {
				_ = c.(*net.TCPConn).SetLinger(0)
			}
			_ = c.Close()
		}
		run.Count("mass_connections", int64(len(l)))
	}
	stop.Store(true)
	wg.Wait()
	w.held.Lock()
	for _, c := range w.held.l {
		_ = c.Close()
	}
	w.held.Unlock()
	for i := range w.pvs {
		if !run.Failed() && !w.g.Dead() {
			w.newcomer(i, "everything")
		}
	}
	alive(run, w.g, "hostile connections")
	for _, x := range wits {
		if eof, err := x.c.EOF(); eof && !run.Failed() {
			run.Fail("witness-closed", nil, "%s: a well-behaved connection was ended (%v)", x.pv, err)
		}
		for _, e := range x.c.Evs() {
			if e.Err != nil {
				run.Fail("garbled", nil, "%s: a well-behaved connection received a garbled packet %x: %v", x.pv, e.Raw, e.Err)
				break
			}
		}
	}
}

// witness sends a few submits and judges that they are served correctly.
func (w *c15w) witness(r *rand.Rand, c *e2e.Conn, pv gen.PV, success float64) bool {
	var b []byte
	var seqs [][]uint32
	from := len(c.Evs())
	for i := 1 + r.Intn(4); i > 0; i-- {
		s := c.NewSeq()
		seqs = append(seqs, s)
		b = append(b, refc.Frame(pv.Proto, pv.Ver, "submit", submit(r, pv), s...)...)
	}
	err := c.Write(b)
	for _, s := range seqs {
		var e *e2e.Ev
		if err == nil {
			k := fmt.Sprint(s)
			e = c.Next(from, e2e.Watchdog(), func(e e2e.Ev) bool { return e.Kind == "submit_resp" && e.SeqKey() == k })
		}
		if e == nil {
			if alive(w.run, w.g, "hostile connections") {
				eof, e := c.EOF()
				w.run.Fail("witness-unserved", nil, "%s: a well-behaved connection is not served any more while others are hostile (ended: %v %v)", pv, eof, e)
			}
			return false
		}
		w.run.Count("submits_of_the_well_behaved", 1)
		if success == 1 && result(*e) != 0 {
			w.run.Fail("witness-refused", nil, "%s: a submit of a well-behaved connection is refused with %d while others are hostile", pv, result(*e))
			return false
		}
		if success == 1 && result(*e) == 0 && pv.Proto != refc.SGIP {
			id := c14id(pv, *e)
			rep := c.Next(from, e2e.Watchdog(), func(e e2e.Ev) bool {
				if e.Kind != "deliver" || e.M.U("isReport") != 1 {
					return false
				}
				x, _, err := c14report(pv, e)
				return err == nil && x == id
			})
			if rep == nil {
				if alive(w.run, w.g, "hostile connections") {
					w.run.Fail("witness-no-report", nil, "%s: an accepted submit of a well-behaved connection gets no status report while others are hostile", pv)
				}
				return false
			}
		}
	}
	return true
}

// newcomer logs in a new client and has it served once.
func (w *c15w) newcomer(i int, after string) {
	pv := w.pvs[i]
	c, err := e2e.Login(w.g, w.wac[i], e2e.AutoClient)
	if err != nil {
		if alive(w.run, w.g, after) {
			w.run.Fail("newcomer", after, "%s: a new client can not log in while others are hostile (%s): %v", pv, after, err)
		}
		return
	}
	defer c.Close()
	s, _ := c.Send("submit", submit(rand.New(rand.NewSource(1)), pv))
	if c.Resp("submit", s, e2e.Watchdog()) == nil && alive(w.run, w.g, after) {
		w.run.Fail("newcomer", after, "%s: a new client is not served while others are hostile (%s)", pv, after)
	}
	w.run.Count("newcomers", 1)
	w.run.Case(fmt.Sprint(pv, "newcomer", after))
}

func c15kinds(pv gen.PV) []string {
	switch pv.Proto {
	case refc.CMPP:
		return []string{"connect", "submit", "deliver_resp", "active", "active_resp", "terminate", "terminate_resp", "deliver", "submit_resp", "connect_resp"}
	case refc.SMGP:
		return []string{"login", "submit", "deliver_resp", "active", "active_resp", "exit", "exit_resp", "deliver", "submit_resp", "login_resp"}
	}
	return []string{"bind", "submit", "deliver_resp", "unbind", "unbind_resp", "deliver", "submit_resp", "bind_resp", "report", "report_resp"}
}

// commands the gateways know without a layout of their own here
var c15cmds = map[string][]uint32{
	refc.CMPP: {1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 0x1000},
	refc.SGIP: {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0x11, 0x12, 0x13, 0x14, 0x1000},
	refc.SMGP: {1, 2, 3, 4, 5, 6, 7, 8, 9, 0xa, 0xb, 0xc, 0xd, 0x1001},
}

func c15frame(r *rand.Rand, c *e2e.Conn, pv gen.PV, kind string) []byte {
	m, _ := gen.Message(r, pv, kind)
	return refc.Frame(pv.Proto, pv.Ver, kind, m, c.NewSeq()...)
}

func c15packet(cmd uint32, body []byte) []byte {
	b := make([]byte, 12, 12+len(body))
	binary.BigEndian.PutUint32(b, uint32(12+len(body)))
	binary.BigEndian.PutUint32(b[4:], cmd)
	binary.BigEndian.PutUint32(b[8:], rand.Uint32())
	return append(b, body...)
}

func (w *c15w) hostile(r *rand.Rand, i int, way string, mustClose, in bool) {
	pv, a, run := w.pvs[i], w.hac[i], w.run
	var c *e2e.Conn
	var err error
	auto := e2e.AutoClient
	if r.Intn(3) == 0 {
		auto = nil
	}
	if in {
		c, err = e2e.Login(w.g, a, auto)
	} else {
		c, err = e2e.Dial(w.g, pv.Proto, pv.Ver, auto)
	}
	if err != nil {
		if alive(run, w.g, way) {
			run.Fail("enter", way, "%s: can not connect or log in (%s, logged in: %v): %v", pv, way, in, err)
		}
		return
	}
	keep := false
	defer func() {
		if !keep {
			if r.Intn(2) == 0 {
				c.Reset()
			} else {
				c.Close()
			}
		}
	}()
	kinds := c15kinds(pv)
	kind := kinds[r.Intn(len(kinds))]
	cmds := c15cmds[pv.Proto]
	cmd := cmds[r.Intn(len(cmds))] | uint32(r.Intn(2))<<31
	var b []byte
	wait := mustClose
	class := ""
	switch way {
	case "random octets":
		b = gen.Bytes(r, 1+r.Intn(6000))
		wait = false
	case "impossible length":
		l := []uint32{0, 1, 11, 5121, 5122, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff}[r.Intn(9)]
		class = fmt.Sprint(l)
		b = c15frame(r, c, pv, kind)
		binary.BigEndian.PutUint32(b, l)
	case "unknown command":
		x := []uint32{0, 3, 0x7f, 0xff, 0x80000000, 0x80000055, 0x12345678, 0xffffffff, 0x01000000}[r.Intn(9)]
		if x == 3 && pv.Proto != refc.CMPP {
			x = 0x5f
		}
		class = fmt.Sprint(x)
		b = c15packet(x, gen.Bytes(r, r.Intn(200)))
	case "cut body":
		kind = []string{"submit", e2e.LoginKind(pv.Proto), "deliver_resp"}[r.Intn(3)]
		if !in && kind == "deliver_resp" || pv.Proto == refc.SGIP {
			kind = []string{"submit", "bind"}[r.Intn(2)]
			if pv.Proto != refc.SGIP {
				kind = e2e.LoginKind(pv.Proto)
			}
		}
		m, _ := gen.Message(r, pv, kind)
		f := refc.Frame(pv.Proto, pv.Ver, kind, m, c.NewSeq()...)
		man := refc.Mandatory(pv.Proto, pv.Ver, kind, m)
		if kind == "deliver_resp" && man > 9 && pv.Proto == refc.CMPP {
			man = 9 // a CMPP 2 response is 3 octets shorter and may be taken for one
		}
		n := refc.HeadLen(pv.Proto) + r.Intn(man)
		if r.Intn(4) == 0 {
			n = 12
		}
		b = f[:n]
		binary.BigEndian.PutUint32(b, uint32(n))
		class = kind
	case "mutated packets":
		for k := 0; k < 1+r.Intn(20); k++ {
			f := c15frame(r, c, pv, kinds[r.Intn(len(kinds))])
			for q := 0; q < 1+r.Intn(4); q++ {
				f[8+r.Intn(len(f)-8)] ^= 1 << r.Intn(8)
			}
			b = append(b, f...)
		}
	case "random bodies":
		for k := 0; k < 1+r.Intn(10); k++ {
			n := r.Intn(300)
			if r.Intn(5) == 0 {
				n = r.Intn(5108)
			}
			b = append(b, c15packet(cmds[r.Intn(len(cmds))]|uint32(r.Intn(2))<<31, gen.Bytes(r, n))...)
		}
	case "longest packets":
		for k := 0; k < 1+r.Intn(5); k++ {
			b = append(b, c15packet(cmd, gen.Bytes(r, 5120-12))...)
		}
	case "odd values":
		for k := 0; k < 1+r.Intn(20); k++ {
			b = append(b, c15frame(r, c, pv, "submit")...)
			m, _ := gen.Message(r, pv, "submit")
			switch r.Intn(4) {
			case 0:
				m["dest"] = []string{}
			case 1:
				m["content"] = []byte{}
			case 2:
				m["tpUdhi"] = 1
				m["content"] = gen.Bytes(r, r.Intn(8))
			case 3:
				m["fmt"] = r.Intn(256)
			}
			m["n"] = len(m.L("dest"))
			m["len"] = len(m.B("content"))
			b = append(b, refc.Frame(pv.Proto, pv.Ver, "submit", m, c.NewSeq()...)...)
		}
	case "responses nobody asked for":
		for k := 0; k < 1+r.Intn(20); k++ {
			for _, x := range kinds {
				if strings.HasSuffix(x, "_resp") && r.Intn(2) == 0 && x != e2e.LogoutKind(pv.Proto)+"_resp" {
					b = append(b, c15frame(r, c, pv, x)...)
				}
			}
		}
	case "reset at once":
		c.Reset()
		return
	case "reset within a packet":
		f := c15frame(r, c, pv, "submit")
		_ = c.Write(f[:1+r.Intn(len(f)-1)])
		c.Reset()
		run.Case(fmt.Sprint(pv, in, way))
		return
	case "half-closed after requests":
		for k := 0; k < 20; k++ {
			b = append(b, c15frame(r, c, pv, "submit")...)
		}
		_ = c.Write(b)
		_ = c.C.CloseWrite()
		wait = true
		b = nil
	case "never completes a packet":
		f := c15frame(r, c, pv, "submit")
		_ = c.Write(f[:1+r.Intn(len(f)-1)])
		keep = true // stays like this until the end
		w.held.Lock()
		w.held.l = append(w.held.l, c.C)
		w.held.Unlock()
	case "stops reading":
		c.Close()
		nc, err := net.DialTimeout("tcp", w.g.Addr(pv.Proto), 10*time.Second)
		if err != nil {
			return
		}
		t := nc.(*net.TCPConn)
		_ = t.SetReadBuffer(2048)
		_ = t.SetWriteDeadline(time.Now().Add(3 * time.Second))
		f := refc.Frame(pv.Proto, pv.Ver, e2e.LoginKind(pv.Proto), e2e.LoginM(a, 1), c.NewSeq()...)
		_, _ = t.Write(f)
		time.Sleep(30 * time.Millisecond)
		for k := 0; k < 1500; k++ {
			if _, err := t.Write(c15frame(r, c, pv, "submit")); err != nil {
				break
			}
		}
		w.held.Lock()
		w.held.l = append(w.held.l, t)
		w.held.Unlock()
		run.Case(fmt.Sprint(pv, in, way))
		run.Count("hostile_connections", 1)
		return
	case "requests and away":
		for k := 0; k < 30; k++ {
			b = append(b, c15frame(r, c, pv, "submit")...)
			if pv.Proto != refc.SGIP {
				b = append(b, c15frame(r, c, pv, "active")...)
			}
		}
		b = append(b, c15frame(r, c, pv, e2e.LogoutKind(pv.Proto))...)
	case "login again and again":
		for k := 0; k < 1+r.Intn(12); k++ {
			x := a
			if r.Intn(3) == 0 {
				x.Secret = "wrong"
			}
			b = append(b, refc.Frame(pv.Proto, pv.Ver, e2e.LoginKind(pv.Proto), e2e.LoginM(x, uint32(k)), c.NewSeq()...)...)
			if r.Intn(2) == 0 {
				b = append(b, c15frame(r, c, pv, "submit")...)
			}
		}
	}
	behind := false
	if mustClose && in && r.Intn(2) == 0 {
		// the packet that is none comes behind good ones; more follow it
		g := c15frame(r, c, pv, "submit")
		b = append(append([]byte{}, g...), b...)
		behind = true
	}
	if mustClose && r.Intn(2) == 0 {
		b = append(b, c15frame(r, c, pv, "submit")...)
	}
	if len(b) > 0 {
		_ = c.WriteCut(b, cuts(r, len(b), []string{"whole", "whole", "small", "random"}[r.Intn(4)]), 0)
	}
	rp := map[string]any{"protocol": pv.String(), "logged_in": in, "way": way, "octets": fmt.Sprintf("%x", b)}
	if wait {
		if !c.WaitEOF(e2e.Watchdog()) && alive(run, w.g, way) {
			run.Fail("not-closed", rp, "%s: a connection (logged in: %v) with %s %s is not closed", pv, in, way, class)
		}
		run.Count("closed_for_not_being_the_protocol", 1)
	} else if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
	}
	if w.g.Dead() {
		run.Fail("gateway-died", rp, "%s: the gateway process ended while a connection (logged in: %v) was hostile (%s): %s", pv, in, way, w.g.Tail(1500))
		return
	}
	run.Case(fmt.Sprint(pv, in, way, class, len(b)/256, behind))
	run.Count("hostile_connections", 1)
}
