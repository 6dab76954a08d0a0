package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C23"] = c23 }

// how long a send may take at most: three logins that stall, three seconds without a connection, a write
// that nobody reads, each with a multiple of its time
const sendBound = 2 * time.Minute

func c23() {
	run := lib.NewRun("C23", "exhaustive observation of sampled executions",
		"one evaluation: one connection of the client to a gateway that misbehaves in some way, or one recovery, and what became of it; distinct: protocol version × misbehaviour × maximum of connections")
	n := run.N(24, 144)
	for i := 0; i < n && run.NFailed() < 5; i += 24 {
		par(24, func(k int) { c23rep(run, run.Sub(fmt.Sprint("c23", i+k)), i+k) })
	}
	run.Finish()
}

var c23login = []string{"close", "reset", "stall", "partial then stall", "partial then close", "garbage", "other command", "wrong length", "short response", "refuse", "refuse then stay", "empty packet"}
var c23life = []string{"garbage", "huge length", "tiny length", "truncated then close", "truncated then stall", "malformed bodies", "reset", "close", "deaf", "login response again", "flood without reading", "slow login", "responses only"}

// hostile is a gateway's connection that misbehaves.
type hostile struct {
	nc   *net.TCPConn
	mode string
	in   bool // the login was accepted
	over chan struct{}
	gone int32 // the client ended it
	own  int32 // the gateway ended it
	at   time.Time
}

type enemy struct {
	mu    sync.Mutex
	g     *e2e.FakeGW
	r     *rand.Rand
	on    int32
	login bool // misbehave at login, too
	deaf  bool // do not read, mostly
	conns []*hostile
	n     int
	most  int
}

func (h *hostile) end(reset bool) {
	if atomic.CompareAndSwapInt32(&h.own, 0, 1) {
		if reset {
			_ = h.nc.SetLinger(0)
		}
		_ = h.nc.Close()
	}
}

func (x *enemy) accept(run *lib.Run, nc *net.TCPConn) bool {
	if atomic.LoadInt32(&x.on) == 0 {
		return false
	}
	x.mu.Lock()
	h := &hostile{nc: nc, over: make(chan struct{}), at: time.Now()}
	r := rand.New(rand.NewSource(x.r.Int63()))
	x.n++
	if x.login && r.Intn(2) == 0 {
		h.mode = "login: " + c23login[r.Intn(len(c23login))]
	} else {
		h.mode = "life: " + c23life[r.Intn(len(c23life))]
	}
	if x.deaf && r.Intn(3) > 0 {
		h.mode = "life: deaf"
	}
	x.conns = append(x.conns, h)
	x.mu.Unlock()
	run.Case(fmt.Sprint(x.g.PV, h.mode, x.g.MaxConns))
	run.Count("misbehaving_connections", 1)
	go x.play(r, h)
	return true
}

// play runs the connection; it returns when the client or the gateway ended it.
func (x *enemy) play(r *rand.Rand, h *hostile) {
	defer close(h.over)
	pv := x.g.PV
	kind := e2e.LoginKind(pv.Proto)
	put := func(b []byte) { _ = h.nc.SetWriteDeadline(time.Now().Add(20 * time.Second)); _, _ = h.nc.Write(b) }
	// drain reads until the client ends the connection
	drain := func() {
		if _, err := io.Copy(io.Discard, h.nc); atomic.LoadInt32(&h.own) == 0 {
			_ = err
			atomic.StoreInt32(&h.gone, 1)
		}
		h.end(false)
	}
	if h.mode == "login: close" || h.mode == "login: reset" {
		h.end(h.mode == "login: reset")
		return
	}
	head := make([]byte, refc.HeadLen(pv.Proto))
	if _, err := io.ReadFull(h.nc, head); err != nil {
		drain()
		return
	}
	frame := head
	if n := int(binary.BigEndian.Uint32(head)) - len(head); n > 0 && n < 5000 {
		b := make([]byte, n)
		_, _ = io.ReadFull(h.nc, b)
		frame = append(frame, b...)
	}
	e, err := refc.ParseFrame(pv.Proto, pv.Ver, frame)
	if err != nil || e.Kind != kind {
		drain()
		return
	}
	m := refc.M{"status": 0, "result": 0, "ver": x.g.A.Ver, "auth": gen.Proof(pv, e.M.B("auth"), x.g.A.Secret)}
	good := refc.Frame(pv.Proto, pv.Ver, kind+"_resp", m, e.Seq...)
	switch h.mode {
	case "login: stall":
	case "login: partial then stall":
		put(good[:1+r.Intn(len(good)-1)])
	case "login: partial then close":
		put(good[:1+r.Intn(len(good)-1)])
		h.end(false)
		return
	case "login: garbage":
		put(gen.Bytes(r, 1+r.Intn(300)))
	case "login: other command":
		k := []string{"submit_resp", "active_resp", kind, "deliver"}[r.Intn(4)]
		if pv.Proto == refc.SGIP {
			k = "submit_resp"
		}
		b := append([]byte(nil), good...)
		binary.BigEndian.PutUint32(b[4:], refc.Cmd(pv.Proto, k))
		put(b)
	case "login: wrong length":
		b := append([]byte(nil), good...)
		binary.BigEndian.PutUint32(b, []uint32{0, 11, 12, uint32(len(b) - 1), uint32(len(b) + 1), 5000, 0x7fffffff, 0xffffffff}[r.Intn(8)])
		put(b)
	case "login: short response":
		b := append([]byte(nil), good[:refc.HeadLen(pv.Proto)]...)
		binary.BigEndian.PutUint32(b, uint32(len(b)))
		put(b)
	case "login: empty packet":
		put(make([]byte, 12+r.Intn(40)))
	case "login: refuse", "login: refuse then stay":
		code := 1 + r.Intn(250)
		put(refc.Frame(pv.Proto, pv.Ver, kind+"_resp", refc.M{"status": code, "result": code, "ver": x.g.A.Ver}, e.Seq...))
		if h.mode == "login: refuse" && r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			h.end(false)
			return
		}
	default:
		x.mu.Lock()
		h.in = true
		x.mu.Unlock()
		if h.mode == "life: slow login" {
			for i := range good {
				put(good[i : i+1])
				time.Sleep(time.Millisecond)
			}
		} else {
			put(good)
		}
		x.life(r, h, put)
	}
	drain()
}

func (x *enemy) life(r *rand.Rand, h *hostile, put func([]byte)) {
	pv := x.g.PV
	frame := func(k string, m refc.M) []byte {
		s := []uint32{r.Uint32()}
		if pv.Proto == refc.SGIP {
			s = append(s, r.Uint32(), r.Uint32())
		}
		return refc.Frame(pv.Proto, pv.Ver, k, m, s...)
	}
	kinds := []string{"submit_resp", "deliver", "active", "active_resp", e2e.LoginKind(pv.Proto) + "_resp", e2e.LogoutKind(pv.Proto) + "_resp"}
	if pv.Proto == refc.SGIP {
		kinds = []string{"submit_resp", "deliver", "report", "bind_resp", "unbind_resp", "bind"}
	}
	time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
	switch h.mode {
	case "life: garbage":
		put(gen.Bytes(r, 1+r.Intn(4000)))
	case "life: huge length":
		b := frame(kinds[0], refc.M{})
		binary.BigEndian.PutUint32(b, []uint32{5121, 1 << 20, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff4}[r.Intn(6)])
		put(b)
	case "life: tiny length":
		b := frame(kinds[0], refc.M{})
		binary.BigEndian.PutUint32(b, uint32(r.Intn(12)))
		put(b)
	case "life: truncated then close", "life: truncated then stall":
		b := frame(kinds[1], refc.M{"content": gen.Bytes(r, 100)})
		put(b[:1+r.Intn(len(b)-1)])
		if h.mode == "life: truncated then close" {
			h.end(false)
		}
	case "life: malformed bodies":
		for i := 0; i < 60; i++ {
			k := kinds[r.Intn(len(kinds))]
			m := refc.M{}
			if pv.Proto != refc.SGIP && k == "deliver" {
				raw := gen.Bytes(r, 10)
				if pv.Proto == refc.CMPP {
					raw = raw[:8]
				}
				m = reportM(r, pv, raw, "DELIVRD", "13000000000")
			}
			b := frame(k, m)
			n := 12 + r.Intn(len(b)-11) // the packet is cut, its length agrees
			if r.Intn(4) == 0 {
				b = append(b, gen.Bytes(r, r.Intn(200))...)
				n = len(b)
			}
			b = b[:n]
			for j := 12; j < len(b); j++ {
				if r.Intn(6) == 0 {
					b[j] = []byte{0, 0xff, 0x80, byte(r.Intn(256))}[r.Intn(4)]
				}
			}
			binary.BigEndian.PutUint32(b, uint32(len(b)))
			if r.Intn(5) == 0 {
				binary.BigEndian.PutUint32(b[4:], r.Uint32()&0x8000000f)
			}
			put(b)
			time.Sleep(time.Millisecond)
		}
	case "life: reset":
		h.end(true)
	case "life: close":
		h.end(false)
	case "life: deaf":
		// does not read while the gateways misbehave; what the client writes piles up
		for t := time.Now(); time.Since(t) < 4*time.Minute && atomic.LoadInt32(&h.own) == 0 && atomic.LoadInt32(&x.on) == 1; {
			time.Sleep(50 * time.Millisecond)
		}
		h.end(true)
	case "life: login response again":
		put(frame(e2e.LoginKind(pv.Proto)+"_resp", refc.M{"status": r.Intn(4), "result": r.Intn(4)}))
	case "life: flood without reading":
		var b []byte
		for i := 0; i < 200; i++ {
			b = append(b, frame(kinds[2], refc.M{})...)
		}
		for i := 0; i < 200; i++ {
			put(b)
		}
	case "life: responses only":
		for i := 0; i < 100; i++ {
			put(frame("submit_resp", refc.M{"msgId": func() any {
				if pv.Proto == refc.SMGP {
					return gen.Bytes(r, 10)
				}
				return r.Uint64()
			}()}))
		}
	}
}

// open counts the connections that the client has open and those of them with a login.
func (x *enemy) open() (n, in int) {
	live, ok := x.g.Live()
	n, in = len(live), len(ok)
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, h := range x.conns {
		if atomic.LoadInt32(&h.gone) == 0 && atomic.LoadInt32(&h.own) == 0 {
			n++
			if h.in {
				in++
			}
		}
	}
	return
}

func c23rep(run *lib.Run, r *rand.Rand, rep int) {
	var gs []*e2e.FakeGW
	var xs []*enemy
	var ans atomic.Value
	ans.Store(newAnswerer(rand.New(rand.NewSource(r.Int63()))))
	for i, pv := range trio(rep) {
		max := 1 + r.Intn(4)
		if rep%3 == 0 {
			max = 1 + r.Intn(2)
		}
		g := fake(pv, i, max, 100000, 100000)
		if rep%3 == 0 {
			g.Rcvbuf = 4096
		}
		x := &enemy{g: g, r: rand.New(rand.NewSource(r.Int63())), login: rep%2 == 0, deaf: rep%3 == 0, on: 1}
		g.OnAccept = func(nc *net.TCPConn, _ int) bool { return x.accept(run, nc) }
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			if e.Kind == "submit" {
				ans.Load().(*answerer).onSubmit(c, e)
			}
		}
		gs, xs = append(gs, g), append(xs, x)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for i, g := range gs {
			g.Stop()
			for _, h := range xs[i].conns {
				h.end(true)
			}
		}
	}()
	var g0 int
	_ = p.Call("goroutines", nil, &g0)

	stop := make(chan struct{})
	var watch sync.WaitGroup
	for _, x := range xs { // more connections than configured, and that stays so
		x := x
		watch.Add(1)
		go func() {
			defer watch.Done()
			over := time.Time{}
			for {
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
				}
				n, _ := x.open()
				if n > x.most {
					x.most = n
				}
				if n <= x.g.MaxConns {
					over = time.Time{}
				} else if over.IsZero() {
					over = time.Now()
				} else if time.Since(over) > 30*time.Second {
					run.Fail("too-many", nil, "%s: the client keeps %d connections open, %d are configured", x.g.PV, n, x.g.MaxConns)
					return
				}
			}
		}()
	}
	defer func() { close(stop); watch.Wait() }()

	for phase := 0; phase < 2; phase++ {
		down := phase == 0 && rep%4 == 1 || phase == 1 && rep%2 == 0
		var comeback sync.WaitGroup
		for i, x := range xs {
			if phase == 1 {
				for _, c := range x.g.Conns() {
					if r.Intn(2) == 0 {
						c.Reset()
					}
				}
				atomic.StoreInt32(&x.on, 1)
			}
			if down {
				d := time.Duration(500+r.Intn(2500)) * time.Millisecond
				g := gs[i]
				g.Vanish()
				comeback.Add(1)
				go func() {
					defer comeback.Done()
					time.Sleep(d)
					if g.Listen() != nil {
						run.Note("a port could not be opened again")
					}
				}()
			}
		}
		// messages all the while, some long enough to fill every buffer on the way
		batch := e2e.Batch{Workers: 6, GapUs: 20000}
		for i := 0; i < 48; i++ {
			batch.Msgs = append(batch.Msgs, e2e.Msg{Phones: []string{phone(r, []string{refc.CMPP, refc.SGIP, refc.SMGP}[r.Intn(3)])}, Text: text(r, r.Intn(3))})
		}
		if rep%3 == 0 { // about 3 MB fit into a connection that nobody reads
			to := []string{refc.CMPP, refc.SGIP, refc.SMGP}[(rep/3+phase)%3]
			long := []rune{}
			for len(long) < 15000 {
				long = append(long, rune(0x4e00+r.Intn(0x4000)))
			}
			for i := 0; i < 130; i++ {
				batch.Msgs = append(batch.Msgs, e2e.Msg{Phones: []string{phone(r, to)}, Text: string(long)})
			}
			batch.GapUs = 1000
		}
		msgs := batch.Msgs
		var sent []e2e.Sent
		err := p.Await(p.Go("batch", batch), &sent, 5*time.Minute)
		if !alive(run, p, "misbehaving gateways") {
			return
		}
		if err != nil || len(sent) != len(msgs) {
			_ = p.Call("stacks", nil, nil)
			run.Fail("send-hangs", nil, "sending to misbehaving gateways does not return: %v", err)
			return
		}
		for i, s := range sent {
			if s.Panic != "" {
				run.Fail("send-panics", msgs[i], "sending panics: %s", s.Panic)
			}
			if d := time.Duration(s.End - s.Start); d > sendBound {
				run.Fail("send-slow", nil, "a send took %v", d)
			}
			run.Max("longest_send_ms", (s.End-s.Start)/1e6)
		}
		comeback.Wait()
		// from now on the gateways behave; a login that failed must be given up by the client
		for _, x := range xs {
			atomic.StoreInt32(&x.on, 0)
		}
		for _, x := range xs {
			x.mu.Lock()
			l := append([]*hostile(nil), x.conns...)
			x.conns = nil
			x.mu.Unlock()
			for _, h := range l {
				if !h.in {
					select {
					case <-h.over:
						run.Count("failed_logins", 1)
					case <-time.After(e2e.Watchdog()):
						if alive(run, p, "failed logins") {
							run.Fail("left-behind "+h.mode, nil, "%s: the client leaves a connection open after a login that failed (%s)", x.g.PV, h.mode)
						}
					}
					continue
				}
				if atomic.LoadInt32(&h.gone) == 1 {
					run.Count("connections_ended_by_the_client", 1)
				}
				h.end(true)
			}
		}
		full := poll(2*e2e.Watchdog(), func() bool {
			for _, x := range xs {
				if _, in := x.open(); in < x.g.MaxConns {
					return p.Dead()
				}
			}
			return true
		})
		if !alive(run, p, "recovery") {
			return
		}
		if !full {
			_ = p.Call("stacks", nil, nil)
			for _, x := range xs {
				if n, in := x.open(); in < x.g.MaxConns {
					run.Fail("no-recovery", nil, "%s: the gateway is reachable and behaves, but the client has %d connections with a login (%d open) instead of %d", x.g.PV, in, n, x.g.MaxConns)
				}
			}
			return
		}
		run.Count("recoveries", int64(len(xs)))
		for _, x := range xs {
			run.Case(fmt.Sprint(x.g.PV, "recovery", x.g.MaxConns, down))
		}
		if !c23works(run, r, p, gs, &ans) {
			return
		}
	}
	// nothing is left of the broken connections: per connection one receiver, one ticker per gateway
	var now int
	bound := g0 + 40
	if !poll(e2e.Watchdog(), func() bool { return p.Call("goroutines", nil, &now) != nil || now <= bound }) {
		_ = p.Call("stacks", nil, nil)
		run.Fail("goroutines", nil, "after all broken connections are gone, the client runs %d goroutines (%d at the start)", now, g0)
	}
	for _, x := range xs {
		run.Max("most_connections_over_maximum", int64(x.most-x.g.MaxConns))
	}
	bad(run, gs)
	alive(run, p, "misbehaving gateways")
}

// c23works sends messages over the recovered connections and looks for their results.
func c23works(run *lib.Run, r *rand.Rand, p *e2e.Proc, gs []*e2e.FakeGW, ans *atomic.Value) bool {
	a := newAnswerer(rand.New(rand.NewSource(r.Int63())))
	a.mode = "at once"
	ans.Store(a)
	msgs := messages(r, 40)
	var sent []e2e.Sent
	if err := p.Call("batch", e2e.Batch{Msgs: msgs, Workers: 4}, &sent); err != nil || len(sent) != len(msgs) {
		if alive(run, p, "send") {
			run.Fail("send-hangs", nil, "messages are not sent after the gateways behave again: %v", err)
		}
		return false
	}
	var wrong string
	ok := poll(20*time.Second, func() bool {
		wrong = ""
		for i, m := range msgs {
			var shown []e2e.Shown
			if p.Call("query", []int64{sent[i].Id}, &shown) != nil || len(shown) != 1 {
				wrong = "queries do not return"
				return true
			}
			for _, ph := range m.Phones {
				a.mu.Lock()
				n := len(a.parts[ph])
				a.mu.Unlock()
				if n == 0 {
					wrong = "a message does not reach its gateway"
				}
			}
			if w := a.compare(m, sent[i].Id, shown[0].Results); w != "" {
				wrong = w
			}
		}
		return wrong == ""
	})
	if (!ok || wrong != "") && alive(run, p, "messages after recovery") {
		run.Fail("service "+kindOf(wrong), nil, "after the gateways behave again: %s", wrong)
		return false
	}
	run.Count("messages_after_recovery", int64(len(msgs)))
	return true
}
