package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C32"] = c32 }

// c32 watches the client program itself (msc_client/cmd): what it sends and how it ends.
func c32() {
	run := lib.NewRun("C32", "exhaustive observation of sampled executions",
		"one evaluation: one life of the client program, all messages it sends and its end; distinct: protocol versions × numbers × repetitions × length of the text × journal × signals × what the gateways do")
	n := run.N(240, 1500)
	sem := make(chan struct{}, 8)
	for i := 0; i < n && run.NFailed() < 5; i++ {
		sem <- struct{}{}
		i, r := i, run.Sub(fmt.Sprint("c32", i))
		go func() {
			defer func() { <-sem }()
			if i%3 == 2 {
				c32stop(run, r, i)
			} else {
				c32life(run, r, i)
			}
		}()
	}
	for i := 0; i < cap(sem); i++ {
		sem <- struct{}{}
	}
	run.Finish()
}

// got counts what arrived for each number, and the texts of the first parts.
type got struct {
	mu    sync.Mutex
	parts map[string]int
	where map[string]map[string]bool
	body  map[string]map[string]int
}

func (x *got) watch(g *e2e.FakeGW) {
	pv := g.PV
	g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
		if e.Kind == "active" {
			_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "active_resp", refc.M{}, e.Seq...))
		}
		if e.Kind != "submit" {
			return
		}
		to := submitDest(e)
		x.mu.Lock()
		x.parts[to]++
		if x.where[to] == nil {
			x.where[to], x.body[to] = map[string]bool{}, map[string]int{}
		}
		x.where[to][pv.Proto] = true
		x.body[to][string(e.M.B("content"))]++
		x.mu.Unlock()
		m := refc.M{"msgId": uint64(e.Seq[0])}
		if pv.Proto == refc.SMGP {
			m["msgId"] = []byte(fmt.Sprintf("%010d", e.Seq[0]%1e9))
		}
		_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "submit_resp", m, e.Seq...))
	}
}

func (x *got) total() (n int) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for _, k := range x.parts {
		n += k
	}
	return
}

func c32life(run *lib.Run, r *rand.Rand, rep int) {
	var gs []*e2e.FakeGW
	x := &got{parts: map[string]int{}, where: map[string]map[string]bool{}, body: map[string]map[string]int{}}
	cfg := e2e.ClientConfig{Bin: "gosmcli", LogLevel: 2, Expire: "1h"}
	for i, pv := range trio(rep) {
		g := fake(pv, i, 1+r.Intn(3), 2000, 2000)
		x.watch(g)
		if err := g.Listen(); err != nil {
			run.Note("no port to listen on: %v", err)
			return
		}
		defer g.Stop()
		gs = append(gs, g)
	}
	cfg.GW = gs
	var db *e2e.FakeMongo
	if rep%6 == 1 {
		db = &e2e.FakeMongo{}
		if err := db.Listen(); err != nil {
			panic(err)
		}
		defer db.Close()
		cfg.Extra, cfg.Env, cfg.Expire = e2e.MongoConfig(db.Port), e2e.MongoEnv, "300ms"
	}
	// what it is asked for
	var phs []string
	for k := 1 + r.Intn(6); k > 0; k-- {
		phs = append(phs, phone(r, []string{refc.CMPP, refc.SGIP, refc.SMGP}[r.Intn(3)]))
	}
	if r.Intn(5) == 0 {
		phs = append(phs, phs[0]) // given twice, served twice
	}
	times := []int{1, 1, 2, 3, 10, 40}[r.Intn(6)]
	class := []int{0, 0, 0, 1, 2}[r.Intn(5)]
	msg := strings.NewReplacer("\x00", "", "-", "").Replace(text(r, class))
	if msg == "" {
		msg = "hi"
	}
	want := map[string]int{}
	for _, ph := range phs {
		want[ph] += times
	}
	args := []string{"-p", strings.Join(phs, ","), "-m=" + msg, "-i", strconv.Itoa(times)}
	if times == 1 && r.Intn(2) == 0 {
		args = args[:3]
	}
	p, err := e2e.LaunchClient(cfg, args...)
	if err != nil {
		run.Note("the client program can not be launched: %v", err)
		return
	}
	defer p.Kill()
	// everything arrives
	all := func() bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		for ph, n := range want {
			if x.parts[ph] != n {
				return false
			}
		}
		return true
	}
	if class != 0 { // every part of every message as often as asked for
		all = func() bool {
			x.mu.Lock()
			defer x.mu.Unlock()
			for ph, n := range want {
				m := map[byte]int{}
				var total byte
				for b, k := range x.body[ph] {
					if len(b) < 6 || b[:3] != "\x05\x00\x03" {
						return false
					}
					total = b[4]
					m[b[5]] += k
				}
				if total < 2 || len(m) != int(total) {
					return false
				}
				for _, k := range m {
					if k != n {
						return false
					}
				}
			}
			return true
		}
	}
	ok := poll(e2e.Watchdog(), func() bool { return all() || p.Dead() })
	time.Sleep(30 * time.Millisecond)
	if p.Dead() {
		run.Fail("died", args, "the client program ended by itself (%s): %s", p.Status(), p.Tail(1500))
		return
	}
	if !ok || !all() {
		run.Fail("not-sent", args, "the client program was to send to %v (by times), class %d; the gateways got %v parts", want, class, x.parts)
		return
	}
	x.mu.Lock()
	for ph, w := range x.where {
		for proto := range w {
			if !strings.HasPrefix(ph, prefix[proto]) || want[ph] == 0 {
				run.Fail("elsewhere", args, "the client program sent to %s by %s", ph, proto)
			}
		}
		if class == 0 {
			for b := range x.body[ph] {
				for proto := range w {
					if b != string(gen.Octets(proto, msg)) {
						run.Fail("text", args, "the client program sent %q to %s instead of %q", b, ph, msg)
					}
				}
			}
		}
	}
	x.mu.Unlock()
	if db != nil {
		n := x.total()
		if !poll(e2e.Watchdog(), func() bool { return len(db.Docs(journalColl)) >= n || p.Dead() }) {
			run.Fail("journal", args, "%d parts were sent and are expired, the journal has %d", n, len(db.Docs(journalColl)))
		}
		run.Count("journals", 1)
	}
	c32end(run, r, p, gs, fmt.Sprint("all sent ", rep%6 == 1))
	if n := x.total(); !all() {
		run.Fail("more", args, "the client program sent more than asked for (%d parts in all)", n)
	}
	bad(run, gs)
	run.Case(fmt.Sprint(gs[0].PV, gs[2].PV, len(phs), times, class, db != nil))
	run.Count("messages", int64(len(phs)*times))
}

// c32stop ends the program while it is busy with gateways of all sorts.
func c32stop(run *lib.Run, r *rand.Rand, rep int) {
	var gs []*e2e.FakeGW
	x := &got{parts: map[string]int{}, where: map[string]map[string]bool{}, body: map[string]map[string]int{}}
	what := ""
	for i, pv := range trio(rep) {
		g := fake(pv, i, 1+r.Intn(4), 2000, []int{50, 2000}[r.Intn(2)])
		x.watch(g)
		if r.Intn(3) == 0 {
			g.Tick = "10ms"
		}
		w := []string{"fine", "fine", "no login", "refuses", "hangs up", "does not read", "not there"}[r.Intn(7)]
		if i == 0 && w == "not there" { // tells that the program runs
			w = "fine"
		}
		switch w {
		case "no login":
			g.OnLogin = func(*e2e.GwConn, e2e.Ev) bool { return true }
		case "refuses":
			g.OnLogin = func(c *e2e.GwConn, e e2e.Ev) bool { g.Refuse(c, e, 1); return true }
		case "hangs up":
			g.OnEv = func(c *e2e.GwConn, e e2e.Ev) { c.Reset() }
		case "does not read":
			g.Rcvbuf = 2048
			g.OnEv = func(*e2e.GwConn, e2e.Ev) { time.Sleep(2 * time.Second) }
		}
		if err := g.Listen(); err != nil {
			run.Note("no port to listen on: %v", err)
			return
		}
		if w == "not there" {
			g.Vanish()
		}
		defer g.Stop()
		gs = append(gs, g)
		what += w + ", "
	}
	var phs []string
	for _, proto := range []string{refc.CMPP, refc.SGIP, refc.SMGP} {
		phs = append(phs, phone(r, proto), phone(r, proto))
	}
	p, err := e2e.LaunchClient(e2e.ClientConfig{Bin: "gosmcli", LogLevel: 2, GW: gs}, "-p", strings.Join(phs, ","), "-m", text(r, r.Intn(3)), "-i", "100000")
	if err != nil {
		run.Note("the client program can not be launched: %v", err)
		return
	}
	defer p.Kill()
	if !poll(e2e.Watchdog(), func() bool { return len(gs[0].Conns()) > 0 || p.Dead() }) {
		run.Fail("no-connection", what, "the client program does not connect to a gateway")
		return
	}
	time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
	if p.Dead() {
		run.Fail("died", what, "the client program ended by itself (%s) with gateways %s: %s", p.Status(), what, p.Tail(1500))
		return
	}
	c32end(run, r, p, gs, what)
	run.Case(what)
	run.Count("parts_before_the_end", int64(x.total()))
}

func c32end(run *lib.Run, r *rand.Rand, p *e2e.Proc, gs []*e2e.FakeGW, what string) {
	l := [][]syscall.Signal{{syscall.SIGTERM}, {syscall.SIGINT}, {syscall.SIGQUIT}, {syscall.SIGINT, syscall.SIGINT}, nil}[r.Intn(5)]
	if l == nil {
		for k := 0; k < 200; k++ {
			l = append(l, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[r.Intn(3)])
		}
	}
	asked := time.Now()
	for k, s := range l {
		if k > 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
		}
		p.Signal(s)
	}
	select {
	case <-p.Exited():
	case <-time.After(e2e.Watchdog()):
		run.Fail("runs-on", what, "the client program still runs %s after %d signals (%v), gateways: %s", time.Since(asked).Round(time.Second), len(l), l[0], what)
		return
	}
	took := time.Since(asked)
	if st := p.Status(); st != "exit status 0" || p.Panicked() {
		run.Fail("end", what, "the client program ended with %s after %d signals (%v), gateways: %s: %s", st, len(l), l[0], what, p.Tail(1500))
	}
	for _, g := range gs {
		for _, c := range g.Conns() {
			if g.Rcvbuf == 0 && !c.WaitEOF(e2e.Watchdog()) {
				run.Fail("connection-stays", what, "a connection stays open after the end of the client program")
			}
		}
	}
	run.Count("ends", 1)
	run.Max("longest_end_ms", took.Milliseconds())
	run.Case(fmt.Sprint("end ", len(l), l[0]))
	run.Sample(map[string]any{"signals": len(l), "first": fmt.Sprint(l[0]), "gateways": what, "took": took.String()})
}
