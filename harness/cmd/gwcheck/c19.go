package main

import (
	"fmt"
	"math/rand"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C19"] = c19 }

func c19() {
	run := lib.NewRun("C19", "exhaustive observation of sampled executions",
		"one evaluation: one ended connection, its traffic as seen by its client compared with the statistics recorded for it; distinct: protocol version × way of ending × submits, reports and deliveries in its traffic")
	done := make(chan struct{})
	seed := run.Sub("leak").Int63()
	go func() { defer close(done); c19leak(run, rand.New(rand.NewSource(seed))) }()
	for i := 0; i < run.N(8, 60) && !run.Failed(); i++ {
		c19stats(run, run.Sub(fmt.Sprint("c19", i)), i)
	}
	<-done
	run.Finish()
}

var c19ends = []string{"logout", "half-close", "reset when quiet", "close when quiet", "bad length", "unknown command", "reset at work", "logout at work", "no login", "refused login", "second login"}

type c19conn struct {
	pv           gen.PV
	a            e2e.Account
	end          string
	local        string
	exact        bool // every count is known
	loDlv        bool // deliveries may be more than were seen
	loRpt        bool // so may reports
	sent         uint64
	ok, rpt, dlv uint64
	name         string
	loggedIn     bool
}

// c19one runs one connection through its life; all: every accepted submit gets its report.
func c19one(run *lib.Run, r *rand.Rand, g *e2e.Gateway, pv gen.PV, a e2e.Account, end string, submits int, all bool) *c19conn {
	x := &c19conn{pv: pv, a: a, end: end, name: a.Id}
	if pv.Proto == refc.SGIP {
		x.name = a.Id
	}
	var c *e2e.Conn
	var err error
	switch end {
	case "no login":
		c, err = e2e.Dial(g, pv.Proto, pv.Ver, nil)
		if err == nil {
			_, _ = c.Send("submit", submit(r, pv))
			c.WaitEOF(e2e.Watchdog())
		}
	case "refused login":
		b := a
		b.Secret = "wrong"
		var st int
		c, st, err = e2e.TryLogin(g, b, nil)
		if c != nil {
			c.WaitEOF(e2e.Watchdog())
			if err == nil && st == 0 {
				err = fmt.Errorf("login with a wrong secret accepted")
			} else {
				err = nil
			}
		}
	default:
		c, err = e2e.Login(g, a, e2e.AutoClient)
		x.loggedIn = true
	}
	if err != nil || c == nil {
		if alive(run, g, "login") {
			run.Fail("login", pv.String(), "%s: connecting for %q: %v", pv, end, err)
		}
		return nil
	}
	x.local = c.Local
	if !x.loggedIn {
		c.Close()
		x.exact = true
		return x
	}
	var seqs []string
	work := func(n int) {
		var b []byte
		for i := 0; i < n; i++ {
			s := c.NewSeq()
			seqs = append(seqs, fmt.Sprint(s))
			b = append(b, refc.Frame(pv.Proto, pv.Ver, "submit", submit(r, pv), s...)...)
		}
		_ = c.Write(b)
		x.sent += uint64(n)
	}
	count := func(evs []e2e.Ev) (resp, ok, rpt, dlv uint64) {
		for _, e := range evs {
			switch {
			case e.Kind == "submit_resp":
				resp++
				if result(e) == 0 {
					ok++
				}
			case e.Kind == "deliver" && e.M.U("isReport") == 1:
				rpt++
			case e.Kind == "deliver":
				dlv++
			}
		}
		return
	}
	quiet := func() bool {
		return c.Until(e2e.Watchdog(), func(evs []e2e.Ev, _ bool) bool {
			resp, ok, rpt, _ := count(evs)
			return resp >= x.sent && (pv.Proto == refc.SGIP || !all || rpt >= ok)
		})
	}
	work(submits)
	if r.Intn(3) == 0 {
		quiet()
		work(r.Intn(5))
	}
	if pv.Proto != refc.SGIP && r.Intn(2) == 0 { // some deliveries
		c.Until(5*time.Second, func(evs []e2e.Ev, _ bool) bool { _, _, _, d := count(evs); return d > 0 })
	}
	x.exact = true
	waitEOF := true
	switch end {
	case "logout":
		quiet()
		logout(c)
		waitEOF = false
	case "half-close":
		quiet()
		_ = c.C.CloseWrite()
	case "bad length":
		quiet()
		_ = c.Write([]byte{0, 0, 0, 3, 0, 0, 0, 4, 0, 0, 0, 1})
	case "unknown command":
		quiet()
		_ = c.Write([]byte{0, 0, 0, 12, 0, 0, 0x55, 0x55, 0, 0, 0, 1})
	case "second login":
		quiet()
		s, _ := c.Send(e2e.LoginKind(pv.Proto), e2e.LoginM(a, 1))
		c.Resp(e2e.LoginKind(pv.Proto), s, 5*time.Second)
		work(3)
		quiet()
		_ = c.C.CloseWrite()
	case "reset when quiet", "close when quiet":
		quiet()
		waitEOF, x.loDlv, x.loRpt = false, true, !all
		x.sent = uint64(len(seqs))
		_, x.ok, x.rpt, x.dlv = count(c.Evs())
		if end == "close when quiet" {
			c.Close()
		} else {
			c.Reset()
		}
		return x
	case "reset at work":
		work(20)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
		_, x.ok, x.rpt, x.dlv = count(c.Evs())
		c.Reset()
		x.exact = false
		return x
	case "logout at work":
		work(20)
		_, _ = c.Send(e2e.LogoutKind(pv.Proto), refc.M{})
		if !c.WaitEOF(e2e.Watchdog()) && alive(run, g, "logout") {
			run.Fail("logout", nil, "%s: connection not closed after logout", pv)
		}
		waitEOF = false
	}
	if waitEOF && !c.WaitEOF(e2e.Watchdog()) && alive(run, g, end) {
		run.Fail("not-closed", nil, "%s: connection not closed after %q", pv, end)
	}
	// When the gateway closes while an answer of the client is under way, the
	// system breaks the connection off and drops what the client has not got
	// yet. Only after a half-close the client is sure to have seen everything.
	if eof, err := c.EOF(); end == "logout at work" || !eof || !e2e.IsClosedErr(err) {
		x.exact = false
	}
	if end != "half-close" && end != "second login" {
		x.loDlv, x.loRpt = true, !all
	}
	x.sent = uint64(len(seqs))
	_, x.ok, x.rpt, x.dlv = count(c.Evs())
	c.Close()
	return x
}

func c19stats(run *lib.Run, r *rand.Rand, rep int) {
	cfg := e2e.Config{Success: []float64{1, 1, 0.7}[rep%3], Multicore: rep%2 == 0, LogLevel: 2, Tick: "15ms", Deliver: true, DeliverRate: 1, Contents: []string{"01_,_hello"}, MaxMs: 2, ReportMs: 1}
	var as []e2e.Account
	for i, pv := range gen.All {
		a := account(pv, i, 100, []int{8, 64}[rep%2], []int{100000, 300}[r.Intn(2)])
		as = append(as, a)
		cfg.Accounts = append(cfg.Accounts, a)
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	stopped := false
	defer func() {
		if !stopped {
			g.Stop()
		}
	}()
	res := make([][]*c19conn, len(as))
	seed := r.Int63()
	par(len(as), func(i int) {
		r := rand.New(rand.NewSource(seed + int64(i)))
		for round := 0; round < run.N(2, 4); round++ {
			for _, end := range c19ends {
				if run.Failed() {
					return
				}
				if x := c19one(run, r, g, gen.All[i], as[i], end, r.Intn(25), cfg.Success == 1); x != nil {
					res[i] = append(res[i], x)
				}
			}
		}
	})
	if !alive(run, g, "connections") || run.Failed() {
		return
	}
	seen := map[string]int{}
	var all []*c19conn
	for _, l := range res {
		for _, x := range l {
			seen[x.pv.Proto+x.local]++
			all = append(all, x)
		}
	}
	// every connection has its record; records are written when the gateway notes the end
	var recs map[string][]e2e.Counter
	read := func() (missing int) {
		recs = map[string][]e2e.Counter{}
		for _, k := range g.Counters() {
			recs[k.Server+k.Remote] = append(recs[k.Server+k.Remote], k)
		}
		for _, x := range all {
			if len(recs[x.pv.Proto+x.local]) == 0 {
				missing++
			}
		}
		return
	}
	for t := time.Now(); read() > 0 && time.Since(t) < e2e.Watchdog(); {
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(100 * time.Millisecond)
	g.Stop()
	stopped = true
	read()
	for _, x := range all {
		k := x.pv.Proto + x.local
		if seen[k] > 1 {
			continue // the system gave the same port twice
		}
		run.Case(fmt.Sprint(x.pv, x.end, x.ok > 0, x.rpt > 0, x.dlv > 0, x.ok == x.sent, x.exact))
		run.Count("connections", 1)
		run.Count("submits", int64(x.sent))
		run.Count("reports", int64(x.rpt))
		run.Count("deliveries", int64(x.dlv))
		rp := map[string]any{"protocol": x.pv.String(), "end": x.end, "sent": x.sent, "accepted": x.ok, "reports": x.rpt, "deliveries": x.dlv}
		l := recs[k]
		if len(l) != 1 {
			raw := ""
			for _, y := range l {
				raw += y.Raw + "\n"
			}
			run.Fail(fmt.Sprint("records-", len(l) > 1), rp, "%s: %d statistics records for a connection that ended by %q: %s", x.pv, len(l), x.end, raw)
			continue
		}
		y := l[0]
		if x.loggedIn && y.Auth != x.name {
			run.Fail("name", rp, "%s: a connection of account %q is recorded as %q", x.pv, x.name, y.Auth)
		}
		bad := ""
		switch {
		case x.exact:
			run.Count("exactly_known", 1)
			if y.Mt != x.ok || y.Rpt != x.rpt && !(x.loRpt && y.Rpt > x.rpt && y.Rpt <= x.ok) || y.Dlv != x.dlv && !(x.loDlv && y.Dlv > x.dlv) {
				bad = "the traffic was"
			}
		default:
			if y.Mt < x.ok || y.Mt > x.sent || y.Rpt < x.rpt || y.Rpt > y.Mt || y.Dlv < x.dlv {
				bad = "the traffic seen was at least"
			}
		}
		if bad != "" {
			run.Fail("counts", rp, "%s (%s): recorded submits %d, reports %d, deliveries %d; %s: sent %d, accepted %d, reports %d, deliveries %d", x.pv, x.end, y.Mt, y.Rpt, y.Dlv, bad, x.sent, x.ok, x.rpt, x.dlv)
		}
	}
	if len(all) > 0 {
		x := all[r.Intn(len(all))]
		run.Sample(map[string]any{"protocol": x.pv.String(), "end": x.end, "sent": x.sent, "accepted": x.ok, "reports": x.rpt, "deliveries": x.dlv})
	}
}

// c19leak: after all connections are gone nothing of them is left.
func c19leak(run *lib.Run, r *rand.Rand) {
	cfg := e2e.Config{Success: 1, Multicore: true, LogLevel: 2, Tick: "50ms", Deliver: true, DeliverRate: 0.3, Contents: []string{"01_,_hello"}, MaxMs: 1}
	var as []e2e.Account
	for i, pv := range gen.All {
		a := account(pv, i, 1000, 16, 100000)
		as = append(as, a)
		cfg.Accounts = append(cfg.Accounts, a)
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	batch := func(n int) int {
		seed := r.Int63()
		par(len(as), func(i int) {
			r := rand.New(rand.NewSource(seed + int64(i)))
			for k := 0; k < n && !run.Failed(); k++ {
				c19one(run, r, g, gen.All[i], as[i], c19ends[k%len(c19ends)], r.Intn(6), true)
			}
		})
		return n * len(as)
	}
	batch(len(c19ends))
	time.Sleep(65 * time.Second) // idle workers and their keepers end within a minute
	g0, h0 := g.Goroutines(), g.Heap()
	conns := batch(run.N(55, 220))
	if run.Failed() || !alive(run, g, "connections") {
		return
	}
	var g1, h1 int
	for t := time.Now(); time.Since(t) < 3*e2e.Watchdog(); time.Sleep(2 * time.Second) {
		g1, h1 = g.Goroutines(), g.Heap()
		if g1 <= g0+conns/20 && h1 < h0+conns*1000 {
			break
		}
	}
	run.Count("connections_churned", int64(conns))
	run.Count("goroutines_before", int64(g0))
	run.Count("goroutines_after", int64(g1))
	run.Count("heap_before", int64(h0))
	run.Count("heap_after", int64(h1))
	run.Case(fmt.Sprint("leak", conns))
	if g1 > g0+conns/20 {
		run.Fail("goroutines-left", g.Stacks(), "%d goroutines before, %d minutes after %d connections have gone: %d", g0, 3, conns, g1)
	}
	if h1 >= h0+conns*1000 {
		run.Fail("memory-left", nil, "%d octets in use before, %d minutes after %d connections have gone: %d", h0, 3, conns, h1)
	}
}
