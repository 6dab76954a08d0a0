package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C20"] = c20 }

func c20() {
	run := lib.NewRun("C20", "happens-before race detection over stress executions",
		"one evaluation: one life of a connection at a gateway built with the race detector, amid others; distinct: protocol version × way of ending × what happened on it")
	reps := run.N(9, 40)
	for i := 0; i < reps && !run.Failed(); i++ {
		c20rep(run, run.Sub(fmt.Sprint("c20", i)), i, false)
		if i%2 == 0 && !run.Failed() {
			c20rep(run, run.Sub(fmt.Sprint("c20calm", i)), i/2, true)
		}
	}
	run.Finish()
}

var c20ends = []string{"logout", "half-close", "reset", "close", "reset", "garbage", "no login", "refused", "cut login", "login twice", "stay", "stop reading"}

// c20rep: connections come and go, or (calm) stay and have all kinds of traffic, so that what happens to them coincides
// with the periodic work.
func c20rep(run *lib.Run, r *rand.Rand, rep int, calm bool) {
	dir, err := os.MkdirTemp(e2e.ScratchDir("race"), "r")
	if err != nil {
		panic(err)
	}
	shift := rep%2 == 1
	cfg := e2e.Config{Success: 0.9, MaxMs: 2, ReportMs: r.Intn(3), Multicore: true, LogLevel: []int{2, 2, 2, -1}[rep%4], Tick: "10ms", Reload: "15ms",
		Deliver: true, DeliverRate: 0.7, Contents: []string{"01_,_hello", "2_,_中文短信", "003_,_x"}, MaxSessions: 40, ForceClose: "1h",
		Bin: "gwr", Env: []string{"GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path=" + filepath.Join(dir, "race")}}
	if shift {
		cfg.Bin = "gwvr"
	}
	if calm {
		cfg.Tick, cfg.DeliverRate = []string{"1ms", "3ms", "2ms"}[rep%3], []float64{1, 0.5}[r.Intn(2)]
	}
	var as []e2e.Account
	for i, pv := range gen.All {
		a := account(pv, i, []int{3, 30}[r.Intn(2)]+map[bool]int{true: 20}[calm], []int{4, 32}[r.Intn(2)], []int{200, 100000}[r.Intn(2)])
		as = append(as, a)
		cfg.Accounts = append(cfg.Accounts, a)
	}
	put, remove := func(a e2e.Account) {}, func(a e2e.Account) {}
	var g *e2e.Gateway
	if rep%3 == 2 { // accounts in a database
		db := &e2e.FakeMongo{Batch: 2}
		if err := db.Listen(); err != nil {
			panic(err)
		}
		defer db.Close()
		cfg.Store, cfg.Env = mongoAccounts(db.Port, "15ms"), append(cfg.Env, "MONGO_USER=u", "MONGO_PASSWD=p")
		have := map[string]e2e.Account{}
		dr := rand.New(rand.NewSource(r.Int63()))
		set := func() {
			var docs []e2e.BD
			for _, a := range as {
				if x, ok := have[a.Isp+a.Id]; ok {
					docs = append(docs, c28doc(dr, x))
				}
			}
			db.Set(accountsColl, docs)
		}
		put = func(a e2e.Account) { have[a.Isp+a.Id] = a; set() }
		remove = func(a e2e.Account) { delete(have, a.Isp+a.Id); set() }
		for _, a := range as {
			have[a.Isp+a.Id] = a
		}
		set()
		run.Count("gateways_with_a_database", 1)
	} else {
		put, remove = func(a e2e.Account) { g.Put(a) }, func(a e2e.Account) { g.Remove(a) }
	}
	if g = start(run, cfg); g == nil {
		return
	}
	stop := make(chan struct{})
	var side, idle sync.WaitGroup
	// accounts change all the time
	side.Add(1)
	go func() {
		defer side.Done()
		r := rand.New(rand.NewSource(int64(rep)))
		for n := 0; ; n++ {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(5+r.Intn(20)) * time.Millisecond):
			}
			a := as[r.Intn(len(as))]
			switch r.Intn(8) {
			case 0:
				remove(a)
				time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
				put(a)
			default:
				a.Display = "10690000"[:4+r.Intn(5)]
				a.Service = fmt.Sprint("s", r.Intn(1000))
				a.MaxConns = 3 + r.Intn(30)
				put(a)
			}
			run.Count("account_edits", 1)
		}
	}()
	// time passes: heartbeats fall due, silent connections too
	if shift {
		side.Add(1)
		go func() {
			defer side.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(300 * time.Millisecond):
					g.Shift(61 * time.Second)
				}
			}
		}()
	}
	var hb, lost atomic.Int64
	auto := func(c *e2e.Conn, e e2e.Ev) {
		if e.Kind == "active" {
			if hb.Add(1)%3 == 0 {
				return // not every client answers
			}
		}
		e2e.AutoClient(c, e)
	}
	seed := r.Int63()
	par(2*len(as), func(k int) {
		i := k % len(as)
		r := rand.New(rand.NewSource(seed + int64(k)))
		for n := 0; calm && n < 1; n++ {
			c20stay(run, r, g, gen.All[i], as[i], auto, time.Duration(run.N(5, 8))*time.Second)
		}
		for n := 0; !calm && n < run.N(150, 400) && !g.Dead(); n++ {
			end := c20ends[r.Intn(len(c20ends))]
			if !c20life(run, r, g, gen.All[i], as[i], end, auto, &idle, stop) {
				lost.Add(1)
			}
		}
	})
	close(stop)
	side.Wait()
	idle.Wait()
	run.Count("heartbeats", hb.Load())
	run.Count("logins_refused_or_lost", lost.Load())
	if !alive(run, g, "stress") {
		return
	}
	time.Sleep(200 * time.Millisecond)
	g.Race()
	var l []lib.Race
	n, canary := 0, false
	for t := time.Now(); !canary && time.Since(t) < e2e.Watchdog(); time.Sleep(20 * time.Millisecond) {
		l, n = lib.Races(dir)
		for _, x := range l {
			canary = canary || x.Canry
		}
	}
	g.Stop()
	l, n = lib.Races(dir)
	if !canary {
		fmt.Println("the race detector does not report")
		os.Exit(3)
	}
	run.Count("race_detector_alive", 1)
	run.Count("race_reports", int64(n-1))
	for _, x := range l {
		if x.Sut {
			run.Fail("race: "+x.Sig, x.Text, "data race: %s", x.Sig)
		}
	}
	_ = os.RemoveAll(dir)
}

// c20stay is one connection that stays.
func c20stay(run *lib.Run, r *rand.Rand, g *e2e.Gateway, pv gen.PV, a e2e.Account, auto func(*e2e.Conn, e2e.Ev), d time.Duration) {
	c, st, err := e2e.TryLogin(g, a, auto)
	if c == nil {
		return
	}
	defer c.Close()
	if err != nil || st != 0 {
		return
	}
	answers := pv.Proto != refc.SGIP && r.Intn(2) == 0 // answers heartbeats all the time, asked or not
	for t := time.Now(); time.Since(t) < d; {
		var b []byte
		for i := 0; answers && i < 40; i++ {
			b = append(b, refc.Frame(pv.Proto, pv.Ver, "active_resp", refc.M{}, c.NewSeq()...)...)
		}
		for i := r.Intn(4); i > 0; i-- {
			k, m := "submit", submit(r, pv)
			if pv.Proto != refc.SGIP && r.Intn(4) == 0 {
				k, m = "active", refc.M{}
			}
			b = append(b, refc.Frame(pv.Proto, pv.Ver, k, m, c.NewSeq()...)...)
		}
		if len(b) > 0 && c.Write(b) != nil {
			break
		}
		time.Sleep([]time.Duration{0, time.Millisecond, 3 * time.Millisecond, 20 * time.Millisecond}[r.Intn(4)])
	}
	kinds := map[string]int64{}
	for _, e := range c.Evs() {
		k := e.Kind
		if k == "deliver" && e.M.U("isReport") == 1 {
			k = "report"
		}
		kinds[k]++
	}
	run.Count("responses", kinds["submit_resp"])
	run.Count("reports", kinds["report"])
	run.Count("deliveries", kinds["deliver"])
	run.Case(fmt.Sprint(pv, "stays", answers, kinds["submit_resp"] > 0, kinds["report"] > 0, kinds["deliver"] > 0))
}

// c20life is one connection; what it observes does not matter here.
func c20life(run *lib.Run, r *rand.Rand, g *e2e.Gateway, pv gen.PV, a e2e.Account, end string, auto func(*e2e.Conn, e2e.Ev), idle *sync.WaitGroup, stop chan struct{}) bool {
	a2 := a
	switch end {
	case "no login":
		c, err := e2e.Dial(g, pv.Proto, pv.Ver, nil)
		if err != nil {
			return false
		}
		if r.Intn(2) == 0 {
			_, _ = c.Send("submit", submit(r, pv))
			c.WaitEOF(time.Second)
		}
		c.Reset()
		run.Case(fmt.Sprint(pv, end))
		return true
	case "cut login":
		c, err := e2e.Dial(g, pv.Proto, pv.Ver, nil)
		if err != nil {
			return false
		}
		f := refc.Frame(pv.Proto, pv.Ver, e2e.LoginKind(pv.Proto), e2e.LoginM(a, 1), c.NewSeq()...)
		_ = c.Write(f[:r.Intn(len(f))])
		if r.Intn(2) == 0 {
			_ = c.Write(f)
		}
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		c.Reset()
		run.Case(fmt.Sprint(pv, end))
		return true
	case "refused":
		a2.Secret += "x"
	}
	c, st, err := e2e.TryLogin(g, a2, auto)
	if c == nil {
		return false
	}
	if err != nil || st != 0 {
		c.Close()
		run.Case(fmt.Sprint(pv, "refused", st))
		return end == "refused"
	}
	n := r.Intn(15)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, refc.Frame(pv.Proto, pv.Ver, "submit", submit(r, pv), c.NewSeq()...)...)
	}
	_ = c.Write(b)
	if r.Intn(3) > 0 {
		want := r.Intn(n + 1)
		c.Until(2*time.Second, func(evs []e2e.Ev, _ bool) bool {
			k := 0
			for _, e := range evs {
				if e.Kind == "submit_resp" {
					k++
				}
			}
			return k >= want
		})
	}
	if pv.Proto != refc.SGIP && r.Intn(2) == 0 {
		_, _ = c.Send("active", refc.M{})
	}
	switch end {
	case "logout":
		_, _ = c.Send(e2e.LogoutKind(pv.Proto), refc.M{})
		c.WaitEOF(5 * time.Second)
	case "half-close":
		_ = c.C.CloseWrite()
		c.WaitEOF(5 * time.Second)
	case "reset":
		c.Reset()
	case "garbage":
		_ = c.Write([]byte{0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0})
		c.WaitEOF(5 * time.Second)
	case "login twice":
		_, _ = c.Send(e2e.LoginKind(pv.Proto), e2e.LoginM(a, uint32(r.Intn(1e9))))
		_ = c.Write(b)
		time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
	case "stay":
		idle.Add(1)
		d := time.Duration(r.Intn(2500)) * time.Millisecond
		go func() {
			defer idle.Done()
			select {
			case <-stop:
			case <-time.After(d):
			}
			c.Close()
		}()
	case "stop reading":
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	}
	sr, rp, dl := 0, 0, 0
	for _, e := range c.Evs() {
		switch {
		case e.Kind == "submit_resp":
			sr++
		case e.Kind == "deliver" && e.M.U("isReport") == 1:
			rp++
		case e.Kind == "deliver":
			dl++
		}
	}
	run.Count("submits", int64(n))
	run.Count("responses", int64(sr))
	run.Count("reports", int64(rp))
	run.Count("deliveries", int64(dl))
	run.Case(fmt.Sprint(pv, end, sr > 0, rp > 0, dl > 0))
	if end != "stay" {
		c.Close()
	}
	return true
}
