package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/e2e"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C26"] = c26 }

func c26() {
	run := lib.NewRun("C26", "happens-before race detection over stress executions",
		"one evaluation: one message given to a client built with the race detector, amid breaking connections, queries and expiry, and how far it got; distinct: protocol versions × fate of the message × what breaks the connections × clock moved or not")
	n := run.N(16, 64)
	for i := 0; i < n && !run.Failed(); i += 8 {
		par(8, func(k int) { c26rep(run, run.Sub(fmt.Sprint("c26", i+k)), i+k) })
	}
	run.Finish()
}

var c26breaks = []string{"reset", "logout", "close", "garbage", "vanish", "refused logins"}

func c26rep(run *lib.Run, r *rand.Rand, rep int) {
	dir, err := os.MkdirTemp(e2e.ScratchDir("race"), "r")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	clock := rep%2 == 1
	cfg := e2e.ClientConfig{LogLevel: []int{2, 2, 2, -1}[rep/2%4], Expire: "400ms", Check: "10ms", Bin: "clir",
		Env: []string{"GORACE=halt_on_error=0 exitcode=0 history_size=4 log_path=" + filepath.Join(dir, "race")}}
	if clock {
		cfg.Bin = "clivr"
		cfg.Expire = "10m"
	}
	a := newAnswerer(rand.New(rand.NewSource(r.Int63())))
	a.mix = true
	var refusing atomic.Bool
	var gs []*e2e.FakeGW
	for i, pv := range trio(rep) {
		pv := pv
		g := fake(pv, i, 1+r.Intn(4), []int{20, 100000}[r.Intn(2)], []int{300, 100000}[r.Intn(2)])
		g.Tick = "5ms"
		g.OnLogin = func(c *e2e.GwConn, e e2e.Ev) bool {
			if refusing.Load() && c.N%2 == 0 {
				g.Refuse(c, e, 3)
				return true
			}
			return false
		}
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			switch e.Kind {
			case "submit":
				a.onSubmit(c, e)
			case "active":
				if e.Seq[0]%3 > 0 {
					_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "active_resp", refc.M{}, e.Seq...))
				}
				run.Count("heartbeats_of_the_client", 1)
			}
		}
		gs = append(gs, g)
	}
	cfg.GW = gs
	p := start(run, cfg)
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	_ = p.Call("expire", rep%3, nil)
	_ = p.Call("watch", nil, nil)
	stop := make(chan struct{})
	var side sync.WaitGroup
	breaks := c26breaks[rep%len(c26breaks)]
	side.Add(1)
	go func() { // connections break
		defer side.Done()
		r := rand.New(rand.NewSource(int64(rep)))
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(40+r.Intn(300)) * time.Millisecond):
			}
			g := gs[r.Intn(len(gs))]
			how := breaks
			if r.Intn(2) == 0 {
				how = c26breaks[r.Intn(len(c26breaks))]
			}
			_, in := g.Live()
			if len(in) == 0 {
				continue
			}
			c := in[r.Intn(len(in))]
			switch how {
			case "reset":
				c.Reset()
			case "close":
				c.Close()
			case "logout":
				_, _ = c.Send(e2e.LogoutKind(g.PV.Proto), refc.M{})
			case "garbage":
				_ = c.Write([]byte{0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0})
			case "vanish":
				g.Vanish()
				time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
				_ = g.Listen()
			default:
				refusing.Store(!refusing.Load())
				c.Reset()
			}
			run.Count("connections_broken_"+how, 1)
		}
	}()
	side.Add(1)
	go func() { // gateways ask
		defer side.Done()
		r := rand.New(rand.NewSource(int64(rep) + 99))
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(5+r.Intn(30)) * time.Millisecond):
			}
			g := gs[r.Intn(len(gs))]
			_, in := g.Live()
			for _, c := range in {
				if g.PV.Proto != refc.SGIP {
					_, b := c22requests(r, g.PV, 1+r.Intn(5), false)
					_ = c.Write(b)
				}
			}
		}
	}()
	if clock {
		side.Add(1)
		go func() { // idle connections are tested, results expire
			defer side.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(150 * time.Millisecond):
					_ = p.Call("shift", 61*time.Second, nil)
				}
			}
		}()
	}
	var jobs sync.WaitGroup
	seed := r.Int63()
	for k := 0; k < 3; k++ {
		k := k
		jobs.Add(1)
		go func() {
			defer jobs.Done()
			r := rand.New(rand.NewSource(seed + int64(k)))
			for n := 0; n < run.N(6, 20) && !p.Dead(); n++ {
				b := e2e.Batch{Msgs: messages(r, 60), Workers: 4, GapUs: r.Intn(3000)}
				var sent []e2e.Sent
				if p.Call("batch", b, &sent) != nil || len(sent) != len(b.Msgs) {
					return
				}
				var ids []int64
				for _, s := range sent {
					ids = append(ids, s.Id)
				}
				var shown []e2e.Shown
				if p.Call("query", ids, &shown) != nil || len(shown) != len(ids) {
					return
				}
				for i := range shown {
					fate := "no part"
					for _, q := range shown[i].Results {
						switch {
						case q.Report != "":
							fate = "reported"
						case q.MsgId != "" && fate != "reported":
							fate = "answered"
						case fate == "no part":
							fate = "sent"
						}
					}
					run.Count("messages_"+fate, 1)
					run.Case(fmt.Sprint(gs[0].PV, gs[2].PV, fate, breaks, clock))
				}
			}
		}()
	}
	jobs.Wait()
	if !alive(run, p, "stress") {
		close(stop)
		side.Wait()
		return
	}
	_ = p.Call("race", nil, nil)
	canary := false
	for t := time.Now(); !canary && time.Since(t) < e2e.Watchdog(); time.Sleep(20 * time.Millisecond) {
		l, _ := lib.Races(dir)
		for _, x := range l {
			canary = canary || x.Canry
		}
	}
	if !canary {
		fmt.Println("the race detector does not report")
		os.Exit(3)
	}
	run.Count("race_detector_alive", 1)
	// the program is told to end while it sends
	last := p.Go("batch", e2e.Batch{Msgs: messages(r, 300), Workers: 8, GapUs: 300})
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	p.Signal(syscall.SIGTERM)
	select {
	case <-p.Exited():
		run.Count("orderly_shutdowns", 1)
	case <-time.After(20 * time.Second):
		run.Count("shutdowns_not_finished", 1)
	}
	_ = last
	close(stop)
	side.Wait()
	l, n := lib.Races(dir)
	run.Count("race_reports", int64(n-1))
	for _, x := range l {
		if x.Sut {
			run.Fail("race: "+x.Sig, x.Text, "data race: %s", x.Sig)
		}
	}
}
