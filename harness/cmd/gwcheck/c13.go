package main

import (
	"fmt"
	"math/rand"
	"sync/atomic"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C13"] = c13 }

type c13req struct {
	kind string
	key  string
}

func c13() {
	run := lib.NewRun("C13", "exhaustive observation of sampled executions",
		"one evaluation: one request sent to a live gateway and matched with what came back; distinct: protocol version × request kind × segmentation × position in its batch × window profile")
	reps := run.N(2, 12)
	for rep := 0; rep < reps; rep++ {
		for _, multi := range []bool{true, false} {
			c13gateway(run, run.Sub(fmt.Sprint("gw", rep, multi)), multi, rep)
			if run.NFailed() > 20 {
				run.Finish()
			}
		}
	}
	run.Finish()
}

func c13gateway(run *lib.Run, r *rand.Rand, multi bool, rep int) {
	cfg := e2e.Config{Success: 1, MinMs: 0, MaxMs: []int{0, 1, 4}[r.Intn(3)], ReportMs: r.Intn(2), Multicore: multi, LogLevel: 2}
	type job struct {
		pv  gen.PV
		a   e2e.Account
		pro string
		sd  int64
	}
	var jobs []job
	n := 0
	for _, pv := range gen.All {
		for _, pro := range []string{"wide", "wide", "narrow", "one"} {
			w, t := 4096, 1000000
			switch pro {
			case "narrow":
				w, t = 2+r.Intn(4), 1000
			case "one":
				w, t = 1, 200
			}
			n++
			a := account(pv, n, 4, w, t)
			cfg.Accounts = append(cfg.Accounts, a)
			jobs = append(jobs, job{pv, a, pro, r.Int63()})
		}
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	var stop atomic.Bool
	done := make(chan bool)
	go func() { // others come and go meanwhile
		defer close(done)
		for i := 0; !stop.Load(); i++ {
			a := cfg.Accounts[i%len(cfg.Accounts)]
			c, err := e2e.Login(g, a, nil)
			if err == nil {
				if i%2 == 0 {
					c.Reset()
				} else {
					logout(c)
				}
				run.Count("connections_churned", 1)
			}
			time.Sleep(5 * time.Millisecond)
		}
	}()
	par(len(jobs), func(i int) {
		j := jobs[i]
		c13conn(run, rand.New(rand.NewSource(j.sd)), g, j.pv, j.a, j.pro)
	})
	stop.Store(true)
	<-done
	alive(run, g, "well-formed traffic")
}

func c13conn(run *lib.Run, r *rand.Rand, g *e2e.Gateway, pv gen.PV, a e2e.Account, pro string) {
	c, err := e2e.Login(g, a, e2e.AutoClient)
	if err != nil {
		if alive(run, g, "login") {
			run.Fail("login", pv.String(), "%s: the login of an account is not accepted: %v", pv, err)
		}
		return
	}
	defer c.Close()
	base := len(c.Evs())
	var want []c13req
	rounds := 4 + r.Intn(4)
	var replay []string
	for k := 0; k < rounds; k++ {
		mode := []string{"whole", "octets", "small", "random", "whole"}[r.Intn(5)]
		nb := 1 + r.Intn(60)
		if mode == "octets" {
			nb = 1 + r.Intn(6)
		}
		if pro == "one" {
			nb = 1 + nb/6
		}
		var b []byte
		sent := 0
		var dup []uint32
		for q := 0; q < nb; q++ {
			s := c.NewSeq()
			if r.Intn(12) == 0 {
				s = gen.Seq(r, pv.Proto)
			}
			if dup != nil && r.Intn(15) == 0 {
				s = dup
			}
			dup = s
			kind := "submit"
			m := refc.M{}
			x := r.Intn(10)
			switch {
			case pv.Proto != refc.SGIP && x < 3:
				kind = "active"
			case pv.Proto != refc.SGIP && x == 3:
				kind = []string{"deliver_resp", "active_resp"}[r.Intn(2)]
				m["msgId"] = uint64(r.Int63())
				if pv.Proto == refc.SMGP {
					m["msgId"] = gen.Bytes(r, 10)
				}
			default:
				m = submit(r, pv)
			}
			b = append(b, refc.Frame(pv.Proto, pv.Ver, kind, m, s...)...)
			key := ""
			if kind == "submit" || kind == "active" {
				want = append(want, c13req{kind + "_resp", fmt.Sprint(s)})
				sent++
			}
			pos := "mid"
			if q == 0 {
				pos = "first"
			} else if q == nb-1 {
				pos = "last"
			}
			key = fmt.Sprint(pv, kind, mode, pos, pro)
			run.Case(key)
		}
		replay = append(replay, fmt.Sprintf("%s %d requests %d octets", mode, nb, len(b)))
		pause := time.Duration(0)
		if r.Intn(2) == 0 && mode != "whole" {
			pause = time.Duration(r.Intn(300)) * time.Microsecond
		}
		if len(b) > 6000 && mode != "whole" {
			pause = 0
		}
		cut := cuts(r, len(b), mode)
		run.Count("segments_written", int64(len(cut)+1))
		if err := c.WriteCut(b, cut, pause); err != nil {
			run.Fail("write", replay, "%s/%s: the gateway closed a connection carrying well-formed requests: %v", pv, pro, err)
			return
		}
		if r.Intn(3) > 0 { // sometimes the next batch follows at once
			if !c.Until(e2e.Watchdog(), func(evs []e2e.Ev, _ bool) bool { return c13count(evs[base:]) >= len(want) }) {
				break
			}
		}
	}
	ok := c.Until(e2e.Watchdog(), func(evs []e2e.Ev, _ bool) bool { return c13count(evs[base:]) >= len(want) })
	all := ok
	if ok { // a last probe, answered after all work queued before it got its turn, then the logout
		if pv.Proto != refc.SGIP {
			s, _ := c.Send("active", refc.M{})
			want = append(want, c13req{"active_resp", fmt.Sprint(s)})
			all = c.Resp("active", s, e2e.Watchdog()) != nil
		}
		s, _ := c.Send(e2e.LogoutKind(pv.Proto), refc.M{})
		k := e2e.LogoutKind(pv.Proto)
		want = append(want, c13req{k + "_resp", fmt.Sprint(s)})
		run.Case(fmt.Sprint(pv, k))
		if !c.WaitEOF(e2e.Watchdog()) {
			run.Fail("logout", replay, "%s/%s: the connection is not closed after the logout", pv, pro)
			return
		}
	}
	if !alive(run, g, "well-formed traffic") {
		return
	}
	evs := c.Evs()[base:]
	need := map[c13req]int{}
	for _, w := range want {
		need[w]++
	}
	for _, e := range evs {
		if e.Err != nil {
			run.Fail("garbled", replay, "%s/%s: garbled packet %x: %v", pv, pro, e.Raw, e.Err)
			return
		}
		if e.Kind == "deliver" && e.M.U("isReport") == 1 {
			run.Count("reports_seen", 1)
			continue
		}
		k := c13req{e.Kind, e.SeqKey()}
		if need[k] == 0 {
			what := "no request asked for"
			for _, w := range want {
				if w == k {
					what = "answers a request that was already answered"
				} else if w.key == k.key {
					what = "has the wrong kind for the request of its sequence number (" + w.kind + " expected)"
				}
			}
			run.Fail("unasked", replay, "%s/%s: %s %s %s", pv, pro, k.kind, k.key, what)
			return
		}
		need[k]--
		run.Count("responses_matched", 1)
	}
	if t := c.Tail(); len(t) > 0 {
		run.Fail("garbled", replay, "%s/%s: %d octets of an incomplete packet at the end of the stream: %x", pv, pro, len(t), t)
	}
	missing := 0
	for k, v := range need {
		if v > 0 {
			missing += v
			if missing == v {
				eof, e := c.EOF()
				run.Fail("unanswered", replay, "%s/%s: request %s %s got no response (connection ended: %v %v, all probes answered: %v)", pv, pro, k.kind, k.key, eof, e, all)
			}
		}
	}
	run.Sample(map[string]any{"protocol": pv.String(), "window": pro, "batches": replay, "requests": len(want)})
}

func c13count(evs []e2e.Ev) (n int) {
	for _, e := range evs {
		if e.Kind != "deliver" {
			n++
		}
	}
	return
}
