package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C34"] = c34 }

// c34 compares what the mock does with messages with its settings.
func c34() {
	run := lib.NewRun("C34", "exhaustive observation of sampled executions",
		"one evaluation: one message given to a gateway: its result, when it was answered, whether and when its report came, and how many of its connection were in work meanwhile; distinct: protocol version × settings of the mock (success rate, delays) × window")
	n := run.N(24, 240)
	for i := 0; i < n && run.NFailed() < 5; i += 4 {
		par(4, func(k int) {
			r := run.Sub(fmt.Sprint("c34", i+k))
			switch (i + k) % 4 {
			case 0:
				c34share(run, r, i/4)
			case 1, 2:
				c34delay(run, r, i/4*2+k-1)
			default:
				c34window(run, r, i/4)
			}
		})
	}
	run.Finish()
}

type c34msg struct {
	sent     time.Time
	resp     time.Time
	status   int
	reported time.Time
	reports  int
}

// c34drive sends n submits on a connection, with a gap, and waits until all are answered and there are enough
// reports.
func c34drive(run *lib.Run, r *rand.Rand, g *e2e.Gateway, a e2e.Account, pv gen.PV, n int, gap time.Duration, enough func(good, reported int) bool) (l []*c34msg) {
	c, err := e2e.Login(g, a, e2e.AutoClient)
	if err != nil {
		if alive(run, g, "login") {
			run.Fail("login", pv.String(), "%s: login not accepted: %v", pv, err)
		}
		return nil
	}
	defer c.Close()
	bySeq := map[string]*c34msg{}
	for i := 0; i < n; i++ {
		m := submit(r, pv)
		x := &c34msg{sent: time.Now()}
		s, err := c.Send("submit", m)
		if err != nil {
			if alive(run, g, "submits") {
				run.Fail("closed", pv.String(), "%s: the connection breaks off during submits: %v", pv, err)
			}
			return nil
		}
		bySeq[fmt.Sprint(s)] = x
		l = append(l, x)
		if gap > 0 {
			time.Sleep(gap)
		}
	}
	look := func(evs []e2e.Ev) (answered, good, reported int) {
		byId := map[string]*c34msg{}
		for i := range l {
			l[i].reports = 0
		}
		for _, e := range evs {
			switch e.Kind {
			case "submit_resp":
				if x := bySeq[fmt.Sprint(e.Seq)]; x != nil {
					x.resp, x.status = e.At, int(result(e))
					if x.status == 0 {
						good++
						byId[c14id(pv, e)] = x
					}
					answered++
				}
			}
		}
		for _, e := range evs {
			if e.Kind == "deliver" && e.M.U("isReport") == 1 {
				if id, _, err := c14report(pv, e); err == nil && byId[id] != nil {
					x := byId[id]
					x.reported = e.At
					x.reports++
					reported++
				}
			}
		}
		return
	}
	ok := c.Until(e2e.Watchdog(), func(evs []e2e.Ev, eof bool) bool {
		if eof {
			return true
		}
		if len(evs) < n {
			return false
		}
		k, good, p := look(evs)
		return k == n && (pv.Proto == refc.SGIP || enough(good, p))
	})
	if eof, err := c.EOF(); eof || !ok {
		if alive(run, g, "submits") {
			k, good, p := look(c.Evs())
			run.Fail("unanswered", pv.String(), "%s: of %d messages %d were answered, %d with success, and %d reported on; success rate %g (connection closed: %v %v)", pv, n, k, good, p, g.Config.Success, eof, err)
		}
		return nil
	}
	look(c.Evs())
	if pv.Proto != refc.SGIP { // reports beyond those awaited would have come by now
		time.Sleep(time.Duration(g.Config.ReportMs)*time.Millisecond + 200*time.Millisecond)
		look(c.Evs())
	}
	return
}

func c34start(run *lib.Run, r *rand.Rand, cfg e2e.Config, window int) (*e2e.Gateway, []e2e.Account) {
	for i, pv := range gen.All {
		cfg.Accounts = append(cfg.Accounts, account(pv, i, 3, window, 1000000))
	}
	cfg.LogLevel, cfg.Multicore = 2, r.Intn(2) == 0
	return start(run, cfg), cfg.Accounts
}

// all is for configurations in which every message that succeeds is reported on.
func all(good, reported int) bool { return reported >= good }

// c34share: the share of messages that succeed.
func c34share(run *lib.Run, r *rand.Rand, rep int) {
	p := []float64{0.5, 0.96, 0.1, 1, 0, 0.8, 0.3, 0.99}[rep%8]
	g, as := c34start(run, r, e2e.Config{Success: p}, 4000)
	if g == nil {
		return
	}
	defer g.Stop()
	n := 3000
	// six standard deviations beside the resolution of the dice
	off := func(k, n int) bool {
		return math.Abs(float64(k)-p*float64(n)) > 6*math.Sqrt(float64(n)*p*(1-p))+0.0005*float64(n)+3
	}
	for i, pv := range gen.All {
		l := c34drive(run, r, g, as[i], pv, n, 0, func(good, reported int) bool { return reported >= good || p < 1 && !off(reported, good) })
		if l == nil {
			return
		}
		good, reported := 0, 0
		for _, x := range l {
			if x.status == 0 {
				good++
				reported += x.reports
			}
		}
		if off(good, n) || p == 1 && good != n {
			run.Fail("share", p, "%s: of %d messages %d succeeded, the success rate is %g", pv, n, good, p)
		}
		if pv.Proto != refc.SGIP && (p == 1 && reported != good || reported > good || off(reported, good)) {
			run.Fail("reports", p, "%s: of %d messages that succeeded %d were reported on, the success rate is %g", pv, good, reported, p)
		}
		run.Case(fmt.Sprint("share", pv, p))
		run.Count("messages", int64(n))
		run.Count("succeeded", int64(good))
		run.Count("reported", int64(reported))
		run.Sample(map[string]any{"protocol": pv.String(), "success_rate": p, "messages": n, "succeeded": good, "reported": reported})
	}
	alive(run, g, "submits")
}

// c34delay: nothing comes earlier than configured, and not all at the same time.
func c34delay(run *lib.Run, r *rand.Rand, rep int) {
	d := [][3]int{{30, 60, 40}, {0, 200, 0}, {80, 80, 100}, {120, 20, 10}, {0, 0, 150}, {1, 3, 5}, {200, 400, 0}, {50, 51, 50}}[rep%8]
	min, max, fix := d[0], d[1], d[2]
	g, as := c34start(run, r, e2e.Config{Success: 1, MinMs: min, MaxMs: max, ReportMs: fix}, 400)
	if g == nil {
		return
	}
	defer g.Stop()
	if max < min {
		max = min
	}
	par(len(gen.All), func(i int) {
		pv := gen.All[i]
		rr := rand.New(rand.NewSource(int64(rep*100 + i)))
		ms := time.Millisecond
		for try := 1; ; try++ {
			l := c34drive(run, rr, g, as[i], pv, 150, ms, all)
			if l == nil {
				return
			}
			var ds []time.Duration
			for _, x := range l {
				if x.status != 0 {
					continue // above the rate
				}
				dr := x.resp.Sub(x.sent)
				ds = append(ds, dr)
				if dr < time.Duration(min)*ms {
					run.Fail("early", d, "%s: a message was answered %s after it was sent, the least delay is %d ms", pv, dr, min)
					return
				}
				if dp := x.reported.Sub(x.sent); x.reports > 0 && dp < time.Duration(min+fix)*ms {
					run.Fail("report-early", d, "%s: a report came %s after its message, the least delays are %d and %d ms", pv, dp, min, fix)
					return
				}
			}
			sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
			if len(ds) < 100 {
				run.Fail("refused", d, "%s: %d of %d messages far below the rate were refused", pv, len(l)-len(ds), len(l))
				return
			}
			med, span := ds[len(ds)/2], time.Duration(max-min)*ms
			mid := time.Duration(min+max) * ms / 2
			// the usual delay is about the middle, and the delays differ
			if bad := med > mid+span/4+100*ms || med < mid-span/4-ms || ds[len(ds)*9/10]-ds[len(ds)/10] < span/2; !bad {
				run.Max("median_above_the_middle_ms", (med - mid).Milliseconds())
				break
			}
			run.Count("late_attempts", 1)
			if try == 4 {
				run.Fail("late", d, "%s: with delays of %d to %d ms configured, half of the answers take more than %s (tenth %s, nine tenths %s)", pv, min, max, med, ds[len(ds)/10], ds[len(ds)*9/10])
				return
			}
		}
		run.Case(fmt.Sprint("delay", pv, d))
		run.Count("messages", 150)
	})
	alive(run, g, "submits")
}

// c34window: how many messages of one connection are in work at once.
func c34window(run *lib.Run, r *rand.Rand, rep int) {
	w := []int{1, 4, 2, 16, 3, 8}[rep%6]
	d := [][2]int{{100, 0}, {60, 40}}[r.Intn(2)]
	min, fix := d[0], d[1]
	g, as := c34start(run, r, e2e.Config{Success: 1, MinMs: min, MaxMs: min, ReportMs: fix}, w)
	if g == nil {
		return
	}
	defer g.Stop()
	par(len(gen.All), func(i int) {
		pv := gen.All[i]
		rr := rand.New(rand.NewSource(int64(rep*100 + i)))
		fix := fix
		if pv.Proto == refc.SGIP {
			fix = 0
		}
		ms := time.Millisecond
		n := 8*w + 1
		for try := 1; ; try++ {
			l := c34drive(run, rr, g, as[i], pv, n, ms, all)
			if l == nil {
				return
			}
			t0 := l[0].sent
			var at []time.Duration
			for _, x := range l {
				if x.status == 0 {
					at = append(at, x.resp.Sub(t0))
				}
			}
			sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
			if len(at) < n-n/4 {
				run.Fail("refused", d, "%s: %d of %d messages far below the rate were refused", pv, n-len(at), n)
				return
			}
			for k, t := range at {
				round := k / w // this many full windows have been through before
				if least := time.Duration((round+1)*min) * ms; t < least {
					run.Fail("window", map[string]any{"window": w, "delays": d}, "%s: the answer no. %d came after %s, but with a window of %d and a delay of %d ms it takes at least %s", pv, k+1, t, w, min, least)
					return
				}
			}
			// and that many are: the whole takes about as long as that bound
			rounds := (len(at) + w - 1) / w
			bound := time.Duration(rounds*(min+fix))*ms + 8*ms*time.Duration(n)
			if last := at[len(at)-1]; last <= bound+bound/2+300*ms {
				run.Max("over_the_bound_percent", int64(100*last/bound))
				break
			}
			run.Count("late_attempts", 1)
			if try == 4 {
				run.Fail("window-unused", map[string]any{"window": w, "delays": d}, "%s: %d messages take %s with a window of %d and a delay of %d+%d ms", pv, len(at), at[len(at)-1], w, min, fix)
				return
			}
		}
		run.Case(fmt.Sprint("window", pv, w, d))
		run.Count("messages", int64(n))
	})
	alive(run, g, "submits")
}
