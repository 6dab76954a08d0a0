package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C17"] = c17 }

// flow is the flow-control error of a protocol's submit response.
var flow = map[string]uint64{refc.CMPP: 8, refc.SGIP: 33, refc.SMGP: 1}

func c17() {
	run := lib.NewRun("C17", "exhaustive observation of sampled executions",
		"one evaluation: one submit sent to a live gateway whose clock the check moves, with its answer; every span between two sends is judged; distinct: protocol version × rate × burst × scenario × outcome")
	for rep := 0; rep < run.N(12, 150); rep++ {
		seed := run.Sub(fmt.Sprint("c17", rep)).Int63()
		par(len(gen.All), func(i int) { c17gateway(run, rand.New(rand.NewSource(seed+int64(i))), gen.All[i]) })
		if run.Failed() {
			break
		}
	}
	run.Finish()
}

type c17sub struct {
	sent, back time.Duration // virtual time: sent at the earliest, answered at the latest
	ok         bool
}

func c17gateway(run *lib.Run, r *rand.Rand, pv gen.PV) {
	cfg := e2e.Config{Success: 1, MaxMs: 1, Multicore: r.Intn(2) == 0, LogLevel: 2, Bin: "gwv"}
	type acct struct {
		a    e2e.Account
		rate int
	}
	var as []acct
	for i := 0; i < 6; i++ {
		t := []int{3, 7, 20, 50, 70, 150, 300, 700, 1500, 3000, 0}[r.Intn(11)]
		b := []int{1, 1, 2, 3, 8, 16, 50}[r.Intn(7)]
		a := account(pv, i, 3, b, t)
		cfg.Accounts = append(cfg.Accounts, a)
		if t == 0 {
			t = 100 // the default
		}
		as = append(as, acct{a, t})
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	var shifted time.Duration
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) + shifted }
	shift := func(d time.Duration) { g.Shift(d); shifted += d }
	for _, x := range as {
		for _, scen := range []string{"flood", "paced", "bursts", "relogin"} {
			if run.Failed() {
				return
			}
			c, err := e2e.Login(g, x.a, e2e.AutoClient)
			if err != nil {
				if alive(run, g, "login") {
					run.Fail("login", pv.String(), "%s: login not accepted: %v", pv, err)
				}
				return
			}
			rp := map[string]any{"protocol": pv.String(), "throughput": x.a.Tput, "window": x.a.Window, "scenario": scen}
			var subs []*c17sub
			gap := time.Second / time.Duration(x.rate)
			// send sends n submits at once and waits for the answers
			send := func(n int) bool {
				var b []byte
				seqs := map[string]*c17sub{}
				from := len(c.Evs())
				m := submit(r, pv)
				for i := 0; i < n; i++ {
					s := c.NewSeq()
					q := &c17sub{}
					seqs[fmt.Sprint(s)] = q
					subs = append(subs, q)
					b = append(b, refc.Frame(pv.Proto, pv.Ver, "submit", m, s...)...)
				}
				at := now()
				for _, q := range seqs {
					q.sent = at
				}
				if c.Write(b) != nil {
					run.Fail("closed", rp, "%s: a connection that submits over its limit is closed", pv)
					return false
				}
				got := 0
				c.Until(e2e.Watchdog(), func(evs []e2e.Ev, _ bool) bool {
					got = 0
					for _, e := range evs[from:] {
						if e.Kind == "submit_resp" {
							got++
						}
					}
					return got >= n
				})
				for _, e := range c.Evs()[from:] {
					if e.Kind != "submit_resp" {
						continue
					}
					q := seqs[e.SeqKey()]
					if q == nil || e.Err != nil {
						run.Fail("response", rp, "%s: unexpected submit response %x (%v)", pv, e.Raw, e.Err)
						return false
					}
					q.back = e.At.Sub(t0) + shifted
					q.ok = result(e) == 0
					if !q.ok && result(e) != flow[pv.Proto] {
						run.Fail("result", rp, "%s: a well-formed submit is answered with result %d, wanted 0 or the flow-control error %d", pv, result(e), flow[pv.Proto])
						return false
					}
					run.Case(fmt.Sprint(pv, x.a.Tput, x.a.Window, scen, q.ok))
					run.Count(map[bool]string{true: "accepted", false: "refused_for_flow_control"}[q.ok], 1)
				}
				if got < n {
					if alive(run, g, "submits over the limit") {
						run.Fail("dropped", rp, "%s: of %d submits sent at once (rate %d, burst %d) only %d are answered", pv, n, x.rate, x.a.Window, got)
					}
					return false
				}
				return true
			}
			ok, ended := true, false
			switch scen {
			case "relogin": // a login does not bring a new allowance
				for k := 0; k < 4 && ok && !ended; k++ {
					ok = send(x.a.Window + 2)
					if !ok {
						break
					}
					m := e2e.LoginM(x.a, uint32(r.Intn(1231235959)))
					code, err := c.LoginWith(m)
					if ended = err != nil || code != 0; ended {
						run.Count("second_logins_refused", 1)
						c.Close()
					} else {
						run.Count("second_logins_accepted", 1)
					}
				}
			case "flood":
				for k := 0; k < 12 && ok; k++ {
					ok = send(1 + r.Intn(x.a.Window*2+6))
					switch r.Intn(4) {
					case 0:
						shift(time.Duration(r.Int63n(int64(gap*time.Duration(x.a.Window+2)) + 1)))
					case 1:
						shift(gap * time.Duration(r.Intn(4)))
					case 2:
						shift(gap / 2)
					}
				}
			case "paced": // one at a time, the next one rate-interval after the answer
				for k := 0; k < 25 && ok; k++ {
					ok = send(1)
					if ok && !subs[len(subs)-1].ok {
						run.Fail("paced-refused", rp, "%s: a client below its rate of %d/s (burst %d) is refused for flow control (submit %d, %s after the answer to the one before)", pv, x.rate, x.a.Window, k, gap)
						ok = false
					}
					shift(gap + 100*time.Microsecond)
				}
			case "bursts": // the whole burst, then quiet until it is available again
				for k := 0; k < 5 && ok; k++ {
					n := len(subs)
					ok = send(x.a.Window)
					for _, q := range subs[n:] {
						if ok && !q.ok {
							run.Fail("burst-refused", rp, "%s: a burst of %d within the allowance is refused for flow control after %s of quiet", pv, x.a.Window, gap*time.Duration(x.a.Window))
							ok = false
						}
					}
					shift(gap*time.Duration(x.a.Window) + 100*time.Microsecond)
				}
			}
			if !ok {
				c.Close()
				return
			}
			// no span between two instants grants more than the burst plus the rate
			var acc []*c17sub
			for _, q := range subs {
				if q.ok {
					acc = append(acc, q)
				}
			}
			backs := make([]*c17sub, len(acc))
			copy(backs, acc)
			sort.Slice(acc, func(i, j int) bool { return acc[i].sent < acc[j].sent })
			for i, a := range acc {
				if i > 0 && acc[i-1].sent == a.sent {
					continue
				}
				var in []time.Duration
				for _, q := range acc[i:] {
					in = append(in, q.back)
				}
				sort.Slice(in, func(i, j int) bool { return in[i] < in[j] })
				for n, t1 := range in {
					span := t1 - a.sent
					max := int(math.Floor(float64(x.a.Window) + float64(x.rate)*span.Seconds() + 1e-6))
					if n+1 > max {
						run.Fail("over-rate", rp, "%s: %d submits were accepted within %s; rate %d/s and burst %d allow %d", pv, n+1, span, x.rate, x.a.Window, max)
						c.Close()
						return
					}
					run.Count("spans_judged", 1)
				}
			}
			if !ended {
				logout(c)
			}
			run.Sample(rp)
		}
	}
}
