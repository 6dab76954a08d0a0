package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"time"

	"verif/e2e"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C33"] = c33 }

func c33() {
	run := lib.NewRun("C33", "exhaustive observation of sampled executions",
		"one evaluation: one connection of a client to a gateway and the messages it carries while messages keep coming; distinct: protocol version × configured number of connections × interval of the sorting × before or after connections failed")
	n := run.N(16, 160)
	for i := 0; i < n && run.NFailed() < 5; i += 8 {
		par(8, func(k int) { c33rep(run, run.Sub(fmt.Sprint("c33", i+k)), i+k) })
	}
	run.Finish()
}

type loads struct {
	mu sync.Mutex
	m  map[*e2e.GwConn]int
}

func (x *loads) of(c *e2e.GwConn) int { x.mu.Lock(); defer x.mu.Unlock(); return x.m[c] }

// shares are the messages of a gateway's connections since base, the fewest first.
func (x *loads) shares(g *e2e.FakeGW, all []*e2e.GwConn, base map[*e2e.GwConn]int) (l []int, sum int) {
	for _, c := range all {
		if c.G == g {
			l = append(l, x.of(c)-base[c])
			sum += l[len(l)-1]
		}
	}
	sort.Ints(l)
	return
}

func c33rep(run *lib.Run, r *rand.Rand, rep int) {
	x := &loads{m: map[*e2e.GwConn]int{}}
	var gs []*e2e.FakeGW
	limit := map[*e2e.FakeGW]int{}
	for i, pv := range trio(rep) {
		pv := pv
		g := fake(pv, i, r.Intn(6), 10000, 20000)
		limit[g] = g.MaxConns
		if g.MaxConns == 0 {
			limit[g] = 2 // the default
		}
		g.Tick = []string{"5ms", "20ms", "50ms"}[r.Intn(3)]
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			switch e.Kind {
			case "active":
				_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "active_resp", refc.M{}, e.Seq...))
			case "submit":
				x.mu.Lock()
				x.m[c]++
				x.mu.Unlock()
				m := refc.M{"msgId": uint64(1)}
				if pv.Proto == refc.SMGP {
					m["msgId"] = make([]byte, 10)
				}
				_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "submit_resp", m, e.Seq...))
			}
		}
		gs = append(gs, g)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	send := func(k, workers, gap int) bool {
		var msgs []e2e.Msg
		for ; k > 0; k-- {
			g := gs[r.Intn(3)]
			msgs = append(msgs, e2e.Msg{Phones: []string{prefix[g.PV.Proto] + fmt.Sprintf("%08d", r.Intn(1e8))}, Text: "x"})
		}
		var sent []e2e.Sent
		if err := p.Call("batch", e2e.Batch{Msgs: msgs, Workers: workers, GapUs: gap}, &sent); err != nil {
			if alive(run, p, "send") {
				run.Fail("send", nil, "messages are not sent: %v", err)
			}
			return false
		}
		return true
	}
	chunk := func(k int) bool { return send(k, 2+r.Intn(4), 100+r.Intn(400)) }
	slow := func(k int) bool { return send(k, 2, 4000) }
	for phase := 0; phase < 3; phase++ {
		when := []string{"at first", "after one failed", "after all failed"}[phase]
		// all connections come
		dl := time.Now().Add(e2e.Watchdog())
		for {
			if !chunk(60) {
				return
			}
			full, state := true, ""
			for _, g := range gs {
				_, in := g.Live()
				full = full && len(in) >= limit[g]
				state += fmt.Sprintf(" %s %d of %d", g.PV, len(in), limit[g])
			}
			if full {
				break
			}
			if time.Now().After(dl) {
				run.Fail("not-all", when, "the client does not make as many connections as configured %s:%s", when, state)
				return
			}
		}
		// not more of them than configured
		over := func() bool {
			for _, g := range gs {
				if _, in := g.Live(); len(in) > limit[g] {
					return true
				}
			}
			return false
		}
		if over() {
			for t := time.Now(); over(); time.Sleep(20 * time.Millisecond) {
				if time.Since(t) > 5*time.Second {
					run.Fail("too-many", when, "the client keeps more connections than configured (%v) %s", limit, when)
					return
				}
			}
		}
		base := map[*e2e.GwConn]int{}
		var all []*e2e.GwConn
		for _, g := range gs {
			_, in := g.Live()
			all = append(all, in...)
		}
		for _, c := range all {
			base[c] = x.of(c)
		}
		// each carries messages
		dl = time.Now().Add(e2e.Watchdog())
		for rounds := 0; ; rounds++ {
			if !chunk(200) {
				return
			}
			least, state := 1<<30, ""
			for _, c := range all {
				if eof, _ := c.EOF(); eof {
					run.Fail("given-up", when, "%s: the client gives up a connection in service %s", c.G.PV, when)
					return
				}
				k := x.of(c) - base[c]
				if k < least {
					least = k
				}
				state += fmt.Sprintf(" %s#%d:%d", c.G.PV, c.N, k)
			}
			if least >= 10 {
				break
			}
			if time.Now().After(dl) {
				run.Fail("starved", when, "while messages keep coming, a connection in service carries %d of them in %v %s:%s", least, e2e.Watchdog(), when, state)
				return
			}
		}
		// by turns: in a while of many intervals no connection carries nearly all; a machine that is busy
		// elsewhere gets several attempts
		for try := 1; ; try++ {
			for _, c := range all {
				base[c] = x.of(c)
			}
			if !slow(1000) {
				return
			}
			even, state := true, ""
			for _, g := range gs {
				l, sum := x.shares(g, all, base)
				even = even && float64(l[len(l)-1]) <= float64(sum)*(1/float64(len(l))+0.3) && l[0] > 0
				state += fmt.Sprintf(" %s:%v", g.PV, l)
			}
			if even {
				break
			}
			run.Count("uneven_whiles", 1)
			if try == 5 {
				run.Fail("uneven", when, "messages keep going to the same one of a gateway's connections although others were used less, %s:%s", when, state)
				return
			}
		}
		for _, g := range gs {
			l, sum := x.shares(g, all, base)
			run.Case(fmt.Sprint(g.PV, g.MaxConns, g.Tick, when))
			run.Count("connections", int64(len(l)))
			run.Count("messages", int64(sum))
			run.Max(fmt.Sprintf("largest_share_of_%d_percent", len(l)), int64(100*l[len(l)-1]/sum))
			run.Sample(map[string]any{"gateway": g.PV.String(), "connections": len(l), "interval": g.Tick, "when": when, "messages": l})
		}
		// some fail
		for _, g := range gs {
			_, in := g.Live()
			if phase == 0 {
				in = in[r.Intn(len(in)):][:1]
			}
			for _, c := range in {
				if r.Intn(2) == 0 {
					c.Reset()
				} else {
					c.Close()
				}
			}
		}
	}
	bad(run, gs)
}
