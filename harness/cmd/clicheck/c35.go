package main

import (
	"fmt"
	"math/rand"
	"sync/atomic"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C35"] = c35 }

// c35 watches the memory of a client over rounds of messages that expire and connections that fail.
func c35() {
	run := lib.NewRun("C35", "exhaustive observation of sampled executions",
		"one evaluation: the memory and goroutines of a client after a round of messages has expired, compared with earlier rounds; distinct: protocol versions × share never answered × share refused × repeated answers × failing connections × result handler or none")
	n := run.N(12, 72)
	for i := 0; i < n && run.NFailed() < 3; i += 6 {
		par(6, func(k int) { c35rep(run, run.Sub(fmt.Sprint("c35", i+k)), i+k) })
	}
	run.Finish()
}

func c35rep(run *lib.Run, r *rand.Rand, rep int) {
	deaf := []int{0, 30, 100}[r.Intn(3)] // percent
	refuse := []int{0, 50}[r.Intn(2)]
	report := []int{0, 50, 100}[r.Intn(3)]
	twice := r.Intn(2) == 0
	churn := rep%2 == 0
	handler := rep%3 != 0
	conf := fmt.Sprintf("never answered %d%%, refused %d%%, reported %d%%, answers repeated %v, connections fail %v, handler %v", deaf, refuse, report, twice, churn, handler)
	var parts, ids atomic.Int64
	var gs []*e2e.FakeGW
	for i, pv := range trio(rep) {
		pv := pv
		g := fake(pv, i, 1+r.Intn(3), 10000, 20000)
		g.Tick = "20ms"
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			switch e.Kind {
			case "active":
				_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "active_resp", refc.M{}, e.Seq...))
			case "submit":
				parts.Add(1)
				x := ids.Add(1)
				h := int(uint64(x)*2654435761>>7) % 100 // the same for every run, no shared random source
				if h < deaf {
					return
				}
				raw := []byte(fmt.Sprintf("%010d", x))
				k := 1
				if twice {
					k = 2
				}
				var out []byte
				for ; k > 0; k-- {
					p := &part{pv: pv, raw: raw}
					if (h*7+3)%100 < refuse {
						p.result = uint32(1 + h%9)
					}
					out = append(out, refc.Frame(pv.Proto, pv.Ver, "submit_resp", respM(p), e.Seq...)...)
					if pv.Proto != refc.SGIP && (h*13+5)%100 < report {
						rr := rand.New(rand.NewSource(x))
						out = append(out, refc.Frame(pv.Proto, pv.Ver, "deliver", reportM(rr, pv, raw, "DELIVRD", submitDest(e)), uint32(x))...)
					}
					raw = []byte(fmt.Sprintf("%05d%05d", x%99991, x%99989)) // the repeated answer names another message
				}
				_ = c.Write(out)
			}
		}
		gs = append(gs, g)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2, Expire: "400ms", Check: "50ms"})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	if err := p.Call("forget", handler, nil); err != nil {
		run.Fail("expire", conf, "results do not expire: %v", err)
		return
	}
	round := func(k int) bool {
		var msgs []e2e.Msg
		for ; k > 0; k-- {
			g := gs[r.Intn(3)]
			m := e2e.Msg{Text: gen.Str(r, 1+r.Intn(60))}
			for n := 1 + r.Intn(2); n > 0; n-- {
				m.Phones = append(m.Phones, prefix[g.PV.Proto]+gen.Digits(r, 8))
			}
			if r.Intn(10) == 0 {
				m.Text = text(r, 1)
			}
			if r.Intn(10) == 0 { // of no gateway
				m.Phones = []string{"999" + gen.Digits(r, 5)}
			}
			msgs = append(msgs, m)
		}
		for len(msgs) > 0 {
			n := 500
			if n > len(msgs) {
				n = len(msgs)
			}
			var sent []e2e.Sent
			if err := p.Call("batch", e2e.Batch{Msgs: msgs[:n], Workers: 4, GapUs: 100}, &sent); err != nil {
				if alive(run, p, "send") {
					run.Fail("send", conf, "messages are not sent: %v", err)
				}
				return false
			}
			msgs = msgs[n:]
			if churn { // connections fail, some of them while messages come
				for _, g := range gs {
					_, in := g.Live()
					for _, c := range in {
						if r.Intn(2) == 0 {
							c.Reset()
						} else {
							c.Close()
						}
					}
				}
				for t := time.Now(); time.Since(t) < e2e.Watchdog(); time.Sleep(20 * time.Millisecond) {
					back := true
					for _, g := range gs {
						_, in := g.Live()
						back = back && len(in) > 0
					}
					if back {
						break
					}
				}
			}
		}
		return true
	}
	full := func() (ok bool, s string) {
		ok = true
		for _, g := range gs {
			_, in := g.Live()
			n := g.MaxConns
			ok = ok && len(in) >= n
			s += fmt.Sprintf(" %s %d of %d", g.PV, len(in), n)
		}
		return
	}
	settle := func(enough func(e2e.Mem) bool) (m e2e.Mem, ok bool) {
		for t := time.Now(); time.Since(t) < e2e.Watchdog(); time.Sleep(300 * time.Millisecond) {
			if err := p.Call("mem", nil, &m); err != nil {
				if alive(run, p, "expiry") {
					run.Fail("mem", conf, "the client process does not answer: %v", err)
				}
				return m, false
			}
			if in, _ := full(); in && enough(m) {
				return m, true
			}
		}
		return m, true
	}
	// the level it settles at, with all its connections: the least of several looks
	for i := 0; i < 2; i++ {
		if !round(700) {
			return
		}
	}
	looks, low := 0, e2e.Mem{Objects: 1 << 60}
	if _, ok := settle(func(m e2e.Mem) bool {
		if looks++; m.Objects < low.Objects {
			low = m
		}
		return looks >= 6 && m.Objects < low.Objects+low.Objects/20
	}); !ok {
		return
	}
	base := parts.Load()
	for i := 0; i < 4; i++ {
		if !round(run.N(1000, 3000)) {
			return
		}
	}
	n := parts.Load() - base
	if n < 1000 {
		run.Fail("not-sent", conf, "only %d parts of 4000 messages were sent", n)
		return
	}
	bound, gos := low.Objects+n/10+500, low.Goroutines+8
	m, ok := settle(func(m e2e.Mem) bool { return m.Objects < bound && m.Goroutines <= gos })
	if !ok {
		return
	}
	if in, s := full(); !in {
		run.Fail("connections", conf, "the client does not have its connections:%s", s)
		return
	}
	if m.Objects >= bound {
		run.Fail("memory-kept", conf, "after %d more parts have expired the client holds %d objects (%d octets), before it was %d (%d octets): %s", n, m.Objects, m.Octets, low.Objects, low.Octets, conf)
	}
	if m.Goroutines > gos {
		_ = p.Call("stacks", nil, nil)
		run.Fail("goroutines-kept", conf, "the client has %d goroutines, earlier it had %d: %s", m.Goroutines, low.Goroutines, conf)
	}
	run.Case(fmt.Sprint(gs[0].PV, gs[2].PV, conf))
	run.Count("parts", parts.Load())
	run.Count("handled", m.Handled)
	conns := 0
	for _, g := range gs {
		conns += len(g.Conns())
	}
	run.Count("connections", int64(conns))
	run.Max("most_objects_kept_per_100_parts", (m.Objects-low.Objects)*100/n)
	run.Max("most_objects_before", low.Objects)
	run.Sample(map[string]any{"configuration": conf, "parts": n, "objects_before": low.Objects, "objects_after": m.Objects, "goroutines_before": low.Goroutines, "goroutines_after": m.Goroutines, "connections": conns})
	bad(run, gs)
}
