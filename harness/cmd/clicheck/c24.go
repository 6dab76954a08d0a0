package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C24"] = c24 }

func c24() {
	run := lib.NewRun("C24", "exhaustive observation of sampled executions",
		"one evaluation: one message given to a client and where it arrived; every span between two sends is judged for the rate; distinct: scenario × segments × which of them cover the number × accepted or not, or scenario × rate × burst")
	n := run.N(48, 320)
	for i := 0; i < n && run.NFailed() < 5; i += 16 {
		par(16, func(k int) {
			r := run.Sub(fmt.Sprint("c24", i+k))
			switch (i + k) % 4 {
			case 0, 1:
				c24route(run, r, i+k)
			case 2:
				c24rate(run, r, i+k)
			default:
				c24wait(run, r, i+k)
			}
		})
	}
	run.Finish()
}

// arrivals is what reached the gateways, by the token in the text.
type arrivals struct {
	mu sync.Mutex
	m  map[string][]string
	n  int
}

var token = regexp.MustCompile(`<[0-9a-z.]+>`)

func (x *arrivals) watch(g *e2e.FakeGW, run *lib.Run, answer bool) {
	pv := g.PV
	g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
		if e.Kind != "submit" {
			return
		}
		b := e.M.B("content")
		t := token.FindString(string(b))
		if t == "" {
			t = token.FindString(gen.FromUCS2(b))
		}
		if t == "" && string(b) != "x" {
			run.Fail("content", nil, "%s: a submit has a content that was not sent: %q", pv, b)
		}
		x.mu.Lock()
		x.m[t+submitDest(e)] = append(x.m[t+submitDest(e)], pv.Proto)
		x.n++
		x.mu.Unlock()
		if answer {
			m := refc.M{"msgId": uint64(1)}
			if pv.Proto == refc.SMGP {
				m["msgId"] = make([]byte, 10)
			}
			_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "submit_resp", m, e.Seq...))
		}
	}
}

func (x *arrivals) at(tok, phone string) []string {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]string(nil), x.m[tok+phone]...)
}

// settle waits until everything a client wrote has arrived: each gateway reads in order, a last message per
// connection can not be forced, so the arrivals of all parts the handles show are awaited.
func (x *arrivals) settle(n int) bool {
	return poll(30*time.Second, func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.n >= n })
}

var c24segments = []string{"^138[0-9]{8}$", "^13[0-5]", "^13", ".*", "^(130|131|132)\\d{8}$", "^1(3[3-9]|49|53)\\d+$", "9$", "^\\+?86", "^[0-9]{11}$", "138", "^133", "^$", "^1[38]0", "^(?:86)?189\\d{8}$", "^13[0-9]{9}$", "^10[0-9]*$", "x"}

func c24phone(r *rand.Rand) string {
	switch r.Intn(10) {
	case 0:
		return "86" + []string{"189", "130", "138"}[r.Intn(3)] + gen.Digits(r, 8)
	case 1:
		return "+86" + "13" + gen.Digits(r, 9)
	case 2:
		return gen.Digits(r, 1+r.Intn(18))
	case 3:
		return "10" + gen.Digits(r, r.Intn(8))
	case 4:
		return "x" + gen.Digits(r, r.Intn(8))
	case 5:
		return "1" + gen.Digits(r, 10)
	}
	return []string{"130", "131", "133", "138", "139", "149", "153", "180", "189"}[r.Intn(9)] + gen.Digits(r, 8)
}

var order = []string{refc.CMPP, refc.SGIP, refc.SMGP}

// c24route: numbers against segments.
func c24route(run *lib.Run, r *rand.Rand, rep int) {
	x := &arrivals{m: map[string][]string{}}
	var gs []*e2e.FakeGW
	re := map[string]*regexp.Regexp{}
	for i, pv := range trio(rep) {
		if r.Intn(6) == 0 && len(gs) > 0 {
			continue // not configured
		}
		g := fake(pv, i, 1+r.Intn(3), 100000, 100000)
		g.Segment = c24segments[r.Intn(len(c24segments))]
		if r.Intn(5) < 2 {
			g.Segment = c24segments[[]int{1, 2, 3, 8, 14}[r.Intn(5)]]
		}
		if rep%4 == 0 {
			g.Segment = segment(pv.Proto)
		}
		re[pv.Proto] = regexp.MustCompile(g.Segment)
		x.watch(g, run, r.Intn(2) == 0)
		gs = append(gs, g)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	var msgs []e2e.Msg
	var toks []string
	n := run.N(600, 1500)
	for i := 0; i < n; i++ {
		m := e2e.Msg{}
		seen := map[string]bool{}
		for j := 0; j < []int{1, 1, 1, 2, 5}[r.Intn(5)]; j++ {
			ph := c24phone(r)
			if rep%2 == 0 && r.Intn(4) > 0 {
				ph = prefix[order[r.Intn(3)]] + gen.Digits(r, 8)
			}
			if !seen[ph] {
				seen[ph] = true
				m.Phones = append(m.Phones, ph)
			}
		}
		t := fmt.Sprintf("<%d.%d>", rep, i)
		m.Text = t + gen.Str(r, r.Intn(40))
		if r.Intn(3) == 0 {
			m.Text = t + "短信测试"
		}
		msgs, toks = append(msgs, m), append(toks, t)
	}
	var sent []e2e.Sent
	if err := p.Call("batch", e2e.Batch{Msgs: msgs, Workers: 1 + r.Intn(10)}, &sent); err != nil || len(sent) != len(msgs) {
		if alive(run, p, "send") {
			_ = p.Call("stacks", nil, nil)
			run.Fail("send", nil, "messages are not sent: %v", err)
		}
		return
	}
	var ids []int64
	for _, s := range sent {
		ids = append(ids, s.Id)
	}
	var shown []e2e.Shown
	if err := p.Call("query", ids, &shown); err != nil || len(shown) != len(ids) {
		if alive(run, p, "query") {
			run.Fail("query", nil, "queries do not return: %v", err)
		}
		return
	}
	want := 0
	for i := range shown {
		want += len(shown[i].Results)
	}
	x.settle(want)
	time.Sleep(100 * time.Millisecond) // for what must not arrive
	for i, m := range msgs {
		if sent[i].Panic != "" {
			run.Fail("send-panics", m, "sending panics: %s", sent[i].Panic)
			continue
		}
		parts := map[string]int{}
		for _, q := range shown[i].Results {
			parts[q.Phone]++
		}
		for _, ph := range m.Phones {
			to, cover := "", ""
			for _, o := range order {
				if re[o] != nil && re[o].MatchString(ph) {
					cover += o + " "
					if to == "" {
						to = o
					}
				}
			}
			at := x.at(toks[i], ph)
			seg := ""
			for _, g := range gs {
				seg += g.Segment + " "
			}
			run.Case(fmt.Sprint("route", seg, cover))
			run.Count(fmt.Sprintf("numbers_covered_by_%d", len(strings.Fields(cover))), 1)
			rp := map[string]any{"phone": ph, "segments": seg, "gateways": len(gs), "message": m}
			switch {
			case to == "" && len(at) > 0:
				run.Fail("routed-uncovered", rp, "a message to %q, which no gateway's segment covers, went to %v", ph, at)
			case to == "" && parts[ph] > 0:
				run.Fail("handle-uncovered", rp, "a message to %q, which no gateway's segment covers, is shown as sent", ph)
			case to != "" && len(at) == 0:
				run.Fail("lost", rp, "a message to %q did not reach the %s gateway (live connection, far below the rate)", ph, to)
			case to != "" && len(at) > 1:
				run.Fail("twice", rp, "a message to %q arrived %d times: %v", ph, len(at), at)
			case to != "" && at[0] != to:
				run.Fail("wrong-gateway", rp, "a message to %q, covered by %s, went to the %s gateway", ph, cover, at[0])
			case to != "" && parts[ph] != 1:
				run.Fail("handle", rp, "a message to %q was sent, its handle shows %d parts", ph, parts[ph])
			}
		}
	}
	bad(run, gs)
	run.Sample(msgs[0])
}

// c24rate: how many messages are accepted in every span of time.
func c24rate(run *lib.Run, r *rand.Rand, rep int) {
	x := &arrivals{m: map[string][]string{}}
	var gs []*e2e.FakeGW
	rate := map[string]int{}
	for i, pv := range trio(rep) {
		t := []int{4, 7, 30, 70, 150, 300, 700, 1500, 0}[r.Intn(9)]
		conns, window := 1+r.Intn(4), []int{1, 2, 5, 16, 40}[r.Intn(5)]
		switch (rep + i) % 3 { // the defaults: two connections, a burst of 16
		case 0:
			conns, window = 0, []int{1, 2, 5}[r.Intn(3)]
		case 1:
			window = 0
		}
		g := fake(pv, i, conns, window, t)
		if t == 0 {
			t = 100 // the default
		}
		rate[pv.Proto] = t
		x.watch(g, run, true)
		gs = append(gs, g)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2})
	if p == nil {
		return
	}
	for _, g := range gs {
		run.Count(fmt.Sprintf("gateways_connections_%d_burst_%d", g.MaxConns, g.Window), 1)
		if g.Window == 0 {
			g.Window = 16
		}
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	if !connect(run, r, p, gs) {
		return
	}
	k := 0
	for _, g := range gs {
		g := g
		for _, scen := range []string{"flood", "paced", "burst", "waves"} {
			if run.Failed() {
				return
			}
			t := rate[g.PV.Proto]
			// the bucket is full again
			time.Sleep(time.Duration(float64(g.Window+1)/float64(t)*1e9) + 20*time.Millisecond)
			var batches []e2e.Batch
			one := func() e2e.Msg {
				k++
				return e2e.Msg{Phones: []string{phone(r, g.PV.Proto)}, Text: fmt.Sprintf("<%d.%d>", rep, k)}
			}
			mk := func(n, workers, gap int) {
				b := e2e.Batch{Workers: workers, GapUs: gap}
				for i := 0; i < n; i++ {
					b.Msgs = append(b.Msgs, one())
				}
				batches = append(batches, b)
			}
			switch scen {
			case "flood": // far over the rate, from several goroutines, for about a second
				mk(g.Window+2000, 4, 2000)
			case "paced": // below the rate
				n := t
				if n > 150 {
					n = 150
				}
				if n < 6 {
					n = 6
				}
				mk(n, 1, 1050000/t+1)
			case "burst":
				mk(g.Window, g.Window, 0)
			default: // over the rate again and again after pauses
				for i := 0; i < 5; i++ {
					mk(2*g.Window+3, 1+r.Intn(5), 0)
				}
			}
			type call struct {
				m    e2e.Msg
				s    e2e.Sent
				sent bool
			}
			var calls []call
			for _, b := range batches {
				var sent []e2e.Sent
				if err := p.Call("batch", b, &sent); err != nil || len(sent) != len(b.Msgs) {
					if alive(run, p, "send") {
						run.Fail("send", nil, "messages are not sent: %v", err)
					}
					return
				}
				var ids []int64
				for _, s := range sent {
					ids = append(ids, s.Id)
				}
				var shown []e2e.Shown
				if p.Call("query", ids, &shown) != nil || len(shown) != len(ids) {
					run.Fail("query", nil, "queries do not return")
					return
				}
				for i := range sent {
					calls = append(calls, call{b.Msgs[i], sent[i], len(shown[i].Results) > 0})
				}
				if scen == "waves" {
					time.Sleep(time.Duration(r.Float64() * float64(g.Window) / float64(t) * 1e9))
				}
			}
			n := 0
			for _, c := range calls {
				if c.sent {
					n++
				}
			}
			run.Case(fmt.Sprint(scen, g.PV, t, g.Window))
			run.Count("accepted_"+scen, int64(n))
			run.Count("refused_"+scen, int64(len(calls)-n))
			rp := map[string]any{"protocol": g.PV.String(), "throughput": t, "burst": g.Window, "scenario": scen}
			if (scen == "paced" || scen == "burst") && n < len(calls) {
				run.Fail("refused "+scen, rp, "%s, rate %d/s, burst %d: %d of %d messages below the rate are not sent (%s)", g.PV, t, g.Window, len(calls)-n, len(calls), scen)
			}
			// every span: a message was accepted somewhere between the start and the end of its call
			var acc []call
			for _, c := range calls {
				if c.sent {
					acc = append(acc, c)
				}
			}
			sort.Slice(acc, func(i, j int) bool { return acc[i].s.End < acc[j].s.End })
			starts := make([]int64, len(acc))
			for i := range acc {
				starts[i] = acc[i].s.Start
			}
			tight := 0.0
			for i := range acc {
				n := 0
				for j := i; j < len(acc) && !run.Failed(); j++ {
					if acc[j].s.Start < starts[i] {
						continue
					}
					n++
					max := float64(g.Window) + float64(t)*float64(acc[j].s.End-starts[i])/1e9
					if f := float64(n) / max; f > tight {
						tight = f
					}
					if float64(n) > max+0.01 {
						run.Fail("rate "+scen, rp, "%s, rate %d/s, burst %d: %d messages were accepted within %v (%s)", g.PV, t, g.Window, n, time.Duration(acc[j].s.End-starts[i]), scen)
					}
				}
			}
			run.Max("tightest_span_percent", int64(tight*100))
			ok := poll(30*time.Second, func() bool {
				for _, c := range calls {
					if c.sent && len(x.at(c.m.Text, c.m.Phones[0])) == 0 {
						return false
					}
				}
				return true
			})
			for _, c := range calls {
				at := x.at(c.m.Text, c.m.Phones[0])
				switch {
				case len(at) > 1:
					run.Fail("twice", c.m, "%s: a message arrived %d times", g.PV, len(at))
				case len(at) == 1 && !c.sent:
					run.Fail("refused-but-sent", c.m, "%s: a message that the handle shows as not sent arrived", g.PV)
				case len(at) == 1 && at[0] != g.PV.Proto:
					run.Fail("wrong-gateway", c.m, "a message for %s went to %s", g.PV.Proto, at[0])
				case !ok && len(at) == 0 && c.sent:
					if alive(run, p, "rate") {
						run.Fail("lost", c.m, "%s: a message that the handle shows as sent did not arrive", g.PV)
					}
				}
			}
		}
	}
	bad(run, gs)
	alive(run, p, "rate")
}

// c24wait: messages sent while there is no connection.
func c24wait(run *lib.Run, r *rand.Rand, rep int) {
	x := &arrivals{m: map[string][]string{}}
	var gs []*e2e.FakeGW
	var hold int64 // how long the answer to a login takes
	type up struct {
		proto string
		at    time.Time
	}
	var mu sync.Mutex
	var ups []up
	for i, pv := range trio(rep) {
		pv := pv
		g := fake(pv, i, 1+r.Intn(3), 100000, 100000)
		x.watch(g, run, r.Intn(2) == 0)
		g.OnLogin = func(c *e2e.GwConn, e e2e.Ev) bool {
			time.Sleep(time.Duration(atomic.LoadInt64(&hold)))
			g.Accept(c, e)
			mu.Lock()
			ups = append(ups, up{pv.Proto, time.Now()})
			mu.Unlock()
			return true
		}
		gs = append(gs, g)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	if !connect(run, r, p, gs) {
		return
	}
	k := 0
	for round := 0; round < run.N(3, 6) && !run.Failed(); round++ {
		atomic.StoreInt64(&hold, int64(r.Intn(1200))*1e6)
		if round == 2 {
			atomic.StoreInt64(&hold, int64(5*time.Second)) // longer than messages wait
		}
		// a gateway asks for logout: when it sees the end of the connection, the client uses it no more
		for _, g := range gs {
			_, in := g.Live()
			for _, c := range in {
				if _, err := c.Send(e2e.LogoutKind(g.PV.Proto), refc.M{}); err != nil || !c.WaitEOF(e2e.Watchdog()) {
					if alive(run, p, "logout") {
						run.Fail("logout", nil, "%s: a connection stays open after the gateway's logout", g.PV)
					}
					return
				}
			}
		}
		var msgs []e2e.Msg
		for i := 0; i < 60; i++ {
			k++
			msgs = append(msgs, e2e.Msg{Phones: []string{phone(r, order[r.Intn(3)])}, Text: fmt.Sprintf("<%d.%d>", rep, k)})
		}
		var sent []e2e.Sent
		if err := p.Call("batch", e2e.Batch{Msgs: msgs, Workers: 20}, &sent); err != nil || len(sent) != len(msgs) {
			if alive(run, p, "send") {
				run.Fail("send", nil, "messages are not sent: %v", err)
			}
			return
		}
		var ids []int64
		for _, s := range sent {
			ids = append(ids, s.Id)
		}
		var shown []e2e.Shown
		if p.Call("query", ids, &shown) != nil || len(shown) != len(ids) {
			run.Fail("query", nil, "queries do not return")
			return
		}
		ok := poll(30*time.Second, func() bool {
			for i, m := range msgs {
				if len(shown[i].Results) > 0 && len(x.at(m.Text, m.Phones[0])) == 0 {
					return false
				}
			}
			return true
		})
		for i, m := range msgs {
			at := x.at(m.Text, m.Phones[0])
			proto := order[0]
			for _, o := range order {
				if strings.HasPrefix(m.Phones[0], prefix[o]) {
					proto = o
				}
			}
			waited := time.Duration(sent[i].End - sent[i].Start)
			n := len(shown[i].Results)
			what := "sent at once"
			if n == 0 {
				what = "not sent"
			} else if waited > 20*time.Millisecond {
				what = "sent after waiting"
			}
			run.Case(fmt.Sprint("wait", proto, what, round == 2))
			run.Count("messages_"+strings.ReplaceAll(what, " ", "_"), 1)
			switch {
			case sent[i].Panic != "":
				run.Fail("send-panics", m, "sending panics: %s", sent[i].Panic)
			case len(at) > 1:
				run.Fail("twice", m, "a message that waited for a connection arrived %d times", len(at))
			case n == 0 && len(at) > 0:
				run.Fail("refused-but-sent", m, "a message that the handle shows as not sent arrived")
			case n > 0 && len(at) == 0 && !ok && alive(run, p, "waiting"):
				run.Fail("lost", m, "a message that waited for a connection is shown as sent but did not arrive")
			case len(at) == 1 && at[0] != proto:
				run.Fail("wrong-gateway", m, "a message for %s went to %s", proto, at[0])
			case n == 0:
				// given up although a connection came up soon after the call
				start := time.Unix(0, sent[i].Wall).Add(-waited)
				mu.Lock()
				for _, u := range ups {
					if u.proto == proto && u.at.After(start) && u.at.Sub(start) < time.Second && waited < 2*time.Second {
						run.Fail("given-up", m, "a message was given up after %v although a connection was up %v after the call", waited, u.at.Sub(start))
						break
					}
				}
				mu.Unlock()
			}
		}
		atomic.StoreInt64(&hold, 0)
		if !poll(e2e.Watchdog(), func() bool {
			for _, g := range gs {
				if _, in := g.Live(); len(in) < g.MaxConns {
					return p.Dead()
				}
			}
			return true
		}) {
			run.Fail("connections", nil, "the client does not open its connections again")
			return
		}
	}
	bad(run, gs)
	alive(run, p, "waiting")
}
