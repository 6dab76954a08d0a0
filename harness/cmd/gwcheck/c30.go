package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C30"] = c30 }

func c30() {
	run := lib.NewRun("C30", "exhaustive observation of sampled executions",
		"one evaluation: one upstream message a connection received (or the whole stay of a connection that must not get any), compared with the gateway's settings and the account's attributes; distinct: protocol version × configured message × attributes of the account × part of the scenario")
	n := run.N(16, 200)
	for i := 0; i < n && run.NFailed() < 10; i++ {
		c30gateway(run, run.Sub(fmt.Sprint("c30", i)), i)
		if i%4 == 0 && run.NFailed() == 0 {
			c30rate(run, run.Sub(fmt.Sprint("c30rate", i)), []float64{0.1, 0.5, 0.25}[i/4%3])
		}
	}
	run.Finish()
}

type c30entry struct{ ext, text string }

// c30contents are the configured messages and their lines in the settings; some lines are none.
func c30contents(r *rand.Rand) (es []c30entry, lines []string) {
	n := 1 + r.Intn(7)
	for i := 0; i < n; i++ {
		e := c30entry{fmt.Sprintf("%d%s", i, gen.Digits(r, r.Intn(4))), gen.Text(r, []int{0, 1, 5, 30, 69, 70, 71, 90, 139, 140, 141, 160, 161, 200}[r.Intn(14)], r.Intn(3))}
		if strings.Contains(e.ext+"_,_"+e.text, "_,_,_") || strings.Contains(e.text, "_,_") || strings.HasPrefix(e.text, ",_") {
			e.text = "plain"
		}
		es = append(es, e)
		lines = append(lines, e.ext+"_,_"+e.text)
	}
	if r.Intn(2) == 0 {
		lines = append(lines, []string{"nothing to say", "", "_", "0010,hello"}[r.Intn(4)])
	}
	r.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
	return
}

// c30said is the text of a delivery; bad tells what is wrong with its coding.
func c30said(pv gen.PV, e e2e.Ev) (text, bad string) {
	b := e.M.B("content")
	switch f := e.M.U("fmt"); {
	case pv.Proto == refc.SMGP && f == 15:
		text = gen.FromGB(b)
	case pv.Proto == refc.CMPP && f == 8:
		if len(b)%2 != 0 {
			return "", "half a character"
		}
		text = gen.FromUCS2(b)
	case f == 0:
		text = string(b)
		if !gen.ASCII(text) {
			bad = "not the coding it says"
		}
	default:
		bad = fmt.Sprintf("coding %d", f)
	}
	if len(b) > 160 || len(b) > 140 && e.M.U("fmt") != 0 {
		bad = fmt.Sprintf("%d octets", len(b))
	}
	if !utf8.ValidString(text) {
		bad = "garbled text"
	}
	return
}

// c30fits tells whether a text is what a configured one becomes: itself, or its beginning where it is too long.
func c30fits(pv gen.PV, got, want string) bool {
	if got == want {
		return true
	}
	if !strings.HasPrefix(want, got) {
		return false
	}
	// characters that fit in any case
	limit := 70
	if pv.Proto == refc.CMPP && gen.ASCII(want) {
		limit = 160
	}
	size := func(s string) int { return len(gen.Octets(pv.Proto, s)) }
	n, room := utf8.RuneCountInString(got), 140
	if limit == 160 {
		room = 160
	}
	next := string([]rune(want)[n : n+1])
	if pv.Proto == refc.SMGP && n == 70 { // at most 70 characters, however short
		return true
	}
	return size(got)+size(next) > room
}

type c30conn struct {
	*e2e.Conn
	pv    gen.PV
	a     e2e.Account
	from  int
	quiet string // why it must not get anything
}

func (x *c30conn) deliveries(from int) (l []e2e.Ev) {
	for _, e := range x.Evs()[from:] {
		if e.Kind == "deliver" && e.M.U("isReport") != 1 {
			l = append(l, e)
		}
	}
	return
}

func c30gateway(run *lib.Run, r *rand.Rand, rep int) {
	es, lines := c30contents(r)
	cfg := e2e.Config{Success: 1, Multicore: r.Intn(2) == 0, LogLevel: 2, Tick: "4ms", Reload: "30ms", Deliver: true, DeliverRate: 1, Contents: lines}
	variant := []string{"on", "on", "on", "off", "on", "rate 0", "on", "no contents"}[rep%8]
	switch variant {
	case "off":
		cfg.Deliver = false
	case "rate 0":
		cfg.DeliverRate = -1 // a rate of exactly 0 is met by one throw of the dice in 10000
	case "no contents":
		cfg.Contents, es = []string{"no separator"}, nil
	}
	type job struct {
		pv   gen.PV
		a    e2e.Account
		auto func(*e2e.Conn, e2e.Ev)
	}
	var jobs []job
	for i, pv := range gen.All {
		for k := 0; k < 3; k++ {
			a := account(pv, 10*i+k, 3, 64, 1000)
			a.Display = "1069" + gen.Digits(r, r.Intn(17))
			a.Service = gen.Digits(r, r.Intn(11))
			cfg.Accounts = append(cfg.Accounts, a)
			auto := e2e.AutoClient
			if r.Intn(4) == 0 {
				auto = nil
			}
			jobs = append(jobs, job{pv, a, auto})
		}
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	var cs []*c30conn
	for i, j := range jobs {
		c, err := e2e.Login(g, j.a, j.auto)
		if err != nil {
			if alive(run, g, "login") {
				run.Fail("login", j.pv.String(), "%s: login not accepted: %v", j.pv, err)
			}
			return
		}
		defer c.Close()
		x := &c30conn{Conn: c, pv: j.pv, a: j.a}
		if j.pv.Proto == refc.SGIP {
			x.quiet = "SGIP sends upstream messages on connections of their own"
		} else if variant != "on" {
			x.quiet = variant
		}
		cs = append(cs, x)
		if i%5 == 0 { // one that does not log in
			c, err := e2e.Dial(g, j.pv.Proto, j.pv.Ver, nil)
			if err == nil {
				defer c.Close()
				cs = append(cs, &c30conn{Conn: c, pv: j.pv, a: j.a, quiet: "not logged in"})
			}
		}
	}
	// everything that comes while a while passes on every connection in service
	need := 60
	if variant != "on" {
		time.Sleep(400 * time.Millisecond)
		for _, x := range cs {
			if x.quiet != "not logged in" {
				x.probe(run, g)
			}
		}
	} else {
		for _, x := range cs {
			x := x
			if x.quiet != "" {
				continue
			}
			if !x.Until(e2e.Watchdog(), func(evs []e2e.Ev, eof bool) bool { return eof || len(x.deliveries(0)) >= need }) {
				if alive(run, g, "upstream messages") {
					run.Fail("missing", lines, "%s: only %d upstream messages came to a connection in service although each look at it should send one (configured %q)", x.pv, len(x.deliveries(0)), lines)
				}
				return
			}
		}
	}
	ids := map[string]bool{}
	for _, x := range cs {
		x.judge(run, es, lines, variant, ids, map[string]bool{x.a.Display: true})
	}
	if variant != "on" || run.Failed() {
		alive(run, g, "upstream messages")
		return
	}
	// every configured message is sent
	got := map[string]bool{}
	for _, x := range cs {
		for _, e := range x.deliveries(0) {
			for _, s := range es {
				if t, _ := c30said(x.pv, e); c30fits(x.pv, t, s.text) && e.M.S("dest") == gen.Cut(x.a.Display+s.ext, 21) {
					got[s.ext+s.text] = true
				}
			}
		}
	}
	for _, s := range es {
		if !got[s.ext+s.text] {
			run.Fail("never", s.text, "the configured message %q is never sent (in %d and more)", s.ext+"_,_"+s.text, need)
		}
	}
	// an account gets another number and service, another is removed
	var wg sync.WaitGroup
	for k, x := range cs {
		if x.quiet != "" || k%4 == 0 {
			continue
		}
		x, b := x, x.a
		old := x.a.Display
		x.from = len(x.Evs())
		if k%4 == 1 {
			g.Remove(x.a)
		} else {
			b.Display = "1068" + gen.Digits(r, r.Intn(15))
			b.Service = "n" + gen.Digits(r, r.Intn(8))
			g.Put(b)
		}
		gone := k%4 == 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			dl := time.Now().Add(e2e.Watchdog())
			for {
				at := len(x.Evs())
				if gone {
					time.Sleep(600 * time.Millisecond)
					if len(x.deliveries(at)) == 0 {
						run.Case(fmt.Sprint(x.pv, "removed"))
						break
					}
				} else {
					x.Until(2*time.Second, func(evs []e2e.Ev, eof bool) bool { return eof || len(x.deliveries(at)) >= 20 })
					l, fresh := x.deliveries(at), 0
					for _, e := range l {
						if strings.HasPrefix(e.M.S("dest"), gen.Cut(b.Display, 21)) && (x.pv.Proto != refc.CMPP || e.M.S("serviceId") == gen.Cut(b.Service, 10)) {
							fresh++
						}
					}
					if len(l) >= 20 && fresh == len(l) {
						run.Case(fmt.Sprint(x.pv, "changed", len(b.Display) > 15))
						break
					}
				}
				if eof, err := x.EOF(); eof {
					if alive(run, g, "upstream messages") {
						run.Fail("closed", nil, "%s: a connection in service was closed (%v)", x.pv, err)
					}
					return
				}
				if time.Now().After(dl) {
					if alive(run, g, "upstream messages") {
						run.Fail("stale", x.a.Id, "%s: upstream messages go on as before long after the account was changed (removed %v): number %s, now %s; last ones %v", x.pv, gone, old, b.Display, last(x.deliveries(at)))
					}
					return
				}
			}
			_ = old
			x.judgeFrom(run, x.from, es, "after a change", map[string]bool{old: true, b.Display: true}, map[string]bool{x.a.Service: true, b.Service: true})
		}()
	}
	wg.Wait()
	// a connection that logs out gets no more
	alive(run, g, "upstream messages")
	run.Sample(map[string]any{"contents": lines, "connections": len(cs), "variant": variant})
}

func last(l []e2e.Ev) string {
	if len(l) == 0 {
		return "none"
	}
	return fmt.Sprint(l[len(l)-1].M)
}

// probe has a round trip on a connection that must stay in service.
func (x *c30conn) probe(run *lib.Run, g *e2e.Gateway) {
	s, err := x.Send("submit", submit(rand.New(rand.NewSource(3)), x.pv))
	if err != nil || x.Resp("submit", s, e2e.Watchdog()) == nil {
		if alive(run, g, "upstream messages") {
			run.Fail("not-served", x.pv.String(), "%s: a connection in service is not served any more", x.pv)
		}
	}
}

// judge looks at everything a connection got.
func (x *c30conn) judge(run *lib.Run, es []c30entry, lines []string, variant string, ids, displays map[string]bool) {
	l := x.deliveries(0)
	if x.quiet != "" {
		run.Case(fmt.Sprint(x.pv, x.quiet))
		if len(l) > 0 {
			run.Fail("uncalled-for", x.quiet, "%s: an upstream message came (%s): %x", x.pv, x.quiet, l[0].Raw)
		}
		return
	}
	seqs := map[string]bool{}
	for _, e := range x.Evs() {
		if e.Err != nil {
			run.Fail("garbled", nil, "%s: garbled packet %x: %v", x.pv, e.Raw, e.Err)
			return
		}
		if e.Kind != "deliver" {
			continue
		}
		if seqs[e.SeqKey()] {
			run.Fail("sequence-repeated", nil, "%s: two upstream messages of one connection have the sequence number %s", x.pv, e.SeqKey())
		}
		seqs[e.SeqKey()] = true
		id := x.pv.Proto + c14id(x.pv, e)
		if ids[id] {
			run.Fail("id-repeated", nil, "%s: two upstream messages have the message id %s", x.pv, id)
		}
		ids[id] = true
	}
	x.judgeFrom(run, 0, es, variant, displays, map[string]bool{x.a.Service: true})
}

func (x *c30conn) judgeFrom(run *lib.Run, from int, es []c30entry, variant string, displays, services map[string]bool) {
	for _, e := range x.deliveries(from) {
		text, bad := c30said(x.pv, e)
		if bad != "" {
			run.Fail("coding", fmt.Sprintf("%x", e.Raw), "%s: an upstream message has %s: %x", x.pv, bad, e.Raw)
			return
		}
		hit := -1
		for i, s := range es {
			for d := range displays {
				if c30fits(x.pv, text, s.text) && e.M.S("dest") == gen.Cut(d+s.ext, 21) {
					hit = i
				}
			}
		}
		if hit < 0 {
			run.Fail("not-configured", fmt.Sprintf("%x", e.Raw), "%s: an upstream message to %q says %q, which is none of the configured ones (%v) to the account's number (%v)", x.pv, e.M.S("dest"), text, es, displays)
			return
		}
		if s := e.M.S("src"); s == "" || strings.Trim(s, "0123456789") != "" {
			run.Fail("sender", nil, "%s: an upstream message comes from %q", x.pv, s)
		}
		if x.pv.Proto == refc.CMPP {
			ok := false
			for s := range services {
				ok = ok || e.M.S("serviceId") == gen.Cut(s, 10)
			}
			if !ok {
				run.Fail("service", nil, "%s: an upstream message has the service %q instead of %v", x.pv, e.M.S("serviceId"), services)
			}
		}
		run.Case(fmt.Sprint(x.pv, variant, gen.Coding(es[hit].text), text == es[hit].text, len(text) == 0, len(x.a.Display) > 15))
		run.Count("upstream_messages", 1)
		if text != es[hit].text {
			run.Count("cut", 1)
		}
	}
}

// c30rate compares how much a gateway with a rate of p sends with what one that sends at each look does.
func c30rate(run *lib.Run, r *rand.Rand, p float64) {
	var gs []*e2e.Gateway
	var cs [2][]*c30conn
	for k, rate := range []float64{p, 1} {
		cfg := e2e.Config{Success: 1, Multicore: true, LogLevel: 2, Tick: "4ms", Deliver: true, DeliverRate: rate, Contents: []string{"1_,_hello"}}
		for i, pv := range gen.All {
			if pv.Proto != refc.SGIP {
				cfg.Accounts = append(cfg.Accounts, account(pv, i, 5, 64, 1000))
			}
		}
		g := start(run, cfg)
		if g == nil {
			return
		}
		defer g.Stop()
		gs = append(gs, g)
		for i := 0; i < 3; i++ {
			for _, a := range cfg.Accounts {
				c, err := e2e.Login(g, a, e2e.AutoClient)
				if err != nil {
					if alive(run, g, "login") {
						run.Fail("login", a.Id, "login not accepted: %v", err)
					}
					return
				}
				defer c.Close()
				cs[k] = append(cs[k], &c30conn{Conn: c})
			}
		}
	}
	count := func(k int) (n int) {
		for _, c := range cs[k] {
			n += len(c.deliveries(0))
		}
		return
	}
	some, all := count(0), count(1)
	for dl := time.Now().Add(e2e.Watchdog()); time.Now().Before(dl) && count(1)-all < 1500; {
		time.Sleep(50 * time.Millisecond)
	}
	some, all = count(0)-some, count(1)-all
	if !alive(run, gs[0], "upstream messages") || !alive(run, gs[1], "upstream messages") {
		return
	}
	ratio := float64(some) / float64(all)
	run.Case(fmt.Sprint("rate", p))
	run.Sample(map[string]any{"rate": p, "messages": some, "messages_at_rate_1": all})
	if all < 1500 || ratio < p/4 || ratio > (1+p)/2 {
		run.Fail("rate", p, "a gateway with a delivery rate of %g sent %d upstream messages while one with a rate of 1 sent %d", p, some, all)
	}
}
