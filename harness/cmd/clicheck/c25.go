package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
)

func init() { checks["C25"] = c25 }

func c25() {
	run := lib.NewRun("C25", "exhaustive observation of sampled executions",
		"one evaluation: one transmitted part and the calls of the result handler it was in; distinct: clock × lifetime × interval of the expiry check × number of parts × what was known of the part × duration of the handler")
	n := run.N(32, 240)
	for i := 0; i < n && run.NFailed() < 5; i += 16 {
		par(16, func(k int) {
			r := run.Sub(fmt.Sprint("c25", i+k))
			if (i+k)%3 == 2 {
				c25virtual(run, r, i+k)
			} else {
				c25real(run, r, i+k)
			}
		})
	}
	run.Finish()
}

// c25client is a client with its gateways, and everything seen of its results.
type c25client struct {
	run  *lib.Run
	p    *e2e.Proc
	gs   []*e2e.FakeGW
	a    *answerer
	mu   sync.Mutex
	msgs map[int64]e2e.Msg
	sent map[int64]e2e.Sent
	last map[int64][]e2e.Result // what a query showed last
	gone map[int64]int64        // the first query that showed nothing any more
	life time.Duration
	virt bool
	db   *e2e.FakeMongo // where results are kept, instead of a handler
}

func newC25(run *lib.Run, r *rand.Rand, rep int, life, check time.Duration, virt bool, slow int, db ...*e2e.FakeMongo) *c25client {
	a := newAnswerer(rand.New(rand.NewSource(r.Int63())))
	a.mix = true
	a.deaf = []int{0, 10, 40}[r.Intn(3)]
	c := &c25client{run: run, a: a, life: life, virt: virt, msgs: map[int64]e2e.Msg{}, sent: map[int64]e2e.Sent{}, last: map[int64][]e2e.Result{}, gone: map[int64]int64{}}
	for i, pv := range trio(rep) {
		g := fake(pv, i, 1+r.Intn(3), 100000, 100000)
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			if e.Kind == "submit" {
				a.onSubmit(c, e)
			}
		}
		c.gs = append(c.gs, g)
	}
	cfg := e2e.ClientConfig{GW: c.gs, LogLevel: 2, Expire: life.String(), Check: check.String()}
	if life == 0 {
		cfg.Expire = "0s" // the default of a minute
	}
	if virt {
		cfg.Bin = "cliv"
	}
	if len(db) > 0 {
		c.db = db[0]
		cfg.Extra, cfg.Env = e2e.MongoConfig(c.db.Port), e2e.MongoEnv
	}
	if c.p = start(run, cfg); c.p == nil {
		return nil
	}
	if life == 0 {
		c.life = time.Minute
	}
	op := "expire"
	if c.db != nil {
		op = "journal"
	}
	if err := c.p.Call(op, slow, nil); err != nil {
		run.Fail(op, nil, "expired results are not handled: %v: %s", err, c.p.Tail(800))
		c.stop()
		return nil
	}
	return c
}

func (c *c25client) stop() {
	c.p.Stop()
	for _, g := range c.gs {
		g.Stop()
	}
}

// send sends messages; false when that fails.
func (c *c25client) send(r *rand.Rand, n int) bool {
	msgs := messages(r, n)
	for i := range msgs {
		if r.Intn(12) == 0 { // nobody's number: nothing is transmitted, nothing expires
			msgs[i].Phones = []string{"999" + gen.Digits(r, 5)}
		}
	}
	var sent []e2e.Sent
	if err := c.p.Call("batch", e2e.Batch{Msgs: msgs, Workers: 1 + r.Intn(8)}, &sent); err != nil || len(sent) != len(msgs) {
		if alive(c.run, c.p, "send") {
			_ = c.p.Call("stacks", nil, nil)
			c.run.Fail("send", nil, "messages are not sent: %v", err)
		}
		return false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, s := range sent {
		if s.Panic != "" {
			c.run.Fail("send-panics", msgs[i], "sending panics: %s", s.Panic)
		}
		c.msgs[s.Id], c.sent[s.Id] = msgs[i], s
	}
	return true
}

// query looks at all handles once.
func (c *c25client) query() bool {
	c.mu.Lock()
	var ids []int64
	for id := range c.sent {
		ids = append(ids, id)
	}
	c.mu.Unlock()
	var shown []e2e.Shown
	if err := c.p.Call("query", ids, &shown); err != nil || len(shown) != len(ids) {
		if alive(c.run, c.p, "query") {
			c.run.Fail("query", nil, "queries do not return: %v", err)
		}
		return false
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, id := range ids {
		q, s := shown[i], c.sent[id]
		p := c.last[id]
		c.run.Count("queries", 1)
		if len(q.Results) == 0 {
			if len(p) > 0 && c.gone[id] == 0 {
				c.gone[id] = q.Start
			}
			n := c.parts(c.msgs[id])
			if n > 0 && !c.virt && time.Duration(q.End-s.Start) < c.life {
				c.run.Fail("too-early", c.msgs[id], "a result is not found %v after it was sent, its lifetime is %v", time.Duration(q.End-s.Start), c.life)
			}
			continue
		}
		if c.gone[id] != 0 {
			c.run.Fail("came-back", c.msgs[id], "handle %d shows results again after it had expired", id)
		}
		c.last[id] = q.Results
	}
	return true
}

// parts is the number of parts of a message that reached a gateway.
func (c *c25client) parts(m e2e.Msg) (n int) {
	c.a.mu.Lock()
	defer c.a.mu.Unlock()
	for _, ph := range m.Phones {
		n += len(c.a.parts[ph])
	}
	return
}

func (c *c25client) total() (n int) {
	for _, m := range c.msgs {
		n += c.parts(m)
	}
	return
}

func (c *c25client) expired() (l []e2e.Expired, n int) {
	if c.db != nil {
		return journal(c)
	}
	if err := c.p.Call("expired", nil, &l); err != nil {
		alive(c.run, c.p, "expiry")
	}
	for _, x := range l {
		n += len(x.Results)
	}
	return
}

// judge compares what the handler got with what was sent, after everything expired.
func (c *c25client) judge(key string) {
	run := c.run
	want := c.total()
	if !poll(e2e.Watchdog(), func() bool { _, n := c.expired(); return n >= want || c.p.Dead() }) && alive(run, c.p, "expiry") {
		_, n := c.expired()
		_ = c.p.Call("stacks", nil, nil)
		run.Fail("not-handled", nil, "%d parts were sent and expired, the handler got %d results", want, n)
	}
	time.Sleep(300 * time.Millisecond) // for what must not come again
	for _, g := range c.gs {           // late answers change nothing
		_, in := g.Live()
		for _, x := range in {
			barrier(x)
		}
	}
	if !poll(e2e.Watchdog(), func() bool {
		if !c.query() {
			return true
		}
		for id, m := range c.msgs {
			if c.parts(m) > 0 && len(c.last[id]) > 0 && c.gone[id] == 0 {
				return false
			}
		}
		return true
	}) && alive(run, c.p, "expiry") {
		run.Fail("still-found", nil, "a result is still found by a query after it was handed to the handler")
	}
	l, _ := c.expired()
	type key2 struct {
		id  int64
		seq uint64
	}
	got := map[key2][]e2e.Result{}
	for _, x := range l {
		run.Count("handler_calls", 1)
		run.Max("largest_handler_call", int64(len(x.Results)))
		for _, q := range x.Results {
			k := key2{q.QueryId, q.SequenceId}
			got[k] = append(got[k], q)
			if _, ok := c.msgs[q.QueryId]; !ok {
				run.Fail("unknown-result", q, "the handler got a result of no message: %+v", q)
				continue
			}
			// the first part of the message decides
			first := q.SendTime
			if s := c.sent[q.QueryId]; len(c.last[q.QueryId]) == 0 {
				first = time.Unix(0, s.Wall-(s.End-s.Start)) // not known better
			}
			for _, y := range c.last[q.QueryId] {
				if y.SendTime.Before(first) {
					first = y.SendTime
				}
			}
			if age := time.Unix(0, x.Wall).Sub(first); age < c.life-5*time.Millisecond {
				run.Fail("handled-early", q, "the handler got a result %v after it was sent, the lifetime is %v", age, c.life)
			}
		}
	}
	for id, m := range c.msgs {
		c.a.mu.Lock()
		var ps []*part
		for _, ph := range m.Phones {
			ps = append(ps, c.a.parts[ph]...)
		}
		c.a.mu.Unlock()
		last := map[uint64]e2e.Result{}
		for _, q := range c.last[id] {
			last[q.SequenceId] = q
		}
		for _, pt := range ps {
			h := got[key2{id, pt.seq}]
			o, seen := last[pt.seq]
			state := "never seen"
			switch {
			case seen && o.Report != "":
				state = "reported"
			case seen && !o.ResponseTime.IsZero():
				state = "answered"
			case seen:
				state = "sent"
			}
			run.Case(fmt.Sprint(key, len(ps) > 1, state, pt.via))
			run.Count("parts_"+state, 1)
			if len(h) != 1 {
				run.Fail(fmt.Sprintf("handled %d times", len(h)), map[string]any{"message": m, "handle": id}, "%s: a part of handle %d was handed to the handler %d times (%s)", pt.pv, id, len(h), state)
				continue
			}
			x := h[0]
			if x.Phone != pt.phone || !x.ResponseTime.IsZero() && (x.Result != pt.result || !sameHex(x.MsgId, pt.msgId)) || !x.ReportTime.IsZero() && x.Report != pt.report {
				run.Fail("wrong-state", map[string]any{"handled": x, "phone": pt.phone, "result": pt.result, "id": pt.msgId, "report": pt.report}, "%s: the handler got a state that the gateway did not answer", pt.pv)
			}
			if pt.via == "never answered" && !x.ResponseTime.IsZero() {
				run.Fail("wrong-state", x, "%s: the handler got a response that the gateway never gave", pt.pv)
			}
			if seen && (!o.ResponseTime.IsZero() && x.ResponseTime.IsZero() || !o.ReportTime.IsZero() && x.ReportTime.IsZero()) {
				run.Fail("stale-state", map[string]any{"handled": x, "shown before": o}, "%s: the handler got an older state than a query had shown before", pt.pv)
			}
		}
	}
	n := 0
	for _, x := range got {
		n += len(x)
	}
	if n != want && alive(run, c.p, "expiry") {
		run.Fail("number", nil, "%d parts were sent, the handler got %d results", want, n)
	}
	bad(run, c.gs)
}

func sameHex(a, b string) bool { return len(a) == len(b) && (a == b || fold(a) == fold(b)) }

func fold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// c25real: sending goes on while results expire.
func c25real(run *lib.Run, r *rand.Rand, rep int, db ...*e2e.FakeMongo) {
	life := time.Duration(900+r.Intn(1500)) * time.Millisecond
	check := time.Duration([]int{5, 50, 200, 500}[r.Intn(4)]) * time.Millisecond
	slow := []int{0, 0, 3, 60}[r.Intn(4)]
	c := newC25(run, r, rep, life, check, false, slow, db...)
	if c == nil {
		return
	}
	defer c.stop()
	stop, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			case <-time.After(60 * time.Millisecond):
				if !c.query() {
					return
				}
			}
		}
	}()
	for i := 0; i < run.N(12, 30); i++ {
		n := 1 + r.Intn(60)
		if r.Intn(4) == 0 {
			n = 150 // several calls of the handler in one check
		}
		if !c.send(r, n) {
			break
		}
		time.Sleep(time.Duration(r.Intn(500)) * time.Millisecond)
	}
	c.a.wg.Wait()
	close(stop)
	<-done
	if run.NFailed() < 5 && !c.p.Dead() {
		c.judge(fmt.Sprint("real ", check, slow))
	}
}

// c25virtual: long lifetimes under a clock that the check moves.
func c25virtual(run *lib.Run, r *rand.Rand, rep int, db ...*e2e.FakeMongo) {
	life := []time.Duration{0, 30 * time.Minute, 24 * time.Hour, 72 * time.Hour}[rep/3%4]
	c := newC25(run, r, rep, life, 20*time.Millisecond, true, 0, db...)
	if c == nil {
		return
	}
	defer c.stop()
	life = c.life
	shift := func(d time.Duration) { _ = c.p.Call("shift", d, nil) }
	if !c.send(r, 80) {
		return
	}
	c.a.wg.Wait()
	first := map[int64]bool{}
	for id := range c.sent {
		first[id] = true
	}
	// up to a tenth short of the lifetime everything stays
	for i := 0; i < 3; i++ {
		shift(life * 3 / 10)
		time.Sleep(100 * time.Millisecond)
		if !c.query() {
			return
		}
		for id := range first {
			if c.parts(c.msgs[id]) > 0 && len(c.last[id]) == 0 || c.gone[id] != 0 {
				run.Fail("virtual-early", c.msgs[id], "a result is not found after %d tenths of its lifetime of %v", 3*(i+1), life)
			}
		}
	}
	if _, n := c.expired(); n > 0 {
		run.Fail("virtual-early", nil, "%d results were handed to the handler after nine tenths of their lifetime of %v", n, life)
	}
	// later messages; then only the first ones expire
	if !c.send(r, 80) {
		return
	}
	c.a.wg.Wait()
	shift(life / 5)
	want := 0
	for id := range first {
		want += c.parts(c.msgs[id])
	}
	if !poll(e2e.Watchdog(), func() bool { _, n := c.expired(); return n >= want || c.p.Dead() }) && alive(run, c.p, "expiry") {
		_, n := c.expired()
		run.Fail("virtual-late", nil, "%d parts outlived their lifetime of %v, the handler got %d results", want, life, n)
	}
	if !c.query() {
		return
	}
	for id := range c.sent {
		if !first[id] && c.parts(c.msgs[id]) > 0 && (len(c.last[id]) == 0 || c.gone[id] != 0) {
			run.Fail("virtual-early", c.msgs[id], "a result is not found after two tenths of its lifetime of %v", life)
		}
	}
	shift(life)
	if run.NFailed() < 5 {
		c.judge(fmt.Sprint("virtual ", life))
	}
}
