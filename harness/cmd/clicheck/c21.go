package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C21"] = c21 }

func c21() {
	run := lib.NewRun("C21", "exhaustive observation of sampled executions",
		"one evaluation: one transmitted part, its result as shown by the handle compared with what the gateway answered; distinct: protocol version × order of the answers × result × way of the report × number of parts")
	n := run.N(24, 200)
	for i := 0; i < n && !run.Failed(); i += 4 {
		par(4, func(k int) { c21rep(run, run.Sub(fmt.Sprint("c21", i+k)), i+k) })
	}
	run.Finish()
}

// part is a submit that reached a gateway, and what it was answered.
type part struct {
	pv     gen.PV
	phone  string
	seq    uint64
	conn   int
	msgId  string // as a query shows it
	raw    []byte
	result uint32
	report string
	via    string
	mode   string
}

func seq64(pv gen.PV, s []uint32) uint64 {
	if pv.Proto == refc.SGIP {
		return uint64(s[1])<<32 | uint64(s[2])
	}
	return uint64(s[0])
}

var c21modes = []string{"at once", "delayed", "reverse", "shuffled", "twice"}
var c21stats = []string{"DELIVRD", "EXPIRED", "UNDELIV", "REJECTD", "UNKNOWN", "MA:0001", "ACCEPTD", "DELETED"}

// answerer decides what the gateways answer and keeps the record of it.
type answerer struct {
	mu    sync.Mutex
	r     *rand.Rand
	parts map[string][]*part // by phone
	bySeq map[string]bool
	queue map[*e2e.GwConn][]func()
	mode  string
	mix   bool
	deaf  int // percentage of messages that are never answered
	wg    sync.WaitGroup
	dup   []string
	n     int
}

func newAnswerer(r *rand.Rand) *answerer {
	return &answerer{r: r, parts: map[string][]*part{}, bySeq: map[string]bool{}, queue: map[*e2e.GwConn][]func(){}}
}

func (a *answerer) newId(pv gen.PV) (string, []byte) {
	b := gen.Bytes(a.r, 10)
	switch pv.Proto {
	case refc.CMPP:
		return fmt.Sprintf("%016x", binary.BigEndian.Uint64(b)), b[:8]
	}
	return hex.EncodeToString(b), b
}

func submitDest(e e2e.Ev) string {
	if l := e.M.L("dest"); len(l) > 0 {
		return l[0]
	}
	return ""
}

func respM(p *part) refc.M {
	m := refc.M{"result": p.result, "status": p.result}
	switch p.pv.Proto {
	case refc.CMPP:
		m["msgId"] = binary.BigEndian.Uint64(p.raw)
	case refc.SMGP:
		m["msgId"] = p.raw
	}
	return m
}

func reportM(r *rand.Rand, pv gen.PV, raw []byte, stat, dest string) refc.M {
	m := refc.M{"isReport": 1, "src": dest, "dest": "10690000", "serviceId": "svc"}
	if pv.Proto == refc.CMPP {
		m["msgId"] = r.Uint64()
		m["content"] = refc.Body(refc.CMPP, pv.Ver, "report", refc.M{"msgId": binary.BigEndian.Uint64(raw), "stat": stat, "submitTime": "2611181200", "doneTime": "2611181201", "dest": dest, "smsc": 7})
	} else {
		m["msgId"] = gen.Bytes(r, 10)
		m["recv"] = "20261118120000"
		m["content"] = refc.SmgpReport{ID: raw, Sub: "001", Dlvrd: "001", SubmitDate: "2611181200", DoneDate: "2611181201", Stat: stat, Err: "000"}.Octets()
	}
	return m
}

// onSubmit records a submit and answers it according to the mode.
func (a *answerer) onSubmit(c *e2e.GwConn, e e2e.Ev) {
	a.mu.Lock()
	defer a.mu.Unlock()
	pv := c.G.PV
	p := &part{pv: pv, phone: submitDest(e), seq: seq64(pv, e.Seq), conn: c.N, mode: a.mode}
	a.n++
	if a.mix {
		p.mode = c21modes[a.r.Intn(len(c21modes))]
	}
	k := fmt.Sprint(pv.Proto, c.N, e.Seq)
	if a.bySeq[k] {
		a.dup = append(a.dup, k)
	}
	a.bySeq[k] = true
	if pv.Proto == refc.SGIP {
		p.msgId = fmt.Sprintf("%010d%010d%08x", e.Seq[0], e.Seq[1], e.Seq[2])
	} else {
		p.msgId, p.raw = a.newId(pv)
	}
	if a.r.Intn(4) == 0 {
		p.result = uint32(1 + a.r.Intn(200))
		if a.r.Intn(4) == 0 && pv.Proto == refc.CMPP {
			p.msgId, p.raw = fmt.Sprintf("%016x", 0), make([]byte, 8)
		}
	} else if pv.Proto != refc.SGIP && a.r.Intn(5) > 0 {
		p.report = c21stats[a.r.Intn(len(c21stats))]
		p.via = []string{"with the response", "later", "on another connection"}[a.r.Intn(3)]
	}
	a.parts[p.phone] = append(a.parts[p.phone], p)
	if a.deaf > 0 && a.r.Intn(100) < a.deaf {
		p.report, p.via = "", "never answered"
		return
	}
	resp := refc.Frame(pv.Proto, pv.Ver, "submit_resp", respM(p), e.Seq...)
	var rep []byte
	if p.report != "" {
		rep = refc.Frame(pv.Proto, pv.Ver, "deliver", reportM(a.r, pv, p.raw, p.report, p.phone), a.r.Uint32())
	}
	delay := time.Duration(a.r.Intn(20000)) * time.Microsecond
	delay2 := time.Duration(a.r.Intn(20000)) * time.Microsecond
	noise := a.noise(pv)
	a.wg.Add(1)
	act := func() {
		defer a.wg.Done()
		if p.via == "with the response" {
			_ = c.Write(append(resp, rep...))
			return
		}
		_ = c.Write(append(resp, noise...))
		if p.mode == "twice" {
			_ = c.Write(resp)
		}
		if p.report == "" {
			return
		}
		time.Sleep(delay2)
		if p.via == "later" {
			_ = c.Write(rep)
			return
		}
		if !barrier(c) { // the response has been dealt with
			return
		}
		live, in := c.G.Live()
		_ = live
		o := c
		for _, x := range in {
			if x != c {
				o = x
			}
		}
		_ = o.Write(rep)
	}
	switch p.mode {
	case "at once", "twice":
		if p.via == "" || p.via == "with the response" {
			act()
		} else {
			go act()
		}
	case "delayed":
		go func() { time.Sleep(delay); act() }()
	default:
		q := append(a.queue[c], act)
		a.queue[c] = q
		if len(q) == 1 {
			a.wg.Add(1)
			go func() {
				defer a.wg.Done()
				time.Sleep(15 * time.Millisecond)
				a.mu.Lock()
				q := a.queue[c]
				a.queue[c] = nil
				if p.mode == "shuffled" {
					a.r.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
				} else {
					for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
						q[i], q[j] = q[j], q[i]
					}
				}
				a.mu.Unlock()
				var wg sync.WaitGroup
				for _, f := range q {
					f := f
					wg.Add(1)
					done := make(chan struct{})
					go func() { defer wg.Done(); defer close(done); f() }()
					select { // keep the order of the responses, do not wait for reports
					case <-done:
					case <-time.After(200 * time.Microsecond):
					}
				}
				wg.Wait()
			}()
		}
	}
}

// noise is traffic that concerns no message of the client.
func (a *answerer) noise(pv gen.PV) (b []byte) {
	if pv.Proto == refc.SGIP || a.r.Intn(3) > 0 {
		return nil
	}
	var known []byte
	for _, l := range a.parts {
		if l[0].pv == pv && len(l[0].raw) > 0 {
			known = l[0].raw
		}
		break
	}
	switch a.r.Intn(4) {
	case 0: // the response to a request nobody made
		m := refc.M{"result": 0, "status": 0, "msgId": a.r.Uint64()}
		if pv.Proto == refc.SMGP {
			m["msgId"] = gen.Bytes(a.r, 10)
		}
		b = refc.Frame(pv.Proto, pv.Ver, "submit_resp", m, a.r.Uint32()|0x80000000)
	case 1: // the report of a message nobody sent
		_, raw := a.newId(pv)
		b = refc.Frame(pv.Proto, pv.Ver, "deliver", reportM(a.r, pv, raw, "UNDELIV", "13000000000"), a.r.Uint32())
	case 2: // an upstream message that only looks like a report
		if known == nil {
			return nil
		}
		m := reportM(a.r, pv, known, "BOGUSXX", "13000000000")
		m["isReport"] = 0
		m["msgId"] = any(uint64(1))
		if pv.Proto == refc.SMGP {
			m["msgId"] = known
		}
		b = refc.Frame(pv.Proto, pv.Ver, "deliver", m, a.r.Uint32())
	default:
		b = refc.Frame(pv.Proto, pv.Ver, "active", refc.M{}, a.r.Uint32())
	}
	return
}

// messages makes a batch.
func messages(r *rand.Rand, n int) (l []e2e.Msg) {
	for i := 0; i < n; i++ {
		m := e2e.Msg{Text: text(r, []int{0, 0, 1, 2}[r.Intn(4)])}
		k := 1
		if r.Intn(4) == 0 {
			k = 1 + r.Intn(4)
		}
		for j := 0; j < k; j++ {
			m.Phones = append(m.Phones, phone(r, []string{refc.CMPP, refc.SGIP, refc.SMGP}[r.Intn(3)]))
		}
		l = append(l, m)
	}
	return
}

// compare tells what is wrong with what a handle shows; "" when nothing is.
func (a *answerer) compare(m e2e.Msg, id int64, q []e2e.Result) string {
	a.mu.Lock()
	defer a.mu.Unlock()
	want := map[uint64]*part{}
	for _, ph := range m.Phones {
		for _, p := range a.parts[ph] {
			want[p.seq] = p
		}
	}
	if len(want) != len(q) {
		return fmt.Sprintf("%d parts were transmitted, the handle shows %d", len(want), len(q))
	}
	for _, x := range q {
		p := want[x.SequenceId]
		switch {
		case p == nil:
			return fmt.Sprintf("a result has sequence number %d, which no part of the message has", x.SequenceId)
		case x.QueryId != id:
			return fmt.Sprintf("a result says it is of handle %d instead of %d", x.QueryId, id)
		case x.Phone != p.phone:
			return fmt.Sprintf("the part to %s is shown as sent to %s", p.phone, x.Phone)
		case !strings.EqualFold(x.MsgId, p.msgId) || x.Result != p.result:
			return fmt.Sprintf("the gateway answered with message id %s and result %d; shown: %q, %d", p.msgId, p.result, x.MsgId, x.Result)
		case x.Report != p.report:
			return fmt.Sprintf("the gateway reported %q (%s) for message id %s; shown: %q", p.report, p.via, p.msgId, x.Report)
		}
		delete(want, x.SequenceId)
	}
	return ""
}

func c21rep(run *lib.Run, r *rand.Rand, rep int) {
	a := newAnswerer(rand.New(rand.NewSource(r.Int63())))
	a.mode, a.mix = c21modes[rep%len(c21modes)], rep >= len(c21modes)
	var gs []*e2e.FakeGW
	for i, pv := range trio(rep) {
		g := fake(pv, i, 1+r.Intn(3), 100000, 100000)
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			if e.Kind == "submit" {
				a.onSubmit(c, e)
			}
		}
		gs = append(gs, g)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	// let the connections come up, so that reports can take another way
	var s e2e.Sent
	warm := e2e.Msg{Phones: []string{phone(r, refc.SMGP)}, Text: "x"}
	if err := p.Call("send", warm, &s); err != nil {
		if alive(run, p, "send") {
			run.Fail("send", nil, "a send does not return: %v", err)
		}
		return
	}
	poll(5*time.Second, func() bool {
		for _, g := range gs {
			if _, in := g.Live(); len(in) < g.MaxConns {
				return false
			}
		}
		return true
	})
	_ = p.Call("watch", nil, nil)
	msgs := messages(r, run.N(300, 700))
	var sent []e2e.Sent
	if err := p.Call("batch", e2e.Batch{Msgs: msgs, Workers: 1 + r.Intn(12)}, &sent); err != nil || len(sent) != len(msgs) {
		if alive(run, p, "send") {
			_ = p.Call("stacks", nil, nil)
			run.Fail("send", nil, "%d messages are not sent: %v", len(msgs), err)
		}
		return
	}
	// everything sent has arrived, everything answered has been dealt with
	for _, g := range gs {
		_, in := g.Live()
		for _, c := range in {
			if !barrier(c) && alive(run, p, "barrier") {
				run.Fail("connection-lost", nil, "%s: a connection does not answer a heartbeat", g.PV)
				return
			}
		}
	}
	done := make(chan struct{})
	go func() { a.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(2 * e2e.Watchdog()):
	}
	for _, g := range gs {
		_, in := g.Live()
		for _, c := range in {
			barrier(c)
		}
	}
	msgs, sent = append(msgs, warm), append(sent, s)
	var ids []int64
	seen := map[int64]bool{}
	for i, s := range sent {
		if s.Panic != "" {
			run.Fail("send-panics", msgs[i], "sending panics: %s", s.Panic)
		}
		if seen[s.Id] {
			run.Fail("handle-twice", nil, "handle %d was given out twice", s.Id)
		}
		seen[s.Id] = true
		ids = append(ids, s.Id)
	}
	var shown []e2e.Shown
	wrong := map[int]string{}
	poll(10*time.Second, func() bool {
		shown = nil
		if p.Call("query", ids, &shown) != nil || len(shown) != len(ids) {
			return true
		}
		wrong = map[int]string{}
		for i := range msgs {
			if w := a.compare(msgs[i], ids[i], shown[i].Results); w != "" {
				wrong[i] = w
			}
		}
		return len(wrong) == 0
	})
	var w e2e.Watched
	_ = p.Call("unwatch", nil, &w)
	if !alive(run, p, "queries") {
		return
	}
	if len(shown) != len(ids) {
		run.Fail("query", nil, "queries do not return")
		return
	}
	run.Count("queries_watched", w.N)
	run.Count("parts_seen_between_response_and_report", w.Mid)
	for _, b := range w.Bad {
		run.Fail("watched", nil, "%s", b)
	}
	for _, d := range a.dup {
		run.Fail("sequence-twice", nil, "a sequence number was used twice: %s", d)
	}
	for i, m := range msgs {
		n := 0
		for _, ph := range m.Phones {
			l := a.parts[ph]
			if len(l) == 0 {
				run.Fail("not-sent", m, "a message to %s did not reach the gateway (live connections, no rate limit)", ph)
			}
			n += len(l)
			for _, pt := range l {
				run.Case(fmt.Sprint(pt.pv, pt.mode, pt.result > 0, pt.via, len(l)))
				run.Count("parts", 1)
				if pt.report != "" {
					run.Count("reports", 1)
				}
				if pt.via == "on another connection" {
					run.Count("reports_on_another_connection", 1)
				}
			}
		}
		for _, x := range shown[i].Results {
			if !x.ResponseTime.IsZero() && x.ResponseTime.UnixNano() < sent[i].Wall {
				run.Count("answered_before_send_returned", 1)
			}
		}
		if s, ok := wrong[i]; ok {
			run.Fail("result: "+kindOf(s), map[string]any{"message": m, "shown": shown[i].Results}, "%s", s)
		}
	}
	bad(run, gs)
	if len(msgs) > 0 {
		run.Sample(map[string]any{"message": msgs[0], "shown": shown[0].Results})
	}
}

// kindOf is a message without its values.
func kindOf(s string) string {
	var b bytes.Buffer
	for _, w := range strings.Fields(s) {
		if !strings.ContainsAny(w, "0123456789\"") {
			b.WriteString(w + " ")
		}
	}
	return b.String()
}
