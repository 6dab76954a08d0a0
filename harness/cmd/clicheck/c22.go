package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C22"] = c22 }

func c22() {
	run := lib.NewRun("C22", "exhaustive observation of sampled executions",
		"one evaluation: one request of a gateway and what the client answered on that connection; distinct: protocol version × kind of request × way the stream is cut × whether the client sends messages meanwhile × whether a logout follows")
	n := run.N(40, 240)
	for i := 0; i < n && run.NFailed() < 5; i += 8 {
		par(8, func(k int) { c22rep(run, run.Sub(fmt.Sprint("c22", i+k)), i+k) })
	}
	run.Finish()
}

func cuts(r *rand.Rand, n int, mode string) (l []int) {
	max := map[string]int{"whole": n, "octets": 1, "small": 13, "heads": 24, "large": 3000}[mode]
	if mode == "whole" {
		return nil
	}
	for i := 0; i < n; {
		k := 1 + r.Intn(max)
		l = append(l, k)
		i += k
	}
	return
}

// request is what a gateway asked a client and wants answered.
type request struct {
	kind  string
	what  string
	seq   []uint32
	msgId any
	frame []byte
}

func c22rep(run *lib.Run, r *rand.Rand, rep int) {
	var gs []*e2e.FakeGW
	conns := 1 + rep%3
	for i, pv := range trio(rep) {
		pv := pv
		g := fake(pv, i, conns, 100000, 100000)
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			switch e.Kind {
			case "submit":
				m := refc.M{"msgId": uint64(1)}
				if pv.Proto == refc.SMGP {
					m["msgId"] = make([]byte, 10)
				}
				_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "submit_resp", m, e.Seq...))
			case "active":
				_ = c.Write(refc.Frame(pv.Proto, pv.Ver, "active_resp", refc.M{}, e.Seq...))
			}
		}
		gs = append(gs, g)
	}
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: 2})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	if !connect(run, r, p, gs) {
		return
	}
	busy := rep%2 == 1
	for round := 0; round < run.N(4, 8) && run.NFailed() < 5; round++ {
		var jobs []func()
		for _, g := range gs {
			_, in := g.Live()
			for k, c := range in {
				r := rand.New(rand.NewSource(r.Int63()))
				out := k > 0 && r.Intn(3) == 0 // the first connection stays
				c := c
				jobs = append(jobs, func() { c22conn(run, r, p, c, busy, out) })
			}
		}
		var wg sync.WaitGroup
		for _, j := range jobs {
			j := j
			wg.Add(1)
			go func() { defer wg.Done(); j() }()
		}
		if busy {
			var sent []e2e.Sent
			if err := p.Call("batch", e2e.Batch{Msgs: messages(r, 60), Workers: 3, GapUs: 500}, &sent); err != nil && alive(run, p, "sending") {
				run.Fail("send", nil, "messages are not sent: %v", err)
			}
		}
		wg.Wait()
		if !alive(run, p, "gateway requests") {
			return
		}
	}
	bad(run, gs)
}

// connect makes the client bring up all its connections.
func connect(run *lib.Run, r *rand.Rand, p *e2e.Proc, gs []*e2e.FakeGW) bool {
	var s e2e.Sent
	if err := p.Call("send", e2e.Msg{Phones: []string{phone(r, refc.SMGP)}, Text: "x"}, &s); err != nil {
		if alive(run, p, "send") {
			run.Fail("send", nil, "a send does not return: %v", err)
		}
		return false
	}
	ok := poll(e2e.Watchdog(), func() bool {
		for _, g := range gs {
			if _, in := g.Live(); len(in) < g.MaxConns {
				return p.Dead()
			}
		}
		return true
	})
	if !alive(run, p, "connecting") {
		return false
	}
	if !ok {
		run.Fail("connections", nil, "the client does not open all its connections")
	}
	return ok
}

// c22requests makes requests of a gateway, some packets that want no answer among them.
func c22requests(r *rand.Rand, pv gen.PV, n int, logout bool) (l []request, stream []byte) {
	seqs := map[uint32]bool{}
	newSeq := func() []uint32 {
		for {
			s := r.Uint32()
			switch r.Intn(12) {
			case 0:
				s = uint32(r.Intn(4))
			case 1:
				s = 0xffffffff - uint32(r.Intn(4))
			case 2:
				s = 0x7fffffff + uint32(r.Intn(3))
			}
			if !seqs[s] {
				seqs[s] = true
				if pv.Proto == refc.SGIP {
					return []uint32{r.Uint32(), r.Uint32(), s}
				}
				return []uint32{s}
			}
		}
	}
	put := func(kind, what string, m refc.M, answer bool) {
		q := request{kind: kind, what: what, seq: newSeq(), msgId: m["msgId"]}
		q.frame = refc.Frame(pv.Proto, pv.Ver, kind, m, q.seq...)
		stream = append(stream, q.frame...)
		if answer {
			l = append(l, q)
		}
	}
	id := func() any {
		if pv.Proto == refc.SMGP {
			return gen.Bytes(r, 10)
		}
		return []uint64{r.Uint64(), 0, ^uint64(0), 1, 1 << 63, r.Uint64()}[r.Intn(6)]
	}
	for i := 0; i < n; i++ {
		if pv.Proto == refc.SGIP {
			put("submit_resp", "stray response", refc.M{"result": r.Intn(9)}, false)
			continue
		}
		switch r.Intn(8) {
		case 0, 1:
			put("active", "heartbeat", refc.M{}, true)
		case 2, 3:
			raw := gen.Bytes(r, 10)
			if pv.Proto == refc.CMPP {
				raw = raw[:8]
			}
			m := reportM(r, pv, raw, c21stats[r.Intn(len(c21stats))], phoneLike(r))
			m["msgId"] = id()
			put("deliver", "report", m, true)
		case 4:
			if r.Intn(2) == 0 {
				put("active_resp", "stray response", refc.M{}, false)
			} else {
				put("submit_resp", "stray response", refc.M{"msgId": id(), "status": r.Intn(3), "result": r.Intn(3)}, false)
			}
		default:
			var m refc.M
			if r.Intn(2) == 0 {
				m, _ = gen.Message(r, pv, "deliver")
				m["isReport"] = 0
			} else {
				m = refc.M{"src": phoneLike(r), "dest": "10690000", "serviceId": "svc", "fmt": 8, "content": gen.UCS2(gen.Str(r, r.Intn(71))), "msgId": id()}
			}
			put("deliver", "upstream message", m, true)
		}
	}
	if logout {
		put(e2e.LogoutKind(pv.Proto), "logout", refc.M{}, true)
	}
	return
}

func phoneLike(r *rand.Rand) string { return "13" + gen.Digits(r, 9) }

func c22conn(run *lib.Run, r *rand.Rand, p *e2e.Proc, c *e2e.GwConn, busy, logout bool) {
	pv := c.G.PV
	mode := []string{"whole", "octets", "small", "heads", "large"}[r.Intn(5)]
	n := 1 + r.Intn(60)
	if mode == "octets" {
		n = 1 + r.Intn(6)
	}
	reqs, stream := c22requests(r, pv, n, logout)
	from := len(c.Evs())
	pause := time.Duration(0)
	if mode != "whole" {
		pause = time.Duration(r.Intn(300)) * time.Microsecond
	}
	err := c.WriteCut(stream, cuts(r, len(stream), mode), pause)
	replay := map[string]any{"protocol": pv.String(), "cut": mode, "stream": fmt.Sprintf("%x", stream)}
	if !logout {
		if pv.Proto == refc.SGIP {
			return
		}
		// heartbeats are answered in order with everything else
		if err != nil || !barrier(c) {
			if alive(run, p, "gateway requests") {
				run.Fail("connection-lost "+mode, replay, "%s: the client does not answer a heartbeat after the requests (%v)", pv, err)
			}
			return
		}
	} else if !c.WaitEOF(e2e.Watchdog()) {
		if alive(run, p, "logout") {
			run.Fail("logout-open", replay, "%s: the connection is still open after the gateway's logout request", pv)
		}
		return
	}
	answers := map[string][]e2e.Ev{}
	after := false
	for _, e := range c.Evs()[from:] {
		if e.Err != nil {
			run.Fail("layout", replay, "%s: the client's packet is malformed: %v: %x", pv, e.Err, e.Raw)
			continue
		}
		if after {
			run.Fail("after-logout", replay, "%s: the client sends %s after it acknowledged the logout", pv, e.Kind)
		}
		if e.Kind == e2e.LogoutKind(pv.Proto)+"_resp" {
			after = !busy
		}
		if e.Kind != "submit" && e.Kind != "active" {
			answers[e.SeqKey()] = append(answers[e.SeqKey()], e)
		}
	}
	for _, q := range reqs {
		l := answers[fmt.Sprint(q.seq)]
		run.Case(fmt.Sprint(pv, q.what, mode, busy, logout))
		run.Count(q.what, 1)
		bad := ""
		switch {
		case len(l) == 0 && logout && q.what != "logout" && busy:
			// what a client writes to a closing connection may be lost
		case len(l) != 1:
			bad = fmt.Sprintf("is answered %d times", len(l))
		case l[0].Kind != q.kind+"_resp":
			bad = "is answered with " + l[0].Kind
		case q.kind == "deliver" && !sameId(pv, q.msgId, l[0].M):
			bad = fmt.Sprintf("(id %v) is answered for another message id: %v", q.msgId, l[0].M)
		case q.kind == "deliver" && (l[0].M.U("result") != 0 || l[0].M.U("status") != 0):
			bad = fmt.Sprintf("is answered with an error: %v", l[0].M)
		}
		if bad != "" && alive(run, p, "gateway requests") {
			replay["request"] = fmt.Sprintf("%x", q.frame)
			run.Fail(q.what+" "+kindOf(bad), replay, "%s: the %s of the gateway with sequence number %v %s", pv, q.what, q.seq, bad)
		}
		delete(answers, fmt.Sprint(q.seq))
	}
	for k, l := range answers {
		for _, e := range l {
			// the heartbeat of the barrier has a sequence number of the connection's own
			if e.Kind == "active_resp" && len(l) == 1 {
				continue
			}
			run.Fail("answers-nothing", replay, "%s: the client sends %s with sequence number %s, which answers nothing", pv, e.Kind, k)
		}
	}
	if len(reqs) > 0 {
		run.Sample(map[string]any{"request": reqs[0].what, "cut": mode, "frame": fmt.Sprintf("%x", reqs[0].frame)})
	}
}

func sameId(pv gen.PV, id any, m refc.M) bool {
	if pv.Proto == refc.SMGP {
		b, _ := id.([]byte)
		w := make([]byte, 10)
		copy(w, b)
		return bytes.Equal(w, m.B("msgId"))
	}
	return refc.M{"msgId": id}.U("msgId") == m.U("msgId")
}
