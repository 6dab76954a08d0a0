package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C14"] = c14 }

func c14() {
	run := lib.NewRun("C14", "exhaustive observation of sampled executions",
		"one evaluation: one submit sent to a live gateway, matched with its response and status reports; distinct: protocol version × outcome × success configuration × recipients × addresses' lengths × in-flight depth")
	ids := &c14ids{seen: map[string]string{}}
	reps := run.N(30, 300)
	for rep := 0; rep < reps; rep++ {
		for _, success := range []float64{1, -1} {
			r := run.Sub(fmt.Sprint("c14", rep, success))
			c14gateway(run, r, success, ids)
			ids.reset()
			if run.NFailed() > 20 {
				run.Finish()
			}
		}
	}
	run.Finish()
}

type c14ids struct {
	sync.Mutex
	seen map[string]string
}

func (s *c14ids) reset() { s.Lock(); s.seen = map[string]string{}; s.Unlock() }

func (s *c14ids) add(k, who string) string {
	s.Lock()
	defer s.Unlock()
	if o, ok := s.seen[k]; ok {
		return o
	}
	s.seen[k] = who
	return ""
}

func c14gateway(run *lib.Run, r *rand.Rand, success float64, ids *c14ids) {
	cfg := e2e.Config{Success: success, MinMs: 0, MaxMs: []int{0, 2, 5}[r.Intn(3)], ReportMs: []int{0, 0, 3, 10}[r.Intn(4)], Multicore: r.Intn(2) == 0, LogLevel: 2}
	type job struct {
		pv gen.PV
		a  e2e.Account
		sd int64
	}
	var jobs []job
	n := 0
	for _, pv := range gen.All {
		for k := 0; k < 4; k++ {
			n++
			w, t := 2048, 1000000
			if k == 2 { // part of the submits is refused by flow control
				w, t = 8, 500
			}
			if k == 3 {
				w, t = 64, 20000
			}
			a := account(pv, n, 4, w, t)
			cfg.Accounts = append(cfg.Accounts, a)
			jobs = append(jobs, job{pv, a, r.Int63()})
		}
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	par(len(jobs), func(i int) {
		j := jobs[i]
		c14conn(run, rand.New(rand.NewSource(j.sd)), g, j.pv, j.a, success, ids)
	})
	alive(run, g, "submits")
}

type c14sub struct {
	m    refc.M
	resp *e2e.Ev
	at   int // index of the response
	id   string
	rep  int
}

func c14id(pv gen.PV, e e2e.Ev) string {
	if pv.Proto == refc.CMPP {
		return fmt.Sprintf("%016x", e.M.U("msgId"))
	}
	return fmt.Sprintf("%x", e.M.B("msgId"))
}

func c14conn(run *lib.Run, r *rand.Rand, g *e2e.Gateway, pv gen.PV, a e2e.Account, success float64, ids *c14ids) {
	auto := e2e.AutoClient
	if r.Intn(4) == 0 { // a client may be slow to acknowledge or not do it at all
		auto = nil
	}
	c, err := e2e.Login(g, a, auto)
	if err != nil {
		if alive(run, g, "login") {
			run.Fail("login", pv.String(), "%s: login not accepted: %v", pv, err)
		}
		return
	}
	defer c.Close()
	base := len(c.Evs())
	subs := map[string]*c14sub{}
	var order []string
	rounds := 3 + r.Intn(3)
	for k := 0; k < rounds; k++ {
		var b []byte
		for q := 1 + r.Intn(40); q > 0; q-- {
			s := c.NewSeq()
			m := submit(r, pv)
			if r.Intn(3) == 0 {
				m["dest"] = m.L("dest")[:1]
			}
			if r.Intn(3) == 0 { // addresses up to the width of their fields
				w := 21
				if pv.Proto == refc.CMPP && pv.Ver&0xf0 == 0x30 {
					w = 32
				}
				m["dest"] = []string{gen.Digits(r, 1+r.Intn(w))}
				m["src"] = gen.Digits(r, 1+r.Intn(21))
			}
			m["needReport"] = r.Intn(2)
			subs[fmt.Sprint(s)] = &c14sub{m: m}
			order = append(order, fmt.Sprint(s))
			b = append(b, refc.Frame(pv.Proto, pv.Ver, "submit", m, s...)...)
		}
		if err := c.Write(b); err != nil {
			run.Fail("write", nil, "%s: connection with well-formed submits was closed: %v", pv, err)
			return
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
		}
	}
	count := func(evs []e2e.Ev) (resp, ok, rep int) {
		for _, e := range evs {
			switch e.Kind {
			case "submit_resp":
				resp++
				if result(e) == 0 {
					ok++
				}
			case "deliver":
				rep++
			}
		}
		return
	}
	c.Until(e2e.Watchdog(), func(evs []e2e.Ev, _ bool) bool {
		resp, ok, rep := count(evs[base:])
		return resp >= len(order) && (pv.Proto == refc.SGIP || rep >= ok)
	})
	// some more work after it, so that late duplicates show
	for i := 0; i < 3 && pv.Proto != refc.SGIP; i++ {
		s, _ := c.Send("active", refc.M{})
		c.Resp("active", s, e2e.Watchdog())
		time.Sleep(10 * time.Millisecond)
	}
	logout(c)
	if !alive(run, g, "submits") {
		return
	}
	evs := c.Evs()[base:]
	byID := map[string]*c14sub{}
	reportSeqs := map[string]bool{}
	depth, maxDepth := 0, 0
	for i, e := range evs {
		if e.Err != nil {
			run.Fail("garbled", nil, "%s: garbled packet %x: %v", pv, e.Raw, e.Err)
			return
		}
		switch e.Kind {
		case "submit_resp":
			s := subs[e.SeqKey()]
			if s == nil || s.resp != nil {
				run.Fail("response", nil, "%s: submit response %s without its submit", pv, e.SeqKey())
				continue
			}
			e := e
			s.resp, s.at = &e, i
			if result(e) == 0 && pv.Proto != refc.SGIP {
				s.id = c14id(pv, e)
				if o := ids.add(pv.Proto+s.id, pv.String()+e.SeqKey()); o != "" {
					run.Fail("id-repeated", s.id, "%s: accepted submit %s got message id %s, which %s has already got", pv, e.SeqKey(), s.id, o)
				}
				byID[s.id] = s
				depth++
				if depth > maxDepth {
					maxDepth = depth
				}
			}
		case "deliver":
			if e.M.U("isReport") != 1 {
				run.Fail("delivery", nil, "%s: a delivery that is no status report: %x", pv, e.Raw)
				continue
			}
			if own := c14id(pv, e); reportSeqs[e.SeqKey()] {
				run.Fail("report-sequence", nil, "%s: two status reports of one connection have the sequence number %s", pv, e.SeqKey())
			} else if pv.Proto == refc.SMGP { // CMPP leaves open what a report's own id is
				if o := ids.add(pv.Proto+own, "report "+e.SeqKey()); o != "" {
					run.Fail("id-repeated", own, "%s: a status report has the message id %s, which %s has already got", pv, own, o)
				}
			}
			reportSeqs[e.SeqKey()] = true
			id, dst, err := c14report(pv, e)
			if err != nil {
				run.Fail("report-garbled", nil, "%s: status report %x: %v", pv, e.Raw, err)
				continue
			}
			s := byID[id]
			if s == nil {
				run.Fail("report-unknown", id, "%s: a status report for message id %s came, but no submit was answered as accepted with that id before it", pv, id)
				continue
			}
			s.rep++
			depth--
			if s.rep > 1 {
				run.Fail("report-twice", id, "%s: message id %s was reported on %d times", pv, id, s.rep)
			}
			want := s.m.L("dest")[0]
			if e.M.S("src") != want || pv.Proto == refc.CMPP && dst != gen.Cut(want, 21) {
				run.Fail("report-recipient", nil, "%s: the status report of the submit to %q names %q (content %q)", pv, want, e.M.S("src"), dst)
			}
			if e.M.S("dest") != s.m.S("src") {
				run.Fail("report-source", nil, "%s: the status report of the submit from %q is addressed to %q", pv, s.m.S("src"), e.M.S("dest"))
			}
		}
	}
	for _, k := range order {
		s := subs[k]
		out := "none"
		if s.resp != nil {
			out = fmt.Sprint(result(*s.resp))
			if success < 0 && result(*s.resp) == 0 {
				run.Fail("accepted", nil, "%s: a submit was accepted by a gateway configured to refuse all", pv)
			}
			if result(*s.resp) == 0 && s.rep == 0 && pv.Proto != refc.SGIP && s.id != "" {
				run.Fail("report-missing", s.id, "%s: no status report came for accepted message id %s (connection alive, later probes answered)", pv, s.id)
			}
			if result(*s.resp) == 0 && pv.Proto == refc.SGIP && s.rep > 0 {
				run.Fail("report", nil, "sgip report on the submit connection")
			}
		} else {
			run.Fail("unanswered", nil, "%s: submit %s got no response", pv, k)
		}
		run.Case(fmt.Sprint(pv, out, success, len(s.m.L("dest")) > 1, len(s.m.S("src")) >= 20, len(s.m.L("dest")[0]) > 20, maxDepth > 3, auto != nil))
		run.Count("outcome_"+map[bool]string{true: "accepted", false: "refused"}[out == "0"], 1)
		run.Count("reports", int64(s.rep))
	}
	run.Max("max_reports_outstanding", int64(maxDepth))
	run.Sample(map[string]any{"protocol": pv.String(), "submits": len(order), "success_rate": success, "window": a.Window})
}

func result(e e2e.Ev) uint64 {
	if _, ok := e.M["status"]; ok {
		return e.M.U("status")
	}
	return e.M.U("result")
}

// c14report reads the message id and recipient a status report names.
func c14report(pv gen.PV, e e2e.Ev) (id, dest string, err error) {
	b := e.M.B("content")
	if pv.Proto == refc.CMPP {
		m, err := refc.Parse(refc.CMPP, pv.Ver, "report", b)
		if err != nil {
			return "", "", err
		}
		if m.S("stat") == "" {
			return "", "", fmt.Errorf("no state")
		}
		return fmt.Sprintf("%016x", binary.BigEndian.Uint64(b)), m.S("dest"), nil
	}
	rep, err := refc.ParseSmgpReport(b)
	if err != nil {
		return "", "", err
	}
	if bytes.Equal(rep.ID, make([]byte, 10)) {
		return "", "", fmt.Errorf("no message id")
	}
	return fmt.Sprintf("%x", rep.ID), "", nil
}
