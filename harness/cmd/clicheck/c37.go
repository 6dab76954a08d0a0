package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"syscall"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C37"] = c37 }

// c37 lets the client library work with the gateway of the same repository.
func c37() {
	run := lib.NewRun("C37", "exhaustive observation of sampled executions",
		"one evaluation: one part of a message sent by the client to the gateway, followed from the call to the result, the report and the gateway's statistics; distinct: protocol versions × length of the message × success rate × delays × with or without upstream messages × before or after the gateway was started anew")
	n := run.N(12, 96)
	for i := 0; i < n && run.NFailed() < 5; i += 6 {
		par(6, func(k int) { c37rep(run, run.Sub(fmt.Sprint("c37", i+k)), i+k) })
	}
	run.Finish()
}

// c37flow are the codes for messages over the rate or refused by the mock.
var c37flow = map[string]map[uint32]bool{refc.CMPP: {8: true}, refc.SGIP: {33: true}, refc.SMGP: {75: true, 1: true}}

func c37rep(run *lib.Run, r *rand.Rand, rep int) {
	cfg := e2e.Config{Success: []float64{1, 1, 0.7}[rep%3], MinMs: 0, MaxMs: []int{1, 20}[r.Intn(2)], ReportMs: []int{0, 30}[r.Intn(2)],
		LogLevel: 2, Multicore: r.Intn(2) == 0, Tick: "50ms", Deliver: r.Intn(2) == 0, DeliverRate: 0.5, Contents: []string{"01_,_hello", "_,_订阅成功"}}
	tight := rep%4 == 3 // the gateway's rate is below the client's
	var gs []*e2e.FakeGW
	pvs := trio(rep)
	for i, pv := range pvs {
		g := fake(pv, i, 1+r.Intn(4), 600, 100000)
		a := g.A // what the gateway knows of the account
		a.MaxConns, a.Window, a.Tput = g.MaxConns, 600, 1000000
		if tight {
			a.Tput, a.Window = 200, 20
		}
		cfg.Accounts = append(cfg.Accounts, a)
		gs = append(gs, g)
	}
	conf := fmt.Sprintf("success %g, delays %d+%d, upstream %v, tight %v", cfg.Success, cfg.MaxMs, cfg.ReportMs, cfg.Deliver, tight)
	g, err := e2e.StartGateway(cfg)
	if err != nil {
		run.Fail("gateway-start", conf, "the gateway does not start: %v", err)
		return
	}
	defer func() { g.Stop() }()
	for _, x := range gs {
		x.Port = g.Port[x.PV.Proto]
	}
	p, err := e2e.StartClient(e2e.ClientConfig{GW: gs, LogLevel: 2})
	if err != nil {
		run.Fail("client-start", conf, "the client does not start: %v", err)
		return
	}
	defer p.Stop()
	proto := func(phone string) string {
		for k, v := range prefix {
			if strings.HasPrefix(phone, v) {
				return k
			}
		}
		return ""
	}
	for phase := 0; phase < 2; phase++ {
		when := []string{"at first", "after the gateway was started anew"}[phase]
		dead := func(what string) bool {
			if g.Dead() {
				run.Fail("gateway-died", conf, "the gateway ended during %s %s: %s", what, when, g.Tail(1500))
				return true
			}
			return !alive(run, p, what)
		}
		sent := map[int64]e2e.Msg{}
		send := func(msgs []e2e.Msg) (ids []int64, ok bool) {
			var l []e2e.Sent
			if err := p.Call("batch", e2e.Batch{Msgs: msgs, Workers: 1 + r.Intn(6), GapUs: 200}, &l); err != nil || len(l) != len(msgs) {
				if !dead("sending") {
					run.Fail("send", conf, "messages are not sent %s: %v", when, err)
				}
				return nil, false
			}
			for i, s := range l {
				if s.Panic != "" {
					run.Fail("send-panics", msgs[i], "sending panics: %s", s.Panic)
				}
				sent[s.Id] = msgs[i]
				ids = append(ids, s.Id)
			}
			return ids, true
		}
		query := func(ids []int64) (l []e2e.Shown, ok bool) {
			if err := p.Call("query", ids, &l); err != nil || len(l) != len(ids) {
				if !dead("queries") {
					run.Fail("query", conf, "queries do not return %s: %v", when, err)
				}
				return nil, false
			}
			return l, true
		}
		// each gateway answers
		for _, x := range gs {
			for t := time.Now(); ; time.Sleep(50 * time.Millisecond) {
				ids, ok := send([]e2e.Msg{{Phones: []string{phone(r, x.PV.Proto)}, Text: "probe"}})
				if !ok {
					return
				}
				time.Sleep(100 * time.Millisecond)
				l, ok := query(ids)
				if !ok {
					return
				}
				if len(l[0].Results) == 1 && !l[0].Results[0].ResponseTime.IsZero() {
					break
				}
				if time.Since(t) > e2e.Watchdog() {
					if !dead("the first messages") {
						run.Fail("no-service", conf, "%s: the client gets no answer from the gateway %s in %v: %s", x.PV, when, e2e.Watchdog(), p.Tail(800))
					}
					return
				}
			}
		}
		n := run.N(400, 600)
		if _, ok := send(messages(r, n)); !ok {
			return
		}
		var ids []int64
		for id := range sent {
			ids = append(ids, id)
		}
		// all is answered, and reported on
		var l []e2e.Shown
		open, state := 1, ""
		for t := time.Now(); open > 0 && time.Since(t) < e2e.Watchdog(); time.Sleep(100 * time.Millisecond) {
			var ok bool
			if l, ok = query(ids); !ok {
				return
			}
			open = 0
			for _, x := range l {
				for _, y := range x.Results {
					answered := !y.ResponseTime.IsZero()
					if !answered || y.Result == 0 && cfg.Success == 1 && proto(y.Phone) != refc.SGIP && y.Report == "" {
						if open == 0 {
							state = fmt.Sprintf("%+v", y)
						}
						open++
					}
				}
			}
		}
		if open > 0 {
			// a probe whose connection the gateway refused or broke off while it started has no answer
			lost := 0
			for i, x := range l {
				if sent[ids[i]].Text == "probe" {
					for _, y := range x.Results {
						if y.ResponseTime.IsZero() {
							lost++
						}
					}
				}
			}
			if open > lost {
				if !dead("messages") {
					run.Fail("unanswered", conf, "%d parts are not answered or not reported on within %v %s, one of them: %s", open-lost, e2e.Watchdog(), when, state)
				}
				return
			}
		}
		if cfg.Success < 1 {
			time.Sleep(time.Duration(cfg.ReportMs)*time.Millisecond + 500*time.Millisecond)
			var ok bool
			if l, ok = query(ids); !ok {
				return
			}
		}
		accepted, reported, msgIds := map[string]uint64{}, map[string]uint64{}, map[string]string{}
		for i, x := range l {
			m := sent[ids[i]]
			per := map[string]int{}
			for _, y := range x.Results {
				pr := proto(y.Phone)
				per[y.Phone]++
				run.Count("parts", 1)
				if y.ResponseTime.IsZero() {
					continue // a probe
				}
				if y.ResponseTime.Before(y.SendTime) && y.SendTime.Sub(y.ResponseTime) > time.Second {
					run.Fail("times", m, "a response at %s to a message of %s", y.ResponseTime, y.SendTime)
				}
				if y.Result == 0 {
					accepted[pr]++
					if k := pr + y.MsgId; y.MsgId == "" || msgIds[k] != "" {
						run.Fail("message-id", m, "%s: message ids %q for %s and for %s", pr, y.MsgId, msgIds[k], y.Phone)
					} else {
						msgIds[k] = y.Phone
					}
				} else {
					run.Count("refused", 1)
					if !c37flow[pr][y.Result] {
						run.Fail("result", m, "%s: a part is answered with %d", pr, y.Result)
					}
					if !tight && cfg.Success == 1 {
						run.Fail("refused", m, "%s: a part below the rate is refused with %d although the gateway's mock takes all", pr, y.Result)
					}
				}
				if y.Report != "" {
					reported[pr]++
					if y.Result != 0 || pr == refc.SGIP {
						run.Fail("report", m, "%s: a part answered with %d is reported on: %q", pr, y.Result, y.Report)
					}
				}
			}
			// at most one delivery of all parts to each number: less only where the client itself found no way
			parts := 0
			for _, k := range per {
				if parts != 0 && k != parts && sameProto(m.Phones) {
					run.Fail("parts", m, "the same message has %d parts for one number and %d for another", parts, k)
				}
				parts = k
			}
			kind := "short"
			if parts > 1 {
				kind = "long"
			}
			for ph, k := range per {
				for _, pv := range pvs {
					if pv.Proto == proto(ph) {
						for ; k > 0; k-- {
							run.Case(fmt.Sprint(pv, kind, conf, when))
						}
					}
				}
			}
		}
		if run.Failed() {
			return
		}
		// the connections end, and the gateway's statistics are those of the client
		if phase == 1 {
			p.Signal(syscall.SIGTERM)
			select {
			case <-p.Exited():
			case <-time.After(e2e.Watchdog()):
				run.Fail("end", conf, "the client does not end")
				return
			}
		} else {
			sig := os.Signal(os.Interrupt)
			if rep%2 == 1 { // a crash
				sig = syscall.SIGKILL
			}
			g.Signal(sig)
			if !g.Ended(e2e.Watchdog()) {
				run.Fail("end", conf, "the gateway does not end")
				return
			}
		}
		bad := "?"
		for t := time.Now(); bad != "" && phase == 1 && time.Since(t) < e2e.Watchdog(); time.Sleep(100 * time.Millisecond) {
			bad = ""
			mt, rpt := map[string]uint64{}, map[string]uint64{}
			for _, c := range g.Counters() {
				mt[c.Auth] += c.Mt
				rpt[c.Auth] += c.Rpt
			}
			for _, x := range gs {
				pr := x.PV.Proto
				if mt[x.A.Id] != accepted[pr] || rpt[x.A.Id] != reported[pr] {
					bad += fmt.Sprintf("%s: the client had %d parts accepted and %d reported on, the gateway recorded %d and %d. ", x.PV, accepted[pr], reported[pr], mt[x.A.Id], rpt[x.A.Id])
				}
			}
		}
		if phase == 1 {
			if bad != "" {
				run.Fail("statistics", conf, "%s(%s)", bad, conf)
			}
			break
		}
		for k, v := range accepted {
			run.Count("accepted_"+k, int64(v))
		}
		for k, v := range reported {
			run.Count("reported_"+k, int64(v))
		}
		run.Sample(map[string]any{"versions": fmt.Sprint(pvs), "configuration": conf, "accepted": accepted, "reported": reported})
		// the gateway is started anew; the client is kept
		if rep%6 == 2 { // it takes a while
			time.Sleep(12 * time.Second)
		}
		next := cfg
		next.Ports = g.Port
		var again *e2e.Gateway
		for try := 0; try < 10; try++ {
			if again, err = e2e.StartGateway(next); err == nil {
				break
			}
			time.Sleep(time.Second)
		}
		if err != nil {
			run.Fail("restart", conf, "the gateway does not start anew on its ports: %v", err)
			return
		}
		g = again
	}
}

// sameProto tells whether all numbers belong to one gateway.
func sameProto(l []string) bool {
	for _, p := range l {
		if p[:3] != l[0][:3] {
			return false
		}
	}
	return true
}

var _ = gen.All
