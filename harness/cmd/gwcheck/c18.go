package main

import (
	"fmt"
	"math/rand"
	"os/exec"
	"sync"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C18"] = c18 }

func c18() {
	run := lib.NewRun("C18", "exhaustive observation of sampled executions",
		"one evaluation: one connection observed over one step of the gateway's clock, which the check moves; distinct: protocol version × behaviour of the client × step")
	for i := 0; i < run.N(1, 8) && !run.Failed(); i++ {
		jobs := []func(*lib.Run, *rand.Rand){c18idle, c18answering, c18sluggish, c18silent, c18nologin, c18traffic, c18forced}
		seed := run.Sub(fmt.Sprint("c18", i)).Int63()
		par(len(jobs), func(k int) { jobs[k](run, rand.New(rand.NewSource(seed+int64(k)))) })
	}
	run.Finish()
}

type c18w struct {
	*e2e.Gateway
	as   []e2e.Account
	pvs  []gen.PV
	conn []*e2e.Conn
}

// c18start starts a gateway and logs in one connection per protocol version.
func c18start(run *lib.Run, cfg e2e.Config, auto func(*e2e.Conn, e2e.Ev)) *c18w {
	cfg.Bin, cfg.Success, cfg.LogLevel, cfg.Multicore = "gwv", 1, 2, true
	w := &c18w{}
	for i, pv := range gen.All {
		a := account(pv, i, 10, 64, 1000)
		cfg.Accounts = append(cfg.Accounts, a)
		w.as, w.pvs = append(w.as, a), append(w.pvs, pv)
	}
	w.Gateway = start(run, cfg)
	if w.Gateway == nil {
		return nil
	}
	for i := range w.as {
		c, err := e2e.Login(w.Gateway, w.as[i], auto)
		if err != nil {
			if alive(run, w.Gateway, "login") {
				run.Fail("login", w.pvs[i].String(), "%s: login not accepted: %v", w.pvs[i], err)
			}
			w.Stop()
			return nil
		}
		w.conn = append(w.conn, c)
	}
	time.Sleep(100 * time.Millisecond) // the gateway notes the login after it answered it
	return w
}

// until waits for something that must happen once the clock has moved on by d. Should the gateway have noted
// some activity only after the clock was moved, moving it once more makes up for that.
func (w *c18w) until(d time.Duration, cond func(time.Duration) bool) bool {
	for t := time.Now(); time.Since(t) < e2e.Watchdog(); {
		if cond(5 * time.Second) {
			return true
		}
		w.Shift(d)
	}
	return cond(5 * time.Second)
}

// diagnose collects what may explain a connection that is not closed.
func (w *c18w) diagnose(c *e2e.Conn) string {
	out, _ := exec.Command("sh", "-c", "ss -tnoe | grep "+c.Local).CombinedOutput()
	return string(out) + w.Stacks()
}

func kindCount(c *e2e.Conn, kind string) (n int) {
	for _, e := range c.Evs() {
		if e.Kind == kind {
			n++
		}
	}
	return
}

func isActive(e e2e.Ev) bool { return e.Kind == "active" }

// serves tells whether a connection is still in service.
func serves(run *lib.Run, w *c18w, i int, what string) bool {
	c := w.conn[i]
	kind := "submit"
	s, err := c.Send(kind, submit(rand.New(rand.NewSource(7)), w.pvs[i]))
	if err == nil && c.Resp(kind, s, e2e.Watchdog()) != nil {
		return true
	}
	if alive(run, w.Gateway, what) {
		eof, e := c.EOF()
		run.Fail("not-kept", what, "%s: %s: the connection is not in service any more (ended: %v %v)", w.pvs[i], what, eof, e)
	}
	return false
}

// ticks waits until the gateway has looked at its connections again (a tick is 25ms or 400ms in real time).
func ticks(n int, tick time.Duration) { time.Sleep(time.Duration(n)*tick + tick/2) }

// c18idle: no heartbeat before the interval is over.
func c18idle(run *lib.Run, r *rand.Rand) {
	w := c18start(run, e2e.Config{Tick: "25ms", ForceClose: "1h"}, e2e.AutoClient)
	if w == nil {
		return
	}
	defer w.Stop()
	for _, d := range []time.Duration{0, 20 * time.Second, 25 * time.Second} { // 45s in all
		w.Shift(d)
		ticks(4, 25*time.Millisecond)
		for i, c := range w.conn {
			run.Case(fmt.Sprint(w.pvs[i], "idle below the interval", d))
			if n := kindCount(c, "active"); n > 0 {
				run.Fail("early-heartbeat", w.pvs[i].String(), "%s: a heartbeat is sent to a connection idle for less than the interval", w.pvs[i])
			}
			if eof, e := c.EOF(); eof {
				run.Fail("early-close", w.pvs[i].String(), "%s: a connection idle for less than a minute is closed (%v)", w.pvs[i], e)
			}
		}
	}
}

// c18answering: a connection that answers its heartbeats is kept for as long as it does.
func c18answering(run *lib.Run, r *rand.Rand) {
	w := c18start(run, e2e.Config{Tick: "400ms", ForceClose: "3m"}, e2e.AutoClient)
	if w == nil {
		return
	}
	defer w.Stop()
	for step := 0; step < run.N(8, 16); step++ {
		from := make([]int, len(w.conn))
		for i, c := range w.conn {
			from[i] = len(c.Evs())
		}
		w.Shift(61 * time.Second)
		for i, c := range w.conn {
			if w.pvs[i].Proto == refc.SGIP {
				continue
			}
			if !w.until(61*time.Second, func(d time.Duration) bool { return c.Next(from[i], d, isActive) != nil }) {
				if alive(run, w.Gateway, "idle connections") {
					eof, e := c.EOF()
					run.Fail("no-heartbeat", step, "%s: a connection idle for a minute (step %d) is sent no heartbeat (ended: %v %v)", w.pvs[i], step, eof, e)
				}
				return
			}
			run.Case(fmt.Sprint(w.pvs[i], "answers", step))
			run.Count("heartbeats_answered", 1)
		}
		ticks(1, 400*time.Millisecond) // the answer counts before the clock moves on
	}
	for i, c := range w.conn {
		if w.pvs[i].Proto == refc.SGIP {
			continue
		}
		if n := kindCount(c, e2e.LogoutKind(c.Proto)); n > 0 {
			run.Fail("logged-out", nil, "%s: a connection that answers its heartbeats is told to log out", w.pvs[i])
		}
		serves(run, w, i, "a connection that answered its heartbeats for several minutes")
	}
	run.Sample(map[string]any{"behaviour": "answers every heartbeat", "minutes": 8})
}

// c18sluggish: a connection that misses one heartbeat and answers the next is kept.
func c18sluggish(run *lib.Run, r *rand.Rand) {
	var mu sync.Mutex
	n := map[*e2e.Conn]int{}
	w := c18start(run, e2e.Config{Tick: "400ms", ForceClose: "3m"}, func(c *e2e.Conn, e e2e.Ev) {
		if e.Kind == "active" {
			mu.Lock()
			n[c]++
			skip := n[c]%2 == 1
			mu.Unlock()
			if skip {
				return
			}
		}
		e2e.AutoClient(c, e)
	})
	if w == nil {
		return
	}
	defer w.Stop()
	for step := 0; step < run.N(5, 12); step++ {
		from := make([]int, len(w.conn))
		for i, c := range w.conn {
			from[i] = len(c.Evs())
		}
		w.Shift(61 * time.Second)
		for i, c := range w.conn {
			if w.pvs[i].Proto == refc.SGIP {
				continue
			}
			ok := w.until(61*time.Second, func(d time.Duration) bool {
				return c.Until(d, func(evs []e2e.Ev, _ bool) bool {
					k := 0
					for _, e := range evs[from[i]:] {
						if isActive(e) {
							k++
						}
					}
					return k >= 2
				})
			})
			if !ok {
				if alive(run, w.Gateway, "idle connections") {
					eof, e := c.EOF()
					run.Fail("no-second-heartbeat", step, "%s: after an unanswered heartbeat no further one is sent (step %d, ended: %v %v)", w.pvs[i], step, eof, e)
				}
				return
			}
			run.Case(fmt.Sprint(w.pvs[i], "answers every second", step))
		}
		ticks(1, 400*time.Millisecond)
	}
	for i, c := range w.conn {
		if w.pvs[i].Proto == refc.SGIP {
			continue
		}
		if k := kindCount(c, e2e.LogoutKind(c.Proto)); k > 0 {
			run.Fail("logged-out", nil, "%s: a connection that answers every second heartbeat is told to log out", w.pvs[i])
		}
		serves(run, w, i, "a connection that answered every second heartbeat")
	}
}

// c18silent: a connection that leaves its heartbeats unanswered is told to log out and is closed.
func c18silent(run *lib.Run, r *rand.Rand) {
	for _, answerLogout := range []bool{false, true} {
		w := c18start(run, e2e.Config{Tick: "25ms", ForceClose: "1h"}, func(c *e2e.Conn, e e2e.Ev) {
			if answerLogout && e.Kind == e2e.LogoutKind(c.Proto) {
				_ = c.Write(refc.Frame(c.Proto, c.Ver, e.Kind+"_resp", refc.M{}, e.Seq...))
			}
		})
		if w == nil {
			return
		}
		w.Shift(61 * time.Second)
		for i, c := range w.conn {
			if w.pvs[i].Proto == refc.SGIP {
				continue
			}
			closed := w.until(61*time.Second, c.WaitEOF)
			run.Case(fmt.Sprint(w.pvs[i], "silent", answerLogout))
			hb, lo := kindCount(c, "active"), kindCount(c, e2e.LogoutKind(c.Proto))
			if !alive(run, w.Gateway, "silent connections") {
				break
			}
			run.Count("heartbeats_unanswered", int64(hb))
			if !closed {
				run.Fail("silent-kept", w.diagnose(c), "%s: a connection that left %d heartbeats unanswered is not closed (told to log out %d times)", w.pvs[i], hb, lo)
				continue
			}
			if hb < 2 {
				run.Fail("hasty", answerLogout, "%s: a silent connection is closed after only %d heartbeats", w.pvs[i], hb)
			}
			if lo == 0 {
				run.Fail("no-logout", answerLogout, "%s: a silent connection is closed without being told to log out", w.pvs[i])
			}
			first := -1
			for k, e := range c.Evs() {
				if e.Kind == e2e.LogoutKind(c.Proto) && first < 0 {
					first = k
				}
				if e.Err != nil {
					run.Fail("garbled", nil, "%s: garbled packet %x: %v", w.pvs[i], e.Raw, e.Err)
				}
			}
			run.Sample(map[string]any{"protocol": w.pvs[i].String(), "heartbeats": hb, "told_to_log_out": lo, "acknowledges": answerLogout})
		}
		// the account's slot is free again
		for i := range w.as {
			c, err := e2e.Login(w.Gateway, w.as[i], e2e.AutoClient)
			if err != nil {
				run.Fail("relogin", nil, "%s: no login after a silent connection was closed: %v", w.pvs[i], err)
				continue
			}
			c.Close()
		}
		w.Stop()
	}
}

// c18nologin: a connection that does not log in within the configured time is closed.
func c18nologin(run *lib.Run, r *rand.Rand) {
	w := c18start(run, e2e.Config{Tick: "25ms", ForceClose: "90s"}, e2e.AutoClient)
	if w == nil {
		return
	}
	defer w.Stop()
	var cs []*e2e.Conn
	for i, pv := range w.pvs {
		for _, part := range []int{0, 4, 11} {
			c, err := e2e.Dial(w.Gateway, pv.Proto, pv.Ver, nil)
			if err != nil {
				run.Fail("connect", nil, "can not connect: %v", err)
				return
			}
			f := refc.Frame(pv.Proto, pv.Ver, e2e.LoginKind(pv.Proto), e2e.LoginM(w.as[i], 1), c.NewSeq()...)
			_ = c.Write(f[:part])
			cs = append(cs, c)
		}
	}
	ticks(4, 25*time.Millisecond)
	for _, c := range cs {
		if eof, e := c.EOF(); eof {
			run.Fail("early-close", nil, "%s: a connection that has time left to log in is closed (%v)", c.Proto, e)
		}
	}
	w.Shift(45 * time.Second)
	ticks(4, 25*time.Millisecond)
	for _, c := range cs {
		if eof, e := c.EOF(); eof {
			run.Fail("early-close", nil, "%s: a connection that has time left to log in is closed (%v)", c.Proto, e)
		}
		if n := kindCount(c, "active") + kindCount(c, "deliver"); n > 0 {
			run.Fail("service", nil, "%s: a connection without login is sent heartbeats or deliveries", c.Proto)
		}
	}
	w.Shift(46 * time.Second)
	for _, c := range cs {
		run.Case(fmt.Sprint(c.Proto, c.Ver, "no login in time"))
		if !w.until(46*time.Second, c.WaitEOF) {
			if alive(run, w.Gateway, "connections without login") {
				run.Fail("no-login-kept", nil, "%s %02x: a connection that does not log in is not closed", c.Proto, c.Ver)
			}
			return
		}
		run.Count("closed_without_login", 1)
		c.Close()
	}
	run.Sample(map[string]any{"behaviour": "connects, sends part of a login", "time_to_log_in": "90s"})
}

// c18traffic: connections that carry traffic are neither probed nor closed.
func c18traffic(run *lib.Run, r *rand.Rand) {
	for _, kind := range []string{"submit", "active"} {
		w := c18start(run, e2e.Config{Tick: "25ms", ForceClose: "2m", MaxMs: 2, ReportMs: 2}, e2e.AutoClient)
		if w == nil {
			return
		}
		for step := 0; step < run.N(8, 20); step++ {
			for i, c := range w.conn {
				k := kind
				if w.pvs[i].Proto == refc.SGIP {
					k = "submit"
				}
				m := refc.M{}
				if k == "submit" {
					m = submit(r, w.pvs[i])
				}
				s, err := c.Send(k, m)
				if err != nil || c.Resp(k, s, e2e.Watchdog()) == nil {
					if alive(run, w.Gateway, "traffic") {
						eof, e := c.EOF()
						run.Fail("traffic-closed", step, "%s: a connection that sends a %s every 50 s is not served any more at step %d (ended: %v %v)", w.pvs[i], k, step, eof, e)
					}
					w.Stop()
					return
				}
				run.Case(fmt.Sprint(w.pvs[i], "traffic", k, step))
			}
			ticks(2, 25*time.Millisecond)
			w.Shift(50 * time.Second)
			ticks(2, 25*time.Millisecond)
			for i, c := range w.conn {
				if n := kindCount(c, "active"); n > 0 {
					run.Fail("disturbed", step, "%s: a connection that sends a %s every 50 s is sent a heartbeat", w.pvs[i], kind)
				}
				if n := kindCount(c, e2e.LogoutKind(c.Proto)); n > 0 {
					run.Fail("disturbed", step, "%s: a connection that sends a %s every 50 s is told to log out", w.pvs[i], kind)
				}
			}
			if run.Failed() {
				w.Stop()
				return
			}
		}
		w.Stop()
	}
	// a connection that only receives: it acknowledges the deliveries it is sent at every tick
	w := c18start(run, e2e.Config{Tick: "400ms", ForceClose: "2m", Deliver: true, DeliverRate: 1, Contents: []string{"1_,_hi"}}, e2e.AutoClient)
	if w == nil {
		return
	}
	defer w.Stop()
	for step := 0; step < run.N(9, 20); step++ {
		for i, c := range w.conn {
			if w.pvs[i].Proto == refc.SGIP {
				continue
			}
			from := len(c.Evs())
			if c.Next(from, e2e.Watchdog(), func(e e2e.Ev) bool { return e.Kind == "deliver" }) == nil {
				if alive(run, w.Gateway, "deliveries") {
					eof, e := c.EOF()
					run.Fail("no-delivery", step, "%s: a connection that acknowledges its deliveries gets none any more at step %d (ended: %v %v)", w.pvs[i], step, eof, e)
				}
				return
			}
			run.Case(fmt.Sprint(w.pvs[i], "acknowledges deliveries", step))
			if n := kindCount(c, "active") + kindCount(c, e2e.LogoutKind(c.Proto)); n > 0 {
				run.Fail("disturbed", step, "%s: a connection that acknowledges a delivery every 20 s is sent a heartbeat or told to log out", w.pvs[i])
				return
			}
		}
		time.Sleep(150 * time.Millisecond)
		w.Shift(20 * time.Second)
	}
}

// c18forced: an idle SGIP connection, which has no heartbeats, ends after the configured time.
func c18forced(run *lib.Run, r *rand.Rand) {
	w := c18start(run, e2e.Config{Tick: "25ms", ForceClose: "150s"}, e2e.AutoClient)
	if w == nil {
		return
	}
	defer w.Stop()
	w.Shift(100 * time.Second)
	ticks(5, 25*time.Millisecond)
	for i, c := range w.conn {
		if w.pvs[i].Proto != refc.SGIP {
			continue
		}
		run.Case(fmt.Sprint("sgip idle"))
		if eof, e := c.EOF(); eof {
			run.Fail("early-close", nil, "sgip: an idle connection is closed before its time (%v)", e)
			return
		}
		if n := kindCount(c, "active"); n > 0 {
			run.Fail("heartbeat", nil, "sgip: a heartbeat is sent, the protocol has none")
		}
		w.Shift(51 * time.Second)
		if !w.until(51*time.Second, c.WaitEOF) {
			if alive(run, w.Gateway, "idle sgip connection") {
				run.Fail("idle-kept", nil, "sgip: an idle connection is not closed after the configured time")
			}
			return
		}
		if kindCount(c, "unbind") == 0 {
			run.Fail("no-logout", nil, "sgip: an idle connection is closed without being told to log out")
		}
	}
}
