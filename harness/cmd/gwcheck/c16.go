package main

import (
	"fmt"
	"math/rand"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C16"] = c16 }

func c16() {
	run := lib.NewRun("C16", "exhaustive observation of sampled executions",
		"one evaluation: one login or connection attempt at a known occupation; distinct: protocol version × limit × racing attempts × outcome × how the previous holders of the slots ended")
	for i := 0; i < run.N(2, 12); i++ {
		r := run.Sub(fmt.Sprint("accounts", i))
		c16accounts(run, r, i)
		if run.Failed() {
			break
		}
		c16sessions(run, run.Sub(fmt.Sprint("sessions", i)), i)
		if run.Failed() {
			break
		}
	}
	run.Finish()
}

var c16ends = []string{"logout", "reset", "fin", "garbage", "bad length", "bad body", "login again and leave", "login as another account", "stay after a second login", "reset with work outstanding"}

// end ends a logged-in connection in one of the ways a connection can end.
func c16end(r *rand.Rand, c *e2e.Conn, pv gen.PV, a e2e.Account, others []e2e.Account, how string) {
	switch how {
	case "logout":
		logout(c)
	case "reset":
		c.Reset()
	case "fin":
		c.Close()
	case "garbage":
		_ = c.Write(gen.Bytes(r, 40))
		c.Close()
	case "bad length":
		_ = c.Write([]byte{0, 0, 0, 1, 0, 0, 0, 4, 0, 0, 0, 1})
		c.WaitEOF(e2e.Watchdog())
		c.Close()
	case "bad body":
		f := refc.Frame(pv.Proto, pv.Ver, "submit", refc.M{}, c.NewSeq()...)
		f = f[:30]
		f[2], f[3] = 0, 30
		_ = c.Write(f)
		c.WaitEOF(e2e.Watchdog())
		c.Close()
	case "login again and leave":
		_, _ = c.Send(e2e.LoginKind(pv.Proto), e2e.LoginM(a, 1))
		c.Close()
	case "login as another account", "stay after a second login":
		x := a
		if how == "login as another account" {
			for _, o := range others {
				if o.Isp == a.Isp && o.Id != a.Id && o.Ver == a.Ver {
					x = o
				}
			}
		}
		n := len(c.Evs())
		_, _ = c.Send(e2e.LoginKind(pv.Proto), e2e.LoginM(x, uint32(r.Intn(100))))
		// the gateway may end the connection or leave it as it is
		c.Next(n, e2e.Watchdog(), func(e e2e.Ev) bool { return e.Kind == e2e.LoginKind(pv.Proto)+"_resp" })
		c.Close()
	case "reset with work outstanding":
		var b []byte
		for i := 0; i < 30; i++ {
			b = append(b, refc.Frame(pv.Proto, pv.Ver, "submit", submit(r, pv), c.NewSeq()...)...)
		}
		_ = c.Write(b)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
		}
		c.Reset()
	}
}

func c16accounts(run *lib.Run, r *rand.Rand, rep int) {
	cfg := e2e.Config{Success: 1, MaxMs: 3, ReportMs: 2, Multicore: rep%2 == 0, LogLevel: 2}
	type acct struct {
		pv gen.PV
		a  e2e.Account
	}
	var as []acct
	n := 0
	for _, pv := range gen.All {
		for _, lim := range []int{1, 2 + r.Intn(3)} {
			n++
			a := account(pv, n, lim, 16, 100000)
			as = append(as, acct{pv, a})
			cfg.Accounts = append(cfg.Accounts, a)
		}
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	// logins race within an account; of different accounts only a few at a time (the gateway's login
	// workers are limited, logins beyond them are dropped)
	for _, x := range as {
		x := x
		r := rand.New(rand.NewSource(r.Int63()))
		prev := "none"
		for round := 0; round < run.N(8, 30) && !run.Failed(); round++ {
			racers := 1 + r.Intn(7)
			var mu sync.Mutex
			var in []*e2e.Conn
			var refused, dropped, bad int
			var what []string
			conns := make([]*e2e.Conn, racers)
			for i := range conns {
				c, err := e2e.Dial(g, x.pv.Proto, x.pv.Ver, e2e.AutoClient)
				if err != nil {
					run.Fail("connect", nil, "can not connect: %v", err)
					return
				}
				conns[i] = c
			}
			par(racers, func(i int) {
				st, err := conns[i].LoginWith(e2e.LoginM(x.a, uint32(i+7*round)))
				mu.Lock()
				defer mu.Unlock()
				switch {
				case err == e2e.ErrNoAnswer:
					dropped++
				case err != nil:
					bad++
					what = append(what, err.Error())
				case st == 0:
					in = append(in, conns[i])
				case st == codes[x.pv.Proto][3]:
					refused++
					if !conns[i].WaitEOF(e2e.Watchdog()) {
						bad++
						what = append(what, "connection of a refused login stays open")
					}
				default:
					bad++
					what = append(what, fmt.Sprintf("status %d", st))
				}
			})
			if !alive(run, g, "racing logins") {
				return
			}
			rp := map[string]any{"account": x.a.Id, "protocol": x.pv.String(), "limit": x.a.MaxConns, "racers": racers, "previous": prev, "round": round}
			run.Case(fmt.Sprint(x.pv, x.a.MaxConns, racers, len(in), prev))
			run.Count("racing_logins", int64(racers))
			run.Count("refused_logins", int64(refused))
			run.Count("dropped_logins", int64(dropped))
			if bad > 0 {
				run.Fail("login-answer", rp, "%s: logins at the limit: %v", x.pv, what)
			}
			// holding means: accepted and not ended from this side; the gateway has no reason to end it
			live := 0
			for _, c := range in {
				if eof, _ := c.EOF(); !eof {
					live++
				}
			}
			if live > x.a.MaxConns {
				run.Fail("over-limit", rp, "%s: %d racing logins of an account with at most %d connections: %d are logged in at a time", x.pv, racers, x.a.MaxConns, live)
				return
			}
			want := racers
			if want > x.a.MaxConns {
				want = x.a.MaxConns
			}
			// a login within the limit succeeds: those that were dropped or came before a slot of the
			// round before was returned are tried again
			dl := time.Now().Add(e2e.Watchdog())
			for len(in) < want {
				c, st, err := e2e.TryLogin(g, x.a, e2e.AutoClient)
				if err == nil && st == 0 {
					in = append(in, c)
					continue
				}
				if c != nil {
					c.Close()
				}
				if time.Now().After(dl) {
					run.Fail("slot-lost", rp, "%s: account with at most %d connections, %d logged in: further logins are refused (status %d, %v) %s after the connections before ended (%s)",
						x.pv, x.a.MaxConns, len(in), st, err, e2e.Watchdog(), prev)
					return
				}
				time.Sleep(5 * time.Millisecond)
			}
			if len(in) == x.a.MaxConns && r.Intn(2) == 0 { // one beyond is refused
				for i := 0; i < 20; i++ {
					c, st, err := e2e.TryLogin(g, x.a, nil)
					if c != nil {
						defer c.Close()
					}
					if err == e2e.ErrNoAnswer {
						continue
					}
					if err != nil || st != codes[x.pv.Proto][3] {
						run.Fail("beyond", rp, "%s: with %d of %d connections logged in, one more login gets status %d (%v)", x.pv, len(in), x.a.MaxConns, st, err)
					}
					run.Case(fmt.Sprint(x.pv, "beyond", x.a.MaxConns))
					break
				}
			}
			for _, c := range in { // all of them are in service
				s, _ := c.Send("submit", submit(r, x.pv))
				if c.Resp("submit", s, e2e.Watchdog()) == nil {
					if alive(run, g, "submit") {
						run.Fail("no-service", rp, "%s: a connection within the limit is not served", x.pv)
					}
					return
				}
			}
			var ends []string
			for _, c := range in {
				how := c16ends[r.Intn(len(c16ends))]
				ends = append(ends, how)
				c16end(r, c, x.pv, x.a, cfg.Accounts, how)
			}
			for _, c := range conns {
				c.Close()
			}
			sort.Strings(ends)
			prev = fmt.Sprint(ends)
			for _, e := range ends {
				run.Count("ended_by_"+e, 1)
			}
		}
		run.Sample(map[string]any{"protocol": x.pv.String(), "limit": x.a.MaxConns, "last_ends": prev})
	}
}

// c16sessions holds the gateway at its session limit.
func c16sessions(run *lib.Run, r *rand.Rand, rep int) {
	limit := 3 + r.Intn(6)
	cfg := e2e.Config{Success: 1, Multicore: rep%2 == 0, LogLevel: 2, MaxSessions: limit}
	for i, pv := range gen.All {
		cfg.Accounts = append(cfg.Accounts, account(pv, i, 100, 4, 1000))
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	accts := map[string]e2e.Account{}
	for _, a := range cfg.Accounts {
		accts[a.Isp] = a
	}
	for _, proto := range []string{refc.CMPP, refc.SGIP, refc.SMGP} {
		a := accts[proto]
		pv := gen.PV{Proto: proto, Ver: a.Ver}
		for round := 0; round < run.N(8, 40) && !run.Failed(); round++ {
			// open more than the limit at once, log all in that the gateway keeps
			extra := 1 + r.Intn(5)
			conns := make([]*e2e.Conn, limit+extra)
			var held int32
			var mu sync.Mutex
			var in []*e2e.Conn
			sem := make(chan bool, 3)
			par(len(conns), func(i int) {
				c, err := e2e.Dial(g, proto, a.Ver, e2e.AutoClient)
				if err != nil {
					return
				}
				conns[i] = c
				if round%3 == 0 && i%2 == 0 { // some never log in, they take a place all the same
					time.Sleep(30 * time.Millisecond)
					if eof, _ := c.EOF(); !eof {
						atomic.AddInt32(&held, 1)
						mu.Lock()
						in = append(in, c)
						mu.Unlock()
					}
					return
				}
				sem <- true
				st, err := c.LoginWith(e2e.LoginM(a, uint32(i)))
				<-sem
				if err == nil && st == 0 {
					atomic.AddInt32(&held, 1)
					mu.Lock()
					in = append(in, c)
					mu.Unlock()
				}
			})
			if !alive(run, g, "connections at the session limit") {
				return
			}
			live := 0
			for _, c := range in {
				if eof, _ := c.EOF(); !eof {
					live++
				}
			}
			run.Case(fmt.Sprint("sessions", proto, limit, extra, live, round%3 == 0))
			run.Count("connections_opened", int64(len(conns)))
			rp := map[string]any{"protocol": proto, "limit": limit, "opened": len(conns), "round": round}
			if live > limit {
				run.Fail("sessions-over-limit", rp, "%s: a gateway for at most %d connections holds %d", proto, limit, live)
				return
			}
			// up to the limit there is room (retried, as the round before may still be ending)
			dl := time.Now().Add(e2e.Watchdog())
			for live < limit {
				c, st, err := e2e.TryLogin(g, a, e2e.AutoClient)
				if err == nil && st == 0 {
					in = append(in, c)
					live++
					continue
				}
				if c != nil {
					c.Close()
				}
				if time.Now().After(dl) {
					run.Fail("session-lost", rp, "%s: with %d of %d connections, no further one is taken (status %d, %v)", proto, live, limit, st, err)
					return
				}
				time.Sleep(5 * time.Millisecond)
			}
			for _, c := range in {
				if eof, e := c.EOF(); eof {
					run.Fail("session-closed", rp, "%s: a connection within the limit was ended (%v)", proto, e)
					return
				}
			}
			// beyond: not taken
			c, st, err := e2e.TryLogin(g, a, nil)
			if err == nil {
				run.Fail("sessions-beyond", rp, "%s: with %d of %d connections held, one more is answered (status %d)", proto, live, limit, st)
			}
			if c != nil {
				c.Close()
			}
			for _, c := range in {
				if c == nil {
					continue
				}
				c16end(r, c, pv, a, cfg.Accounts, c16ends[r.Intn(len(c16ends))])
			}
			for _, c := range conns {
				if c != nil {
					c.Close()
				}
			}
		}
	}
	run.Sample(map[string]any{"session_limit": limit})
}
