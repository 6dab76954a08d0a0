package main

import (
	"fmt"
	"math/rand"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C12"] = c12 }

func c12() {
	run := lib.NewRun("C12", "exhaustive observation of sampled executions",
		"one evaluation: one connection without a successful login and everything the gateway sent on it; distinct: protocol version × how it tries to get service × what it sends × how the stream is cut")
	for i := 0; i < run.N(12, 150); i++ {
		c12gateway(run, run.Sub(fmt.Sprint("c12", i)), i)
		if run.NFailed() > 10 {
			break
		}
	}
	run.Finish()
}

var c12ways = []string{"no login", "wrong secret", "unknown account", "wrong version", "malformed login", "empty login", "pipelined behind the login", "pipelined behind a wrong login",
	"too many connections", "response instead of login", "second protocol", "wrong login then right one", "refused, then the right login", "silent"}

func c12gateway(run *lib.Run, r *rand.Rand, rep int) {
	// every tick sends a delivery to every connection that is in service
	cfg := e2e.Config{Success: 1, Multicore: rep%2 == 0, LogLevel: 2, Tick: "25ms", Deliver: true, DeliverRate: 1, Contents: []string{"01_,_hello"}}
	type acct struct {
		pv      gen.PV
		a, full e2e.Account
	}
	var as []acct
	for i, pv := range gen.All {
		a, full := account(pv, i, 50, 64, 100000), account(pv, 50+i, 1, 64, 100000)
		as = append(as, acct{pv, a, full})
		cfg.Accounts = append(cfg.Accounts, a, full)
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	// a connection in service per account: holds the only slot of 'full', and witnesses that the
	// gateway is serving meanwhile
	var witness []*e2e.Conn
	for _, x := range as {
		c, err := e2e.Login(g, x.full, e2e.AutoClient)
		if err != nil {
			if alive(run, g, "login") {
				run.Fail("login", x.pv.String(), "%s: login not accepted: %v", x.pv, err)
			}
			return
		}
		defer c.Close()
		witness = append(witness, c)
	}
	seed := r.Int63()
	par(len(as), func(i int) {
		r := rand.New(rand.NewSource(seed + int64(i)))
		for round := 0; round < run.N(2, 6); round++ {
			for _, way := range c12ways {
				c12conn(run, r, g, as[i].pv, as[i].a, as[i].full, witness[i], way)
			}
		}
		// the witness has been served all along
		s, _ := witness[i].Send("submit", submit(r, as[i].pv))
		if e := witness[i].Resp("submit", s, e2e.Watchdog()); e == nil || result(*e) != 0 {
			if alive(run, g, "logins") {
				run.Fail("witness", as[i].pv.String(), "%s: a logged-in connection is not served any more", as[i].pv)
			}
		}
		if as[i].pv.Proto != refc.SGIP {
			n := 0
			for _, e := range witness[i].Evs() {
				if e.Kind == "deliver" {
					n++
				}
			}
			run.Count("deliveries_to_witnesses", int64(n))
		}
	})
	alive(run, g, "connections without login")
}

func c12conn(run *lib.Run, r *rand.Rand, g *e2e.Gateway, pv gen.PV, a, full e2e.Account, wit *e2e.Conn, way string) {
	c, err := e2e.Dial(g, pv.Proto, pv.Ver, e2e.AutoClient)
	if err != nil {
		if alive(run, g, "connect") {
			run.Fail("connect", pv.String(), "%s: can not connect: %v", pv, err)
		}
		return
	}
	defer c.Close()
	kind := e2e.LoginKind(pv.Proto)
	frame := func(k string, m refc.M) []byte { return refc.Frame(pv.Proto, pv.Ver, k, m, c.NewSeq()...) }
	var b []byte
	ts := uint32(r.Intn(1231235959))
	x := a
	mayLogin := false
	switch way {
	case "wrong secret", "pipelined behind a wrong login", "wrong login then right one":
		x.Secret = gen.Cut("!"+x.Secret, 16)
		b = frame(kind, e2e.LoginM(x, ts))
		if way == "wrong login then right one" {
			b = append(b, frame(kind, e2e.LoginM(a, ts))...)
			mayLogin = true // two logins are judged side by side; what counts is who gets service
		}
	case "refused, then the right login":
		switch r.Intn(3) {
		case 0:
			x.Secret = gen.Cut("!"+x.Secret, 16)
		case 1:
			x.Id = account(pv, 900, 1, 1, 1).Id
			x.Login = x.Id
		case 2:
			x.Secret = gen.Cut("!"+x.Secret, 16)
			if pv.Proto != refc.SGIP {
				x.Secret = a.Secret
				x.Ver = map[byte]byte{0x30: 0x20, 0x20: 0x30, 0x21: 0x30, 0x13: 0x30}[x.Ver]
			}
		}
		s := c.NewSeq()
		if c.Write(refc.Frame(pv.Proto, pv.Ver, kind, e2e.LoginM(x, ts), s...)) == nil {
			n := 0
			c.Until(e2e.Watchdog(), func(evs []e2e.Ev, _ bool) bool { n = len(evs); return n > 0 })
			if n > 0 {
				run.Count("logins_after_a_refusal", 1)
			}
		}
		time.Sleep([]time.Duration{0, 0, 2 * time.Millisecond, 50 * time.Millisecond}[r.Intn(4)])
		b = frame(kind, e2e.LoginM(a, ts))
	case "unknown account":
		x.Id = account(pv, 900, 1, 1, 1).Id
		x.Login = x.Id
		b = frame(kind, e2e.LoginM(x, ts))
	case "wrong version":
		if pv.Proto == refc.SGIP {
			x.Secret = ""
		}
		x.Ver = map[byte]byte{0x30: 0x20, 0x20: 0x30, 0x21: 0x30, 0x13: 0x30}[x.Ver]
		b = frame(kind, e2e.LoginM(x, ts))
	case "malformed login":
		f := frame(kind, e2e.LoginM(x, ts))
		end := len(f)
		if pv.Proto == refc.SGIP {
			end -= 8 // the reserved octets at the end may be missing
		}
		n := refc.HeadLen(pv.Proto) + r.Intn(end-refc.HeadLen(pv.Proto))
		f = f[:n]
		f[3] = byte(n)
		b = f
	case "empty login":
		b = frame(kind, refc.M{})
	case "pipelined behind the login":
		b = frame(kind, e2e.LoginM(a, ts))
		mayLogin = true
	case "too many connections":
		b = frame(kind, e2e.LoginM(full, ts))
	case "response instead of login":
		m := refc.M{"ver": pv.Ver}
		b = frame(kind+"_resp", m)
	case "second protocol":
		o := map[string]string{refc.CMPP: refc.SMGP, refc.SMGP: refc.CMPP, refc.SGIP: refc.SMGP}[pv.Proto]
		b = refc.Frame(o, 0x30, e2e.LoginKind(o), refc.M{"ver": 0x30}, 1)
	}
	var sent []string
	follow := way != "silent"
	if follow {
		for i := 1 + r.Intn(4); i > 0; i-- {
			k := []string{"submit", "submit", "active", e2e.LogoutKind(pv.Proto)}[r.Intn(4)]
			if pv.Proto == refc.SGIP && k == "active" {
				k = "submit"
			}
			if (way == "no login" || way == "pipelined behind the login" || way == "refused, then the right login") && i == 1 {
				k = "submit"
			}
			m := refc.M{}
			if k == "submit" {
				m = submit(r, pv)
			}
			b = append(b, frame(k, m)...)
			sent = append(sent, k)
		}
	}
	mode := []string{"whole", "whole", "small", "random"}[r.Intn(4)]
	if way == "pipelined behind the login" {
		mode = "whole"
	}
	pause := time.Duration(r.Intn(200)) * time.Microsecond
	rep := map[string]any{"way": way, "sent": sent, "cut": mode, "octets": fmt.Sprintf("%x", b)}
	_ = c.WriteCut(b, cuts(r, len(b), mode), pause) // the gateway may close before all is written
	if way == "silent" {
		// deliveries go to connections in service at every tick: wait for some to the witness
		if pv.Proto != refc.SGIP {
			n := len(wit.Evs())
			wit.Next(n, e2e.Watchdog(), func(e e2e.Ev) bool { return e.Kind == "deliver" })
			n = len(wit.Evs())
			wit.Next(n, e2e.Watchdog(), func(e e2e.Ev) bool { return e.Kind == "deliver" })
		} else {
			time.Sleep(60 * time.Millisecond)
		}
	} else if way != "response instead of login" || len(sent) > 0 {
		if !c.WaitEOF(e2e.Watchdog()) && !mayLogin {
			if alive(run, g, "connection without login") {
				run.Fail("not-closed", rep, "%s (%s): a connection without login that sent %v stays open", pv, way, sent)
			}
		}
	}
	run.Case(fmt.Sprint(pv, way, sent, mode))
	run.Count("connections", 1)
	login := false
	for _, e := range c.Evs() {
		st := -1
		if e.Kind == kind+"_resp" {
			if pv.Proto == refc.SGIP {
				st = int(e.M.U("result"))
			} else {
				st = int(e.M.U("status"))
				if pv.Proto == refc.CMPP && len(e.Raw) == 12+18 { // the layout follows the version the login asked for
					st = int(e.Raw[12])
				} else if len(e.Raw) >= 16 {
					st = int(e.Raw[12])<<24 | int(e.Raw[13])<<16 | int(e.Raw[14])<<8 | int(e.Raw[15])
				}
			}
		}
		switch {
		case st == 0:
			login = true
			if !mayLogin {
				run.Fail("login-accepted", rep, "%s (%s): the login is answered as accepted", pv, way)
			}
		case st > 0:
		case login && mayLogin:
			// requests behind an accepted login may be served once the login completed
		case e.Kind == "submit_resp":
			if e.Err != nil || result(e) == 0 {
				run.Fail("accepted", rep, "%s (%s): a submit without login is answered as accepted: %x", pv, way, e.Raw)
			}
		case e.Kind == "deliver":
			run.Fail("delivered", rep, "%s (%s): something is delivered to a connection without login: %x", pv, way, e.Raw)
		case e.Kind == "active_resp" || e.Kind == e2e.LogoutKind(pv.Proto)+"_resp":
			run.Fail("answered", rep, "%s (%s): a request without login is served: %x", pv, way, e.Raw)
		}
	}
	if login {
		run.Count("logins_completed_meanwhile", 1)
	}
	run.Sample(map[string]any{"protocol": pv.String(), "way": way, "sent": sent, "cut": mode})
}
