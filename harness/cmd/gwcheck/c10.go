package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/hrygo/gosms/codec"
	"github.com/hrygo/gosms/codec/cmpp"
	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/codec/smgp"
	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C10"] = c10 }

// codes are the refusals of a protocol: unknown account, wrong authenticator, wrong version, too many connections.
var codes = map[string][4]int{refc.CMPP: {2, 3, 4, 5}, refc.SMGP: {69, 21, 22, 2}, refc.SGIP: {1, 1, 1, 3}}

func c10() {
	run := lib.NewRun("C10", "exhaustive single-bit mutations per sampled login, plus observed live logins",
		"one evaluation: one login request judged (by the message's own check, and by a live gateway); distinct: protocol version × what is wrong with the login × field and bit")
	c10unit(run)
	if !run.Failed() {
		for i := 0; i < run.N(1, 6); i++ {
			c10live(run, run.Sub(fmt.Sprint("live", i)))
		}
	}
	run.Finish()
}

// judge decodes a login like the gateway does and gives the account name it states, the status for that
// account, and the response's octets.
func judge(pv gen.PV, seq uint32, body []byte, find func(string) *codec.AuthConf) (st int, resp []byte, err error) {
	switch pv.Proto {
	case refc.CMPP:
		l := &cmpp.Connect{}
		if err = l.Decode(seq, body); err != nil {
			return
		}
		st = int(l.Check(find(l.SourceAddr())))
		return st, l.ToResponse(uint32(st)).Encode(), nil
	case refc.SMGP:
		l := &smgp.Login{}
		if err = l.Decode(seq, body); err != nil {
			return
		}
		st = int(l.Check(find(l.ClientID())))
		return st, l.ToResponse(uint32(st)).Encode(), nil
	}
	l := &sgip.Bind{}
	if err = l.Decode(seq, body); err != nil {
		return
	}
	st = int(l.Check(find(l.LoginName)))
	return st, l.ToResponse(uint32(st)).Encode(), nil
}

func conf(a e2e.Account) *codec.AuthConf {
	return &codec.AuthConf{ISP: a.Isp, ClientId: a.Id, LoginName: a.Login, SharedSecret: a.Secret, Version: a.Ver, MaxConns: a.MaxConns, MtWindowSize: a.Window}
}

func c10unit(run *lib.Run) {
	for _, pv := range gen.All {
		r := run.Sub("unit" + pv.String())
		for i := 0; i < run.N(60, 1500); i++ {
			a := account(pv, r.Intn(999), 1, 1, 1)
			a.Secret = gen.UpTo(r, 16, 0)
			if r.Intn(4) == 0 && pv.Proto != refc.SGIP {
				a.Secret = gen.Str(r, r.Intn(60))
			}
			if r.Intn(3) == 0 {
				w := 6
				if pv.Proto != refc.CMPP {
					w = 8
				}
				a.Id = strings.ToLower(gen.Str(r, 1+r.Intn(w)))
				a.Login = a.Id
			}
			other := account(pv, 5000, 1, 1, 1)
			other.Secret = a.Secret + "x"
			if pv.Proto == refc.SGIP {
				other.Secret = gen.Cut("x"+a.Secret, 16)
			}
			find := func(n string) *codec.AuthConf {
				if n == a.Name() {
					return conf(a)
				}
				if n == other.Name() {
					return conf(other)
				}
				return nil
			}
			ts := []uint32{0, 1, 1231235959, uint32(r.Intn(1231235959)), r.Uint32()}[r.Intn(5)]
			m := e2e.LoginM(a, ts)
			kind := e2e.LoginKind(pv.Proto)
			body := refc.Body(pv.Proto, pv.Ver, kind, m)
			ask := func(what string, b []byte, want int) {
				seq := r.Uint32()
				var st int
				var resp []byte
				var err error
				if pv.Proto == refc.SGIP {
					b = append(make([]byte, 8), b...)
				}
				if p := lib.Guard(func() { st, resp, err = judge(pv, seq, b, find) }); p != nil {
					run.Fail("panic", what, "%s: judging a login (%s) panics: %v", pv, what, p)
					return
				}
				run.Case(fmt.Sprint(pv, what))
				rep := map[string]any{"account": a.Name(), "secret": a.Secret, "body": fmt.Sprintf("%x", b), "case": what}
				if err != nil {
					run.Fail("decode", rep, "%s: a login (%s) can not be read: %v", pv, what, err)
					return
				}
				bad := want >= 0 && st != want || want == -1 && st == 0
				if bad {
					run.Fail("status", rep, "%s: a login (%s) gets status %d, wanted %d (-1: any refusal)", pv, what, st, want)
					return
				}
				v := pv.Ver
				if pv.Proto == refc.CMPP && m["ver"] != nil {
					v = b[22]
				}
				p, perr := refc.ParseFrame(pv.Proto, v, resp)
				if perr != nil {
					run.Fail("response", rep, "%s: garbled login response %x: %v", pv, resp, perr)
					return
				}
				got := int(p.M.U("status"))
				if pv.Proto == refc.SGIP {
					got = int(p.M.U("result"))
				}
				if got != st {
					run.Fail("response", rep, "%s: the login response says %d, the decision was %d", pv, got, st)
				}
				if pv.Proto != refc.SGIP && st == 0 {
					if proof := gen.Proof(gen.PV{Proto: pv.Proto, Ver: v}, m.B("auth"), a.Secret); !bytes.Equal(proof, p.M.B("auth")) {
						run.Fail("proof", rep, "%s: the response to an accepted login does not prove the gateway", pv)
					}
				}
			}
			ask("right", body, 0)
			// every bit of every field
			off := 0
			for _, f := range refc.Fields(pv.Proto, pv.Ver, kind) {
				used := f.Width
				if f.Kind == 's' {
					used = len(m.S(f.Name))
				}
				for o := 0; o < used; o++ {
					for bit := 0; bit < 8; bit++ {
						b := append([]byte(nil), body...)
						b[off+o] ^= 1 << bit
						want := -2
						switch f.Name {
						case "src", "client", "name":
							want = codes[pv.Proto][0]
							if find(strings.SplitN(string(b[off:off+f.Width]), "\x00", 2)[0]) != nil {
								want = -1 // another account's name: its secret does not fit
							}
							if b[off+o] == 0 && o == used-1 && used == 1 {
								want = codes[pv.Proto][0]
							}
						case "auth", "ts", "password":
							want = codes[pv.Proto][1]
						case "ver":
							if bit < 4 {
								continue // the minor version is not demanded
							}
							want = codes[pv.Proto][2]
						default:
							continue
						}
						ask(fmt.Sprintf("bit %d of octet %d of %s flipped", bit, o, f.Name), b, want)
					}
				}
				off += f.Width
			}
			wrong := func(what string, f func(x *e2e.Account), want int) {
				x := a
				f(&x)
				ask(what, refc.Body(pv.Proto, pv.Ver, kind, e2e.LoginM(x, ts)), want)
			}
			if len(a.Secret) > 0 {
				wrong("secret cut short", func(x *e2e.Account) { x.Secret = x.Secret[:len(x.Secret)-1] }, codes[pv.Proto][1])
				wrong("secret without its first octet", func(x *e2e.Account) { x.Secret = x.Secret[1:] }, codes[pv.Proto][1])
				wrong("no secret", func(x *e2e.Account) { x.Secret = "" }, codes[pv.Proto][1])
				k := r.Intn(len(a.Secret))
				wrong("secret with a bit changed", func(x *e2e.Account) {
					b := []byte(x.Secret)
					b[k] ^= 1 << r.Intn(7)
					x.Secret = string(b)
					if b[k] == 0 {
						x.Secret = "\x01"
					}
				}, codes[pv.Proto][1])
				if up := strings.ToUpper(a.Secret); up != a.Secret {
					wrong("secret in other case", func(x *e2e.Account) { x.Secret = up }, codes[pv.Proto][1])
				}
			}
			if len(a.Secret) < 16 {
				wrong("secret with a longer end", func(x *e2e.Account) { x.Secret += "0" }, codes[pv.Proto][1])
			}
			wrong("another account's secret", func(x *e2e.Account) { x.Secret = other.Secret }, codes[pv.Proto][1])
			if pv.Proto != refc.SGIP {
				// another account's whole proof under this name, the proof for another time
				mm := e2e.LoginM(other, ts)
				for k, v := range m {
					if k != "auth" {
						mm[k] = v
					}
				}
				ask("another account's authenticator", refc.Body(pv.Proto, pv.Ver, kind, mm), codes[pv.Proto][1])
				mm["auth"] = gen.Auth(pv.Proto, a.Id, a.Secret, ts+1)
				ask("authenticator of another time", refc.Body(pv.Proto, pv.Ver, kind, mm), codes[pv.Proto][1])
				mm["auth"] = make([]byte, 16)
				ask("authenticator of zeros", refc.Body(pv.Proto, pv.Ver, kind, mm), codes[pv.Proto][1])
				mm["auth"] = m["auth"]
				mm[map[string]string{refc.CMPP: "src", refc.SMGP: "client"}[pv.Proto]] = other.Id
				ask("this authenticator under another name", refc.Body(pv.Proto, pv.Ver, kind, mm), codes[pv.Proto][1])
			}
			run.Sample(map[string]any{"protocol": pv.String(), "account": a.Name(), "timestamp": ts})
		}
	}
}

// c10live asks a live gateway.
func c10live(run *lib.Run, r *rand.Rand) {
	cfg := e2e.Config{Success: 1, Multicore: r.Intn(2) == 0, LogLevel: 2, Reload: "40ms"}
	type pair struct {
		pv gen.PV
		a  e2e.Account
	}
	var ps []pair
	for i, pv := range gen.All {
		a := account(pv, i, 20, 4, 1000)
		cfg.Accounts = append(cfg.Accounts, a)
		ps = append(ps, pair{pv, a})
		// one that never logs in with success: its secret is the other one's name
		b := account(pv, 100+i, 20, 4, 1000)
		b.Secret = gen.Str(r, 12)
		cfg.Accounts = append(cfg.Accounts, b)
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	// try sends a login until the gateway answers it
	try := func(pv gen.PV, m refc.M) (c *e2e.Conn, st int, ok bool) {
		ver := pv.Ver
		if v, has := m["ver"].(byte); has { // the version asked for decides the layout of the answer
			ver = v
		}
		for i := 0; i < 40; i++ {
			c, err := e2e.Dial(g, pv.Proto, ver, e2e.AutoClient)
			if err == nil {
				st, err = c.LoginWith(m)
				if err == nil {
					return c, st, true
				}
				c.Close()
				if err != e2e.ErrNoAnswer {
					run.Fail("login-answer", fmt.Sprint(pv), "%s: %v", pv, err)
					return nil, 0, false
				}
			}
			if g.Dead() {
				break
			}
			time.Sleep(time.Duration(i*20) * time.Millisecond)
		}
		if alive(run, g, "logins") {
			run.Fail("login-unanswered", fmt.Sprint(pv), "%s: a login is never answered", pv)
		}
		return nil, 0, false
	}
	expect := func(what string, pv gen.PV, m refc.M, want int) {
		c, st, ok := try(pv, m)
		if !ok {
			return
		}
		defer c.Close()
		run.Case(fmt.Sprint("live", pv, what))
		run.Count("live_logins", 1)
		if st != want {
			run.Fail("live-status", map[string]any{"case": what, "login": fmt.Sprint(m)}, "%s: the gateway answers a login (%s) with status %d, wanted %d", pv, what, st, want)
			return
		}
		e := c.Evs()[0]
		if st != 0 {
			if !c.WaitEOF(e2e.Watchdog()) {
				run.Fail("not-closed", what, "%s: the connection stays open after its login (%s) was refused", pv, what)
			}
			return
		}
		if pv.Proto != refc.SGIP {
			secret := ""
			for _, a := range cfg.Accounts {
				if a.Isp == pv.Proto && a.Id == m.S(map[string]string{refc.CMPP: "src", refc.SMGP: "client"}[pv.Proto]) {
					secret = a.Secret
				}
			}
			if strings.HasPrefix(what, "new secret") {
				secret = strings.TrimPrefix(what, "new secret ")
			}
			if !bytes.Equal(gen.Proof(pv, m.B("auth"), secret), e.M.B("auth")) {
				run.Fail("live-proof", what, "%s: the answer to an accepted login does not prove the gateway", pv)
			}
		}
		s, _ := c.Send("submit", submit(rand.New(rand.NewSource(1)), pv))
		if c.Resp("submit", s, e2e.Watchdog()) == nil {
			run.Fail("no-service", what, "%s: no service after an accepted login", pv)
		}
		logout(c)
	}
	ts := func(r *rand.Rand) uint32 { return uint32(r.Intn(1231235959)) }
	n := run.N(60, 300)
	seeds := make([]int64, 4)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	par(4, func(w int) {
		r := rand.New(rand.NewSource(seeds[w]))
		for i := 0; i < n && run.NFailed() < 10; i++ {
			p := ps[r.Intn(len(ps))]
			a := p.a
			c := codes[p.pv.Proto]
			switch r.Intn(8) {
			case 0, 1:
				expect("right", p.pv, e2e.LoginM(a, ts(r)), 0)
			case 2:
				a.Secret = gen.Cut(a.Secret+"x", 16)
				expect("wrong secret", p.pv, e2e.LoginM(a, ts(r)), c[1])
			case 3:
				a.Id = account(p.pv, 800+r.Intn(50), 1, 1, 1).Id
				a.Login = a.Id
				expect("unknown account", p.pv, e2e.LoginM(a, ts(r)), c[0])
			case 4:
				if p.pv.Proto != refc.SGIP {
					a.Ver ^= 0x10
					if a.Ver&0xf0 == 0 {
						a.Ver = 0x20
					}
					expect("wrong version", p.pv, e2e.LoginM(a, ts(r)), c[2])
				}
			case 5:
				m := e2e.LoginM(a, ts(r))
				if p.pv.Proto == refc.SGIP {
					m["password"] = gen.Str(r, r.Intn(17))
				} else {
					m["ts"] = m["ts"].(uint32) + 1
				}
				expect("wrong time", p.pv, m, c[1])
			case 6:
				b := account(p.pv, 100, 1, 1, 1)
				for _, x := range cfg.Accounts {
					if x.Isp == a.Isp && x.Id != a.Id {
						b = x
					}
				}
				a.Secret = b.Secret
				expect("another account's secret", p.pv, e2e.LoginM(a, ts(r)), c[1])
			case 7: // the account of another protocol
				q := ps[r.Intn(len(ps))]
				if q.pv.Proto != p.pv.Proto {
					x := q.a
					x.Isp, x.Ver = p.pv.Proto, p.pv.Ver
					x.Id = gen.Cut(x.Id, map[string]int{refc.CMPP: 6, refc.SMGP: 8, refc.SGIP: 16}[p.pv.Proto])
					x.Login = x.Id
					expect("account of another protocol", p.pv, e2e.LoginM(x, ts(r)), c[0])
				}
			}
		}
	})
	if run.Failed() {
		return
	}
	// a changed secret counts from the next reload on, a removed account is unknown
	for i, p := range ps {
		a := p.a
		b := a
		b.Secret = fmt.Sprintf("changed %d", i)
		g.Put(b)
		dl := time.Now().Add(e2e.Watchdog())
		for {
			c, st, ok := try(p.pv, e2e.LoginM(b, ts(r)))
			if !ok {
				return
			}
			c.Close()
			if st == 0 {
				break
			}
			if time.Now().After(dl) {
				run.Fail("secret-reload", a.Id, "%s: a changed secret is not accepted (status %d) %s after the change", p.pv, st, e2e.Watchdog())
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		for k := 0; k < 3; k++ {
			expect("old secret", p.pv, e2e.LoginM(a, ts(r)), codes[p.pv.Proto][1])
			expect("new secret "+b.Secret, p.pv, e2e.LoginM(b, ts(r)), 0)
		}
		g.Remove(b)
		for {
			c, st, ok := try(p.pv, e2e.LoginM(b, ts(r)))
			if !ok {
				return
			}
			c.Close()
			if st != 0 {
				break
			}
			if time.Now().After(dl) {
				run.Fail("removed", a.Id, "%s: a removed account is still accepted", p.pv)
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		expect("removed account", p.pv, e2e.LoginM(b, ts(r)), codes[p.pv.Proto][0])
	}
	alive(run, g, "logins")
}
