package main

import (
	"bytes"
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C36"] = c36 }

// c36 looks for secrets in what the programs write.
func c36() {
	run := lib.NewRun("C36", "exhaustive observation of sampled executions",
		"one evaluation: one secret that was used in the life of a gateway or a client, searched in everything the program wrote; distinct: program × kind of secret × what was done with it × log level × protocol version × store")
	n := run.N(16, 96)
	for i := 0; i < n && run.NFailed() < 5; i += 8 {
		par(8, func(k int) {
			r := run.Sub(fmt.Sprint("c36", i+k))
			if (i+k)%4 == 3 {
				c36client(run, r, i+k)
			} else {
				c36gateway(run, r, i+k)
			}
		})
	}
	run.Finish()
}

// c36secret is a secret, what it is, and what was done with it.
type c36secret struct{ s, kind, used string }

type c36secrets struct {
	r *rand.Rand
	l []c36secret
}

func (x *c36secrets) new(kind, used string) string {
	b := make([]byte, 14)
	for i := range b {
		b[i] = "abcdefghijkmnpqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"[x.r.Intn(56)]
	}
	x.l = append(x.l, c36secret{string(b), kind, used})
	return string(b)
}

// scan reads all a program wrote: its logs and its output, but not its settings.
func (x *c36secrets) scan(run *lib.Run, program, dir string, level int, conf string) {
	octets := 0
	_ = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			if err == nil && d.Name() == "config" {
				return fs.SkipDir
			}
			return nil
		}
		b, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		octets += len(b)
		rel, _ := filepath.Rel(dir, path)
		for _, s := range x.l {
			if i := bytes.Index(b, []byte(s.s)); i >= 0 {
				lo, hi := bytes.LastIndexByte(b[:i], '\n')+1, i+len(s.s)+40
				if hi > len(b) {
					hi = len(b)
				}
				line := strings.ReplaceAll(string(b[lo:hi]), s.s, "<the secret>")
				if len(line) > 500 {
					line = line[len(line)-500:]
				}
				run.Fail("written "+program+" "+s.kind, map[string]any{"program": program, "kind": s.kind, "used": s.used, "level": level, "configuration": conf},
					"the %s writes the %s (%s) into %s at log level %d: %s", program, s.kind, s.used, rel, level, line)
			}
		}
		return nil
	})
	run.Count("octets_searched", int64(octets))
	for _, s := range x.l {
		run.Case(fmt.Sprint(program, s.kind, s.used, level, conf))
		run.Count("secrets", 1)
	}
}

// c36gateway: a gateway with accounts in files or a database, logins of all kinds, edits and failures.
func c36gateway(run *lib.Run, r *rand.Rand, rep int) {
	x := &c36secrets{r: r}
	level := []int{-1, 0, 1, 2}[rep/4%4]
	cfg := e2e.Config{Success: 1, Debug: r.Intn(2) == 0, LogLevel: level, Multicore: r.Intn(2) == 0, Tick: "50ms", Reload: "100ms", MaxSessions: 30,
		Deliver: true, DeliverRate: 0.3, Contents: []string{"01_,_hello"}}
	mk := func(pv gen.PV, n int, used string) e2e.Account {
		a := fake(pv, n, 2, 16, 10000).A
		a.Secret = x.new("shared secret of an account", used)
		return a
	}
	for i, pv := range gen.All {
		cfg.Accounts = append(cfg.Accounts, mk(pv, i, "logins"))
	}
	conf := "files"
	var db *e2e.FakeMongo
	if rep%2 == 1 {
		conf = "database"
		db = &e2e.FakeMongo{}
		if err := db.Listen(); err != nil {
			fmt.Println("no port to listen on:", err)
			os.Exit(3)
		}
		defer db.Close()
		user, pass := "dbuser", x.new("password of the database", "connecting")
		cfg.Env = []string{"MONGO_USER=" + user, "MONGO_PASSWD=" + pass}
		cfg.Store = "AuthClient:\n  StoreType: \"mongo\"\n  ReloadTicker: 100ms\n" + e2e.MongoLogin(db.Port)
	}
	accounts := append([]e2e.Account{}, cfg.Accounts...)
	store := func() {
		if db == nil {
			return
		}
		var docs []e2e.BD
		for _, a := range accounts {
			docs = append(docs, c36doc(a))
		}
		db.Set("smsdb.authenticatedClients", docs)
	}
	store()
	g, err := e2e.StartGateway(cfg)
	if err != nil {
		run.Fail("gateway-start", conf, "the gateway does not start: %v", err)
		return
	}
	defer g.Stop()
	login := func(a e2e.Account) (*e2e.Conn, int) {
		c, st, err := e2e.TryLogin(g, a, e2e.AutoClient)
		if err != nil {
			st = -1
		}
		return c, st
	}
	in := 0
	for i, pv := range gen.All {
		a := accounts[i]
		c, st := login(a)
		if st == 0 { // in service
			in++
			_, _ = c.Send(e2e.LoginKind(pv.Proto), e2e.LoginM(a, 1118010101)) // once more
			for k := 0; k < 5; k++ {
				m := refc.M{"dest": []string{"13800138000"}, "src": a.Display, "content": []byte("hello")}
				_, _ = c.Send("submit", m)
			}
		}
		wrong := a
		wrong.Secret = x.new("wrong secret tried", "login with it")
		if w, _ := login(wrong); w != nil {
			w.Close()
		}
		other := a
		other.Id, other.Login, other.Secret = "77"+a.Id[2:], "nobody", x.new("secret of an unknown account", "login with it")
		if w, _ := login(other); w != nil {
			w.Close()
		}
		// a login that is cut, one with more behind, one in pieces, several at once
		b := refc.Frame(pv.Proto, pv.Ver, e2e.LoginKind(pv.Proto), e2e.LoginM(a, 1118010102), []uint32{1, 2, 3}[:seqLen(pv)]...)
		for k := 0; k < 4; k++ {
			w, err := e2e.Dial(g, pv.Proto, pv.Ver, nil)
			if err != nil {
				continue
			}
			switch k {
			case 0:
				_ = w.Write(b[:len(b)-1-r.Intn(8)])
			case 1:
				_ = w.Write(append(append([]byte{}, b...), b...))
			case 2:
				_ = w.WriteCut(b, []int{4, 12, 30}, 5*time.Millisecond)
			default:
				short := append([]byte{}, b[:len(b)-3]...) // its length says that this is all
				short[3] -= 3
				_ = w.Write(short)
			}
			w.WaitEOF(100 * time.Millisecond)
			if r.Intn(2) == 0 {
				w.Reset()
			} else {
				w.Close()
			}
		}
		// many at once
		var l []*e2e.Conn
		for k := 0; k < 12; k++ {
			if w, err := e2e.Dial(g, pv.Proto, pv.Ver, nil); err == nil {
				_ = w.Write(b)
				l = append(l, w)
			}
		}
		time.Sleep(50 * time.Millisecond)
		for _, w := range l {
			w.Close()
		}
		if c != nil {
			c.Close()
		}
	}
	if in == 0 {
		run.Fail("login", conf, "no login of the accounts in the store is accepted: %s", g.Tail(600))
		return
	}
	run.Count("logins", int64(in))
	// accounts change, and the store fails
	for k := 0; k < 4; k++ {
		for i := range accounts {
			if r.Intn(2) == 0 {
				accounts[i].Secret = x.new("shared secret of an account", "changed")
			}
			if db != nil {
				continue
			}
			switch k {
			case 0:
				g.Put(accounts[i])
			case 1: // unreadable beside the secret
				e2e.WriteFile(g.Store(), accounts[i].File(), accounts[i].YAML()+"max-conns: many\nfee-user-type: [1, 2\n")
			case 2:
				e2e.WriteFile(g.Store(), accounts[i].File(), strings.Replace(accounts[i].YAML(), "version:", "version: x", 1))
			default:
				g.Remove(accounts[i])
			}
		}
		if db != nil {
			switch k {
			case 1:
				db.Fault = nil
				db.Down()
				time.Sleep(300 * time.Millisecond)
				_ = db.Up()
			default:
				store()
			}
		}
		time.Sleep(250 * time.Millisecond)
		if c, _ := login(accounts[r.Intn(len(accounts))]); c != nil {
			c.Close()
		}
	}
	if g.Dead() {
		run.Fail("gateway-died", conf, "the gateway ended: %s", g.Tail(1500))
		return
	}
	if db != nil && len(db.Logins()) == 0 {
		run.Fail("no-database-login", conf, "the gateway never logs in to the database")
	}
	g.Signal(syscall.SIGTERM)
	g.Ended(e2e.Watchdog())
	x.scan(run, "gateway", g.Dir, level, conf)
	run.Sample(map[string]any{"program": "gateway", "store": conf, "level": level, "secrets": len(x.l), "logins_accepted": in})
}

func seqLen(pv gen.PV) int {
	if pv.Proto == refc.SGIP {
		return 3
	}
	return 1
}

// c36doc is an account's document.
func c36doc(a e2e.Account) e2e.BD {
	return e2e.BD{{"isp", a.Isp}, {"clientid", a.Id}, {"loginname", a.Login}, {"sharedsecret", a.Secret}, {"version", int32(a.Ver)},
		{"needreport", int32(1)}, {"smsdisplayno", a.Display}, {"serviceid", a.Service}, {"defaultmsglevel", int32(1)}, {"feeusertype", int32(2)},
		{"feetype", "05"}, {"feecode", "free"}, {"mtvalidduration", int64(time.Hour)}, {"maxconns", int32(a.MaxConns)}, {"mtwindowsize", int32(a.Window)}, {"throughput", int32(a.Tput)}}
}

// c36client: a client that logs in, is refused, loses connections and keeps its results in a database.
func c36client(run *lib.Run, r *rand.Rand, rep int) {
	x := &c36secrets{r: r}
	level := []int{-1, 0, 1, 2}[rep/4%4]
	var gs []*e2e.FakeGW
	a := newAnswerer(rand.New(rand.NewSource(r.Int63())))
	a.mix = true
	for i, pv := range trio(rep / 4) {
		g := fake(pv, i, 2, 1000, 10000)
		g.A.Secret = x.new("shared secret of an account", "login accepted or refused")
		n := 0
		g.OnLogin = func(c *e2e.GwConn, e e2e.Ev) bool {
			a.mu.Lock()
			n++
			k := n
			a.mu.Unlock()
			if k%3 == 2 {
				g.Refuse(c, e, 3)
				return true
			}
			return false
		}
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			if e.Kind == "submit" {
				a.onSubmit(c, e)
			}
		}
		gs = append(gs, g)
	}
	db := &e2e.FakeMongo{}
	if err := db.Listen(); err != nil {
		fmt.Println("no port to listen on:", err)
		os.Exit(3)
	}
	defer db.Close()
	pass := x.new("password of the database", "connecting")
	p := start(run, e2e.ClientConfig{GW: gs, LogLevel: level, Expire: "200ms", Check: "50ms", Extra: e2e.MongoLogin(db.Port),
		Env: []string{"MONGO_USER=dbuser", "MONGO_PASSWD=" + pass}})
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range gs {
			g.Stop()
		}
	}()
	if err := p.Call("journal", 0, nil); err != nil {
		run.Fail("journal", nil, "results are not kept: %v: %s", err, p.Tail(800))
		return
	}
	for k := 0; k < 4; k++ {
		var sent []e2e.Sent
		if err := p.Call("batch", e2e.Batch{Msgs: messages(r, 40), Workers: 3}, &sent); err != nil {
			if alive(run, p, "send") {
				run.Fail("send", nil, "messages are not sent: %v", err)
			}
			return
		}
		for _, g := range gs {
			_, in := g.Live()
			for _, c := range in {
				if r.Intn(2) == 0 {
					c.Reset()
				}
			}
		}
		if k == 1 {
			db.Down()
		}
		time.Sleep(300 * time.Millisecond)
		if k == 1 {
			_ = db.Up()
		}
	}
	if len(db.Logins()) == 0 {
		run.Fail("no-database-login", nil, "the client never logs in to the database")
	}
	p.Signal(syscall.SIGTERM)
	select {
	case <-p.Exited():
	case <-time.After(e2e.Watchdog()):
	}
	x.scan(run, "client", p.Dir, level, "database")
	run.Sample(map[string]any{"program": "client", "level": level, "secrets": len(x.l)})
}
