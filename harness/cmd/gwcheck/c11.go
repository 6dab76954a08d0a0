package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C11"] = c11 }

func c11() {
	run := lib.NewRun("C11", "exhaustive observation of sampled executions",
		"one evaluation: one account lookup compared with the store's model, or one login against it; distinct: protocol × id × stored version × step")
	n := run.N(6, 40)
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = run.Sub(fmt.Sprint("c11", i)).Int63()
	}
	for i := 0; i < n && !run.Failed(); i += 3 {
		par(3, func(k int) {
			if i+k < n {
				c11store(run, rand.New(rand.NewSource(seeds[i+k])), i+k)
			}
		})
	}
	for i := 0; i < run.N(2, 10) && !run.Failed(); i++ {
		c11watch(run, run.Sub(fmt.Sprint("c11w", i)), i)
	}
	for i := 0; i < run.N(1, 4) && !run.Failed(); i++ {
		c11gateway(run, run.Sub(fmt.Sprint("c11g", i)))
	}
	run.Finish()
}

type akey struct{ Isp, Id string }

// wkey is an account that is watched; Always: stored all the time.
type wkey struct {
	akey
	Always bool
}

func watched(keys []akey) (l []wkey) {
	for i, k := range keys {
		l = append(l, wkey{k, i < len(keys)/2})
	}
	return
}

type found struct {
	Client, Conf *e2e.Attrs
}

type storeProc struct {
	*e2e.Proc
	dir string
}

func startStore(run *lib.Run, reload string, put map[akey]e2e.Account) *storeProc {
	d := e2e.ScratchDir("store")
	s := &storeProc{dir: filepath.Join(d, "accounts here")}
	_ = os.MkdirAll(filepath.Join(d, "config"), 0755)
	_ = os.MkdirAll(s.dir, 0755)
	path := "accounts here"
	if reload != "1h" {
		path += "/" // with and without the slash
	}
	cfg := "AppDebug: true\nServer:\n  TickDuration: 10s\nAuthClient:\n  StoreType: \"yml\"\n  ReloadTicker: " + reload + "\n  YamlFilePath: \"" + path + "\"\n" +
		"Snowflake:\n  B64:\n    DC: 1\n    Worker: 5\n  B32:\n    DC: 0\n    Worker: 3\n  BCD: \"010203\"\n  SGIP: 3037196688\n" +
		"Logs:\n  CounterDB:\n    LogName: \"logs/db.json\"\n    Level: -1\n    TextFormat: \"json\"\n    TimePrecision: \"millisecond\"\n    MaxSize: 5\n"
	_ = os.WriteFile(filepath.Join(d, "config", "config.yaml"), []byte(cfg), 0644)
	for k, a := range put {
		s.put(k, a)
	}
	var err error
	if s.Proc, err = e2e.StartProc("storemain", d); err != nil {
		run.Fail("store-start", nil, "the store does not start: %v", err)
		return nil
	}
	if err = s.Call("sleep", nil, nil); err != nil {
		run.Fail("store-start", nil, "the store does not start: %v: %s", err, s.Tail(800))
		s.Stop()
		return nil
	}
	return s
}

func (s *storeProc) put(k akey, a e2e.Account) {
	e2e.WriteFile(s.dir, k.Isp+"_"+k.Id+".yaml", c11text(a))
}

// c11text is the account's file in one of many styles.
func c11text(a e2e.Account) string {
	h := fnv.New64a()
	_, _ = h.Write([]byte(a.YAML()))
	return a.Styled(rand.New(rand.NewSource(int64(h.Sum64()))))
}

func (s *storeProc) remove(k akey) { _ = os.Remove(filepath.Join(s.dir, k.Isp+"_"+k.Id+".yaml")) }

var c11strings = []string{"", "a", "10690001", "with space", "quote\"s", "back\\slash", "# not a comment", "a: b", "[x]", "中文", "null", "true", "012", "1e5", "~", " lead", "trail ", "%", "tab\tnl\n", "0x1F", strings.Repeat("x", 300)}

func c11account(r *rand.Rand, k akey) e2e.Account {
	s := func() string {
		if r.Intn(3) == 0 {
			return gen.Digits(r, 1+r.Intn(12))
		}
		return c11strings[r.Intn(len(c11strings))]
	}
	b := func() byte { return byte(r.Intn(256)) }
	a := e2e.Account{Isp: k.Isp, Id: k.Id, Login: s(), Secret: s(), Ver: b(), NeedReport: b(), Level: b(), FeeUser: b(), FeeTermType: b(), Display: s(), Service: s(),
		FeeTerm: s(), FeeType: s(), FeeCode: s(), Fixed: s(), Link: s(), Valid: []string{"1h", "90m", "1500ms", "48h30m", "0s", "1us"}[r.Intn(6)],
		MaxConns: r.Intn(1 << 20), Window: r.Intn(1 << 20), Tput: r.Intn(1 << 30)}
	if r.Intn(3) == 0 {
		a = a.Sparse(r)
	}
	return a
}

// c11store edits a store at random and compares every lookup with a model of it.
func c11store(run *lib.Run, r *rand.Rand, rep int) {
	isps := []string{"cmpp", "sgip", "smgp"}
	var keys []akey
	for _, isp := range isps {
		for i := 0; i < 8; i++ {
			id := gen.Digits(r, []int{1, 4, 6, 8, 10}[r.Intn(5)])
			if r.Intn(4) == 0 {
				id = "sp" + id
			}
			if r.Intn(8) == 0 {
				id = "Up" + id
			}
			keys = append(keys, akey{isp, id})
		}
	}
	// ids that resemble each other
	keys = append(keys, akey{"cmpp", "900001"}, akey{"cmpp", "90000"}, akey{"cmpp", "9000012"}, akey{"sgip", "900001"}, akey{"smgp", "900001"}, akey{"cmpp", "900_01"}, akey{"cmpp", "900.01"})
	model := map[akey]e2e.Account{}
	for _, k := range keys {
		if r.Intn(2) == 0 {
			model[k] = c11account(r, k)
		}
	}
	model[keys[0]] = c11account(r, keys[0])
	reload := "1h"
	ticker := rep%2 == 1
	if ticker {
		reload = "20ms"
	}
	s := startStore(run, reload, model)
	if s == nil {
		return
	}
	defer s.Stop()
	sentinel := akey{"cmpp", "sentinel"}
	sv := 0
	// reloaded brings the store up to date: by a reload of its own, or by waiting until the ticker's reload,
	// which began after the edits, has been seen.
	reloaded := func() bool {
		if !ticker {
			if err := s.Call("load", nil, nil); err != nil {
				run.Fail("load", nil, "a reload does not come back: %v: %s", err, s.Tail(800))
				return false
			}
			return true
		}
		for i := 0; i < 2; i++ {
			sv++
			s.put(sentinel, e2e.Versioned(sentinel.Isp, sentinel.Id, sv))
			ok := false
			for t := time.Now(); time.Since(t) < e2e.Watchdog() && !ok; time.Sleep(3 * time.Millisecond) {
				var l []found
				if err := s.Call("find", []akey{sentinel}, &l); err != nil {
					run.Fail("find", nil, "a lookup does not come back: %v: %s", err, s.Tail(800))
					return false
				}
				ok = l[0].Client != nil && l[0].Client.Version() == sv
			}
			if !ok {
				run.Fail("no-reload", nil, "the reload timer (20ms) does not bring up a changed account")
				return false
			}
		}
		return true
	}
	judge := func(step int) {
		var ask []akey
		ask = append(ask, keys...)
		for i := 0; i < 12; i++ {
			k := keys[r.Intn(len(keys))]
			switch r.Intn(6) {
			case 0:
				k.Id += "0"
			case 1:
				k.Id = k.Id[:len(k.Id)-1]
			case 2:
				k.Isp = isps[r.Intn(3)]
			case 3:
				k.Id = ""
			case 4:
				k.Id = "yaml"
			case 5:
				k.Isp, k.Id = "", k.Isp+"_"+k.Id
			}
			ask = append(ask, k)
		}
		var l []found
		if err := s.Call("find", ask, &l); err != nil {
			run.Fail("find", nil, "a lookup does not come back: %v: %s", err, s.Tail(800))
			return
		}
		for i, k := range ask {
			a, ok := model[k]
			run.Case(fmt.Sprint(k, ok, a.Secret, step))
			run.Count("lookups", 1)
			if !ok {
				if l[i].Client != nil || l[i].Conf != nil {
					run.Fail("invented", k, "an account that is not stored is served: %v: %+v", k, l[i].Client)
				}
				continue
			}
			run.Count("accounts_served", 1)
			for j, got := range []*e2e.Attrs{l[i].Client, l[i].Conf} {
				if got == nil {
					run.Fail("missing", k, "a stored account is not served: %v (step %d)", k, step)
				} else if *got != a.Attrs() {
					w, _ := json.Marshal(a.Attrs())
					g, _ := json.Marshal(got)
					run.Fail("attributes", k, "%v (step %d, %s): attributes differ from the stored ones: got %s, stored %s", k, step, []string{"account", "configuration"}[j], g, w)
				}
			}
		}
	}
	if ticker && !reloaded() {
		return
	}
	judge(0)
	for step := 1; step <= run.N(12, 40) && !run.Failed(); step++ {
		var acts []string
		for i := r.Intn(6); i >= 0; i-- {
			k := keys[r.Intn(len(keys))]
			switch x := r.Intn(10); {
			case x < 5:
				model[k] = c11account(r, k)
				s.put(k, model[k])
				acts = append(acts, "put "+k.Isp+k.Id)
			case x < 9:
				delete(model, k)
				s.remove(k)
				_ = os.Remove(filepath.Join(s.dir, k.Isp+"_"+k.Id+".yml"))
				acts = append(acts, "remove "+k.Isp+k.Id)
			default:
				// the other extension
				delete(model, k)
				s.remove(k)
				model[k] = c11account(r, k)
				e2e.WriteFile(s.dir, k.Isp+"_"+k.Id+".yml", c11text(model[k]))
				acts = append(acts, "yml "+k.Isp+k.Id)
			}
		}
		// a key may be stored under one extension only
		for _, k := range keys {
			y := filepath.Join(s.dir, k.Isp+"_"+k.Id+".yml")
			if _, err := os.Stat(y); err == nil {
				if _, err := os.Stat(filepath.Join(s.dir, k.Isp+"_"+k.Id+".yaml")); err == nil {
					_ = os.Remove(y)
				}
			}
		}
		if r.Intn(3) == 0 {
			// things that are no accounts
			e2e.WriteFile(s.dir, "README.md", "hello")
			e2e.WriteFile(s.dir, "a", "b")
			e2e.WriteFile(s.dir, "x.yaml", "client-id: x")
			e2e.WriteFile(s.dir, ".yaml", "client-id: x")
			_ = os.MkdirAll(filepath.Join(s.dir, "cmpp_777777.yaml"), 0755)
			e2e.WriteFile(s.dir, "cmpp_888888.yaml.bak", e2e.Versioned("cmpp", "888888", 1).YAML())
			e2e.WriteFile(s.dir, "cmpp_666666.yaml", "client-id: [\n  broken")
			acts = append(acts, "junk")
			run.Count("junk_files", 1)
		}
		if !reloaded() {
			return
		}
		judge(step)
		if step == 1 {
			run.Sample(map[string]any{"accounts": len(model), "by_timer": ticker, "edits": acts})
		}
	}
	// everything removed
	for _, k := range keys {
		delete(model, k)
		s.remove(k)
		_ = os.Remove(filepath.Join(s.dir, k.Isp+"_"+k.Id+".yml"))
	}
	if !run.Failed() && reloaded() {
		judge(99)
	}
	if s.Dead() {
		run.Fail("store-died", nil, "the process ended: %s", s.Tail(1000))
	}
}

// c11watch looks accounts up all the time while they are rewritten and reloaded.
func c11watch(run *lib.Run, r *rand.Rand, rep int) {
	put := map[akey]e2e.Account{}
	var keys []akey
	for i := 0; i < 16; i++ {
		k := akey{[]string{"cmpp", "sgip", "smgp"}[i%3], fmt.Sprint(700000 + i)}
		keys = append(keys, k)
		put[k] = e2e.Versioned(k.Isp, k.Id, 1)
	}
	reload := "1h"
	if rep%2 == 0 {
		reload = "3ms"
	}
	s := startStore(run, reload, put)
	if s == nil {
		return
	}
	defer s.Stop()
	if err := s.Call("watch", watched(keys), nil); err != nil {
		run.Fail("watch", nil, "lookups do not come back: %v: %s", err, s.Tail(800))
		return
	}
	for v := 2; v < run.N(150, 1500); v++ {
		for i, k := range keys {
			if i < len(keys)/2 && reload != "1h" {
				continue // a file that is replaced while the directory is read may be missed by the system itself
			}
			if r.Intn(20) == 0 && i >= len(keys)/2 {
				s.remove(k)
			} else {
				s.put(k, e2e.Versioned(k.Isp, k.Id, v))
			}
		}
		if reload == "1h" {
			if err := s.Call("load", nil, nil); err != nil {
				run.Fail("load", nil, "a reload does not come back: %v: %s", err, s.Tail(800))
				return
			}
		} else {
			time.Sleep(5 * time.Millisecond)
		}
		run.Case(fmt.Sprint("watch", rep, v))
	}
	var res struct {
		Bad      []string
		Lookups  int64
		Versions int64
	}
	if err := s.Call("unwatch", nil, &res); err != nil {
		run.Fail("unwatch", nil, "lookups do not come back: %v: %s", err, s.Tail(800))
		return
	}
	run.Count("concurrent_lookups", res.Lookups)
	run.Count("versions_seen_by_concurrent_lookups", res.Versions)
	for _, b := range res.Bad {
		run.Fail("concurrent", rep, "%s", b)
	}
	run.Sample(map[string]any{"reload": reload, "lookups": res.Lookups, "versions_seen": res.Versions})
}

// c11gateway: the gateway's own decisions follow the store.
func c11gateway(run *lib.Run, r *rand.Rand) {
	cfg := e2e.Config{Success: 1, LogLevel: 2, Reload: "20ms"}
	var as []e2e.Account
	for i, pv := range gen.All {
		a := account(pv, i, 20, 64, 100000)
		cfg.Accounts = append(cfg.Accounts, a)
		as = append(as, a)
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	sent := account(gen.All[0], 500, 100, 8, 1000)
	sync := func() bool {
		for i := 0; i < 2; i++ {
			sent.Secret = fmt.Sprintf("sentinel%d", r.Intn(1e8))
			g.Put(sent)
			ok := false
			for t := time.Now(); time.Since(t) < e2e.Watchdog() && !ok; time.Sleep(5 * time.Millisecond) {
				c, code, err := e2e.TryLogin(g, sent, nil)
				if c != nil {
					c.Close()
				}
				ok = err == nil && code == 0
			}
			if !ok {
				if alive(run, g, "reload") {
					run.Fail("gateway-reload", nil, "a changed secret is not accepted by the gateway")
				}
				return false
			}
		}
		return true
	}
	expect := func(a e2e.Account, ok bool, what string) {
		run.Case(fmt.Sprint(a.Isp, a.Ver, what))
		run.Count("logins", 1)
		for try := 0; ; try++ {
			c, code, err := e2e.TryLogin(g, a, nil)
			if c != nil {
				c.Close()
			}
			if err != nil && try < 20 && alive(run, g, "login") {
				time.Sleep(20 * time.Millisecond)
				continue // no answer: the login queue was full
			}
			if (err == nil && code == 0) != ok {
				if alive(run, g, "login") {
					run.Fail("gateway-"+strings.Fields(what)[0], nil, "%s %s: %s: login answered with %d (%v), accepted expected: %v", a.Isp, a.Id, what, code, err, ok)
				}
			}
			return
		}
	}
	for round := 0; round < run.N(4, 12) && !run.Failed(); round++ {
		for i := range as {
			old := as[i]
			switch r.Intn(3) {
			case 0:
				as[i].Secret = fmt.Sprintf("s%d", r.Intn(1e9))
				g.Put(as[i])
				if !sync() {
					return
				}
				expect(as[i], true, "changed secret")
				expect(old, false, "secret of before the change")
			case 1:
				g.Remove(as[i])
				if !sync() {
					return
				}
				expect(old, false, "removed account")
				g.Put(as[i])
				if !sync() {
					return
				}
				expect(as[i], true, "added account")
			case 2:
				if old.Isp == refc.SGIP {
					continue
				}
				// no connection allowed any more, then again
				as[i].MaxConns = 0
				g.Put(as[i])
				if !sync() {
					return
				}
				expect(as[i], false, "limit lowered to none")
				as[i] = old
				g.Put(as[i])
				if !sync() {
					return
				}
				expect(as[i], true, "limit raised again")
			}
		}
	}
}
