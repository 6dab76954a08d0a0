package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
)

func init() { checks["C28"] = c28 }

const accountsColl = "smsdb.authenticatedClients"

func c28() {
	run := lib.NewRun("C28", "exhaustive observation of sampled executions",
		"one evaluation: one account lookup, or one login, compared with what the database held when it was last read; distinct: protocol × id × stored version × what befell the reload")
	n := run.N(9, 60)
	for i := 0; i < n && !run.Failed(); i += 9 {
		par(9, func(k int) {
			if i+k < n {
				c28store(run, run.Sub(fmt.Sprint("c28", i+k)), i+k)
			}
		})
	}
	for i := 0; i < run.N(4, 20) && !run.Failed(); i += 4 {
		par(4, func(k int) {
			c28watch(run, run.Sub(fmt.Sprint("c28w", i+k)), i+k)
		})
	}
	for i := 0; i < run.N(4, 16) && !run.Failed(); i += 4 {
		par(4, func(k int) { c28slow(run, run.Sub(fmt.Sprint("c28s", i+k)), i+k) })
	}
	for i := 0; i < run.N(1, 4) && !run.Failed(); i++ {
		c28gateway(run, run.Sub(fmt.Sprint("c28g", i)))
	}
	run.Finish()
}

// c28doc is the document that an account is stored as.
func c28doc(r *rand.Rand, a e2e.Account) e2e.BD {
	t := a.Attrs()
	num := func(n int) any {
		switch r.Intn(3) {
		case 0:
			return int64(n)
		case 1:
			return float64(n)
		}
		return int32(n)
	}
	isp := t.ISP
	if r.Intn(6) == 0 {
		isp = strings.ToUpper(isp)
	}
	d := e2e.BD{{K: "isp", V: isp}, {K: "clientid", V: t.ClientId}, {K: "loginname", V: t.LoginName}, {K: "sharedsecret", V: t.SharedSecret}, {K: "version", V: num(int(t.Ver))},
		{K: "needreport", V: num(int(t.NeedReport))}, {K: "smsdisplayno", V: t.SmsDisplayNo}, {K: "serviceid", V: t.ServiceId}, {K: "defaultmsglevel", V: num(int(t.DefaultMsgLevel))},
		{K: "feeusertype", V: num(int(t.FeeUserType))}, {K: "feeterminaltype", V: num(int(t.FeeTerminalType))}, {K: "feeterminalid", V: t.FeeTerminalId}, {K: "feetype", V: t.FeeType},
		{K: "feecode", V: t.FeeCode}, {K: "fixedfee", V: t.FixedFee}, {K: "linkid", V: t.LinkId}, {K: "mtvalidduration", V: int64(t.MtValidDuration)},
		{K: "maxconns", V: num(t.MaxConns)}, {K: "mtwindowsize", V: num(t.MtWindowSize)}, {K: "throughput", V: num(t.Throughput)}}
	if r.Intn(2) == 0 { // attributes without a value may be missing, or null
		var l e2e.BD
		for _, e := range d {
			if e.K != "isp" && e.K != "clientid" && (e.V == "" || e.V == int32(0) || e.V == int64(0) || e.V == float64(0)) {
				switch r.Intn(4) {
				case 0, 1:
					continue
				case 2:
					e.V = nil
				}
			}
			l = append(l, e)
		}
		d = l
	}
	if r.Intn(3) == 0 {
		r.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
	}
	if r.Intn(3) == 0 {
		d = append(d, e2e.BE{K: "remark", V: e2e.BD{{K: "by", V: "ops"}, {K: "tags", V: e2e.BA{"a", int32(1)}}}})
	}
	id := make([]byte, 12)
	r.Read(id)
	return append(e2e.BD{{K: "_id", V: id}}, d...)
}

// c28broken makes a document unreadable as an account.
func c28broken(r *rand.Rand, d e2e.BD) e2e.BD {
	d = append(e2e.BD{}, d...)
	set := func(k string, v any) {
		for i := range d {
			if d[i].K == k {
				d[i].V = v
				return
			}
		}
		d = append(d, e2e.BE{K: k, V: v})
	}
	switch r.Intn(6) {
	case 0:
		set("maxconns", "many")
	case 1:
		set("version", int32(300))
	case 2:
		set("throughput", e2e.BD{{K: "tps", V: int32(1)}})
	case 3:
		set("sharedsecret", int32(12345))
	case 4:
		set("needreport", int32(-1))
	case 5:
		set("smsdisplayno", e2e.BA{"1069", "1065"})
	}
	return d
}

type mongoStore struct {
	*e2e.Proc
	db *e2e.FakeMongo
}

func mongoAccounts(port int, reload string) string {
	return "AuthClient:\n  StoreType: \"mongo\"\n  ReloadTicker: " + reload + "\n" + e2e.MongoConfig(port)
}

func startMongoStore(run *lib.Run, reload string, db *e2e.FakeMongo) *mongoStore {
	d := e2e.ScratchDir("mstore")
	_ = os.MkdirAll(filepath.Join(d, "config"), 0755)
	cfg := "AppDebug: true\nServer:\n  TickDuration: 10s\n" + mongoAccounts(db.Port, reload) +
		"Snowflake:\n  B64:\n    DC: 1\n    Worker: 5\n  B32:\n    DC: 0\n    Worker: 3\n  BCD: \"010203\"\n  SGIP: 3037196688\n" +
		"Logs:\n  CounterDB:\n    LogName: \"logs/db.json\"\n    Level: -1\n    TextFormat: \"json\"\n    TimePrecision: \"millisecond\"\n    MaxSize: 5\n"
	_ = os.WriteFile(filepath.Join(d, "config", "config.yaml"), []byte(cfg), 0644)
	p, err := e2e.StartProc("storemain", d, "MONGO_USER=u", "MONGO_PASSWD=p")
	if err == nil {
		err = p.Call("sleep", nil, nil)
	}
	if err != nil {
		for _, b := range db.Bad() {
			panic("the harness does not understand the driver: " + b)
		}
		tail := ""
		if p != nil {
			tail = p.Tail(800)
			p.Stop()
		}
		run.Fail("store-start", nil, "the store does not start: %v: %s", err, tail)
		return nil
	}
	return &mongoStore{p, db}
}

func (s *mongoStore) stop() {
	s.Stop()
	s.db.Close()
	for _, b := range s.db.Bad() {
		panic("the harness does not understand the driver: " + b)
	}
}

// complete is the number of the newest state of the accounts of which everything was read since operation n.
func complete(ops []e2e.MongoOp, n int) (snap int) {
	for _, o := range ops[n:] {
		if o.Coll == accountsColl && o.Last && (o.Fault == "" || o.Fault == "late") && o.Snap > snap {
			snap = o.Snap
		}
	}
	return
}

// c28store edits the database at random, reloads it under faults, and compares every lookup with a model.
func c28store(run *lib.Run, r *rand.Rand, rep int) {
	isps := []string{"cmpp", "sgip", "smgp"}
	var keys []akey
	for _, isp := range isps {
		for i := 0; i < 8; i++ {
			id := gen.Digits(r, []int{1, 4, 6, 8, 10}[r.Intn(5)])
			if r.Intn(4) == 0 {
				id = "Sp" + id
			}
			keys = append(keys, akey{isp, id})
		}
	}
	keys = append(keys, akey{"cmpp", "900001"}, akey{"cmpp", "90000"}, akey{"cmpp", "9000012"}, akey{"sgip", "900001"}, akey{"smgp", "900001"}, akey{"cmpp", "900_01"})
	want := map[akey]e2e.Account{}   // what the database holds
	broken := map[akey]bool{}        // whose document cannot be read
	served := map[akey]e2e.Account{} // what is to be served
	maybe := map[akey]bool{}         // or nothing: the document could not be read when last looked at
	for _, k := range keys {
		if r.Intn(2) == 0 {
			want[k] = c11account(r, k)
		}
	}
	sentinel := akey{"cmpp", "sentinel"}
	sv := 1
	db := &e2e.FakeMongo{Batch: []int{0, 1, 3, 10, 1000}[r.Intn(5)]}
	var mu sync.Mutex
	plan := "" // the fault of the reload under way
	at, skip := "", 0
	random := 0 // percentage of operations that fail, when reloads come by the timer
	fr := rand.New(rand.NewSource(r.Int63()))
	db.Fault = func(cmd, coll string, n int) string {
		mu.Lock()
		defer mu.Unlock()
		if coll != accountsColl {
			return ""
		}
		if random > 0 && fr.Intn(100) < random {
			return []string{"error", "drop", "3ms"}[fr.Intn(3)]
		}
		if plan == "" || cmd != at {
			return ""
		}
		if skip > 0 {
			skip--
			return ""
		}
		return plan
	}
	set := func() {
		mu.Lock()
		defer mu.Unlock()
		var docs []e2e.BD
		for _, k := range keys {
			if a, ok := want[k]; ok {
				d := c28doc(r, a)
				if broken[k] {
					d = c28broken(r, d)
				}
				docs = append(docs, d)
			}
		}
		docs = append(docs, c28doc(r, e2e.Versioned(sentinel.Isp, sentinel.Id, sv)))
		r.Shuffle(len(docs), func(i, j int) { docs[i], docs[j] = docs[j], docs[i] })
		db.Set(accountsColl, docs)
	}
	reload := "1h"
	ticker := rep%3 == 2
	if ticker {
		reload = "25ms"
	}
	take := func() { // the database has been read
		for _, k := range keys {
			a, ok := want[k]
			switch {
			case !ok:
				delete(served, k)
				delete(maybe, k)
			case broken[k]:
				maybe[k] = true // as before, or not at all
			default:
				served[k] = a
				delete(maybe, k)
			}
		}
	}
	if err := db.Listen(); err != nil {
		panic(err)
	}
	set()
	s := startMongoStore(run, reload, db)
	if s == nil {
		return
	}
	defer s.stop()
	reloaded := func(fault string) bool {
		run.Count("reloads", 1)
		if ticker {
			for t := time.Now(); time.Since(t) < e2e.Watchdog(); time.Sleep(3 * time.Millisecond) {
				var l []found
				if err := s.Call("find", []akey{sentinel}, &l); err != nil {
					run.Fail("find", nil, "a lookup does not come back: %v: %s", err, s.Tail(800))
					return false
				}
				if l[0].Client != nil && l[0].Client.Version() == sv {
					take()
					return true
				}
			}
			run.Fail("no-reload", nil, "the reload timer (25ms) does not bring up a changed account")
			return false
		}
		for t := time.Now(); ; {
			n := len(db.Ops())
			if err := s.Call("load", nil, nil); err != nil {
				run.Fail("load", nil, "a reload does not come back: %v: %s", err, s.Tail(800))
				return false
			}
			if complete(db.Ops(), n) > 0 {
				take()
				return true
			}
			if fault != "" {
				run.Count("reloads_failed", 1)
				return true
			}
			if time.Since(t) > e2e.Watchdog() {
				run.Fail("no-reload", nil, "reloads no longer read the database, which is up")
				return false
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	judge := func(step int, what string) {
		var ask []akey
		ask = append(ask, keys...)
		for i := 0; i < 12; i++ {
			k := keys[r.Intn(len(keys))]
			switch r.Intn(5) {
			case 0:
				k.Id += "0"
			case 1:
				k.Id = k.Id[:len(k.Id)-1]
			case 2:
				k.Isp = isps[r.Intn(3)]
			case 3:
				k.Id = ""
			case 4:
				k.Isp, k.Id = "", k.Isp+"_"+k.Id
			}
			ask = append(ask, k)
		}
		var l []found
		if err := s.Call("find", ask, &l); err != nil {
			run.Fail("find", nil, "a lookup does not come back: %v: %s", err, s.Tail(800))
			return
		}
		for i, k := range ask {
			a, ok := served[k]
			run.Case(fmt.Sprint(k, ok, a.Secret, what))
			run.Count("lookups", 1)
			if maybe[k] {
				run.Count("lookups_of_unreadable_accounts", 1)
			}
			for j, got := range []*e2e.Attrs{l[i].Client, l[i].Conf} {
				side := []string{"account", "configuration"}[j]
				switch {
				case got == nil && ok && !maybe[k]:
					run.Fail("missing", k, "an account that is stored is not served: %v (step %d, %s, %s)", k, step, side, what)
				case got != nil && !ok:
					run.Fail("invented", k, "an account that is not stored, or cannot be read, is served: %v: %+v (step %d, %s, %s)", k, got, step, side, what)
				case got != nil:
					g := *got
					g.ISP = strings.ToLower(g.ISP)
					if g != a.Attrs() {
						w, _ := json.Marshal(a.Attrs())
						x, _ := json.Marshal(got)
						run.Fail("attributes", k, "%v (step %d, %s, %s): attributes differ from the stored ones: got %s, stored %s", k, step, side, what, x, w)
					}
				}
			}
		}
	}
	take() // read when it started
	if ticker {
		mu.Lock()
		random = 30
		mu.Unlock()
	}
	if ticker && !reloaded("") {
		return
	}
	judge(0, "start")
	down := run.N(1, 3)
	for step := 1; step <= run.N(14, 50) && !run.Failed(); step++ {
		var acts []string
		for i := r.Intn(6); i >= 0; i-- {
			k := keys[r.Intn(len(keys))]
			if r.Intn(10) < 6 {
				want[k] = c11account(r, k)
				broken[k] = r.Intn(5) == 0
				acts = append(acts, fmt.Sprint("put ", k, broken[k]))
			} else {
				delete(want, k)
				delete(broken, k)
				acts = append(acts, fmt.Sprint("remove ", k))
			}
		}
		if r.Intn(8) == 0 {
			for _, k := range keys {
				delete(want, k)
				delete(broken, k)
			}
			acts = append(acts, "remove all")
		}
		sv++
		set()
		fault := ""
		if !ticker {
			mu.Lock()
			at, skip = "find", 0
			switch r.Intn(8) {
			case 0:
				fault = "error"
			case 1:
				fault = "drop"
			case 2, 3:
				fault = "error"
				at, skip = "getMore", r.Intn(4)
			case 4:
				fault = "drop"
				at, skip = "getMore", r.Intn(4)
			}
			if db.Batch == 0 || db.Batch == 1000 {
				at = "find"
			}
			plan = fault
			mu.Unlock()
			if fault == "" && down > 0 && r.Intn(6) == 0 {
				down--
				fault = "down"
				db.Down()
			}
		}
		what := fault
		if fault != "" && fault != "down" {
			what += " in " + at
		}
		if ticker {
			what = "timer"
		}
		if !reloaded(fault) {
			return
		}
		judge(step, what)
		if fault != "" {
			mu.Lock()
			plan = ""
			mu.Unlock()
			if fault == "down" {
				if err := db.Up(); err != nil {
					panic(err)
				}
			}
			if r.Intn(2) == 0 || fault == "down" { // else the next step's edits come before a reload works again
				if !reloaded("") {
					return
				}
				judge(step, "after "+what)
			}
		}
		if step == 2 {
			run.Sample(map[string]any{"accounts": len(want), "by_timer": ticker, "documents_per_reply": db.Batch, "edits": acts, "reload": what})
		}
	}
	n := map[string]int64{}
	for _, o := range db.Ops() {
		f := o.Fault
		if f == "" {
			f = "answered"
		}
		n[o.Cmd+"_"+f]++
	}
	for k, v := range n {
		run.Count("database_"+k, v)
	}
	if s.Dead() {
		run.Fail("store-died", nil, "the process ended: %s", s.Tail(1000))
	}
}

// c28watch looks accounts up all the time while the database changes, is reloaded and fails.
func c28watch(run *lib.Run, r *rand.Rand, rep int) {
	var keys []akey
	for i := 0; i < 10; i++ {
		keys = append(keys, akey{[]string{"cmpp", "sgip", "smgp"}[i%3], fmt.Sprint(700000 + i)})
	}
	var mu sync.Mutex
	fr := rand.New(rand.NewSource(r.Int63()))
	faults := false
	db := &e2e.FakeMongo{Batch: []int{1, 3, 0, 4}[rep%4]}
	db.Fault = func(cmd, coll string, n int) string {
		mu.Lock()
		defer mu.Unlock()
		if !faults || fr.Intn(40) > 2 {
			return ""
		}
		return []string{"error", "drop", "1ms"}[fr.Intn(3)]
	}
	if err := db.Listen(); err != nil {
		panic(err)
	}
	set := func(v int) int {
		var docs []e2e.BD
		for i, k := range keys {
			if v > 1 && r.Intn(20) == 0 && i >= len(keys)/2 {
				continue
			}
			d := e2e.Versioned(k.Isp, k.Id, v)
			docs = append(docs, c28doc(r, d))
		}
		return db.Set(accountsColl, docs)
	}
	set(1)
	reload := "1h"
	if rep%2 == 0 {
		reload = "3ms"
	}
	s := startMongoStore(run, reload, db)
	if s == nil {
		return
	}
	defer s.stop()
	faults = true
	if err := s.Call("watch", watched(keys), nil); err != nil {
		run.Fail("watch", nil, "lookups do not come back: %v: %s", err, s.Tail(800))
		return
	}
	for v := 2; v < run.N(200, 1500); v++ {
		set(v)
		if reload == "1h" {
			if err := s.Call("load", nil, nil); err != nil {
				run.Fail("load", nil, "a reload does not come back: %v: %s", err, s.Tail(800))
				return
			}
		} else {
			time.Sleep(5 * time.Millisecond)
		}
		run.Case(fmt.Sprint("watch", rep, v))
	}
	var res struct {
		Bad      []string
		Lookups  int64
		Versions int64
	}
	if err := s.Call("unwatch", nil, &res); err != nil {
		run.Fail("unwatch", nil, "lookups do not come back: %v: %s", err, s.Tail(800))
		return
	}
	run.Count("concurrent_lookups", res.Lookups)
	run.Count("versions_seen_by_concurrent_lookups", res.Versions)
	for _, b := range res.Bad {
		run.Fail("concurrent", rep, "%s", b)
	}
	run.Sample(map[string]any{"reload": reload, "documents_per_reply": db.Batch, "lookups": res.Lookups, "versions_seen": res.Versions})
}

// c28slow: while the database keeps a reload waiting, lookups do not wait, and show what was there before.
func c28slow(run *lib.Run, r *rand.Rand, rep int) {
	var keys []akey
	for i := 0; i < 9; i++ {
		keys = append(keys, akey{[]string{"cmpp", "sgip", "smgp"}[i%3], fmt.Sprint(600000 + i)})
	}
	hold := []string{"find", "getMore"}[rep%2]
	held, release := make(chan struct{}, 1), make(chan struct{})
	var mu sync.Mutex
	on, skip := false, rep/2%3
	db := &e2e.FakeMongo{Batch: 2}
	db.Fault = func(cmd, coll string, n int) string {
		mu.Lock()
		h := on && cmd == hold
		if h && cmd == "getMore" && skip > 0 {
			skip--
			h = false
		}
		on = on && !h
		mu.Unlock()
		if h {
			held <- struct{}{}
			<-release
		}
		return ""
	}
	if err := db.Listen(); err != nil {
		panic(err)
	}
	set := func(v int) {
		var docs []e2e.BD
		for _, k := range keys {
			docs = append(docs, c28doc(r, e2e.Versioned(k.Isp, k.Id, v)))
		}
		db.Set(accountsColl, docs)
	}
	set(1)
	s := startMongoStore(run, "1h", db)
	if s == nil {
		return
	}
	defer s.stop()
	defer func() {
		select {
		case <-release:
		default:
			close(release)
		}
	}()
	look := func(v int, what string) bool {
		res := make(chan []found, 1)
		go func() {
			var l []found
			if s.Call("find", keys, &l) == nil {
				res <- l
			} else {
				res <- nil
			}
		}()
		select {
		case l := <-res:
			if l == nil {
				run.Fail("find", nil, "a lookup does not come back: %s", s.Tail(800))
				return false
			}
			for i, k := range keys {
				run.Case(fmt.Sprint("slow", what, hold, rep, k))
				run.Count("lookups", 1)
				if l[i].Client == nil || l[i].Client.Version() != v {
					run.Fail("slow-version", k, "%s: version %d of %v is expected, got %+v", what, v, k, l[i].Client)
				}
			}
		case <-time.After(e2e.Watchdog()):
			run.Fail("lookup-waits", nil, "%s: a lookup waits for the database (which keeps its answer to a %s back)", what, hold)
			return false
		}
		return true
	}
	if !look(1, "start") {
		return
	}
	mu.Lock()
	on = true
	mu.Unlock()
	set(2)
	loaded := make(chan error, 1)
	go func() { loaded <- s.Call("load", nil, nil) }()
	select {
	case <-held:
	case err := <-loaded:
		run.Fail("load", nil, "a reload came back before the database had answered all of it: %v", err)
		return
	case <-time.After(e2e.Watchdog()):
		run.Fail("load", nil, "a reload does not read the database")
		return
	}
	for i := 0; i < 3; i++ {
		if !look(1, "while the database keeps a reload waiting") {
			return
		}
	}
	run.Count("reloads_kept_waiting", 1)
	close(release)
	if err := <-loaded; err != nil {
		run.Fail("load", nil, "a reload does not come back: %v: %s", err, s.Tail(800))
		return
	}
	look(2, "after the database has answered")
}

// c28gateway: the gateway's own decisions follow the database, and do without it while it is down.
func c28gateway(run *lib.Run, r *rand.Rand) {
	db := &e2e.FakeMongo{Batch: 2}
	if err := db.Listen(); err != nil {
		panic(err)
	}
	defer db.Close()
	cfg := e2e.Config{Success: 1, LogLevel: 2, Reload: "20ms", Store: mongoAccounts(db.Port, "20ms"), Env: []string{"MONGO_USER=u", "MONGO_PASSWD=p"}}
	var as []e2e.Account
	in := map[int]bool{}
	for i, pv := range gen.All {
		as = append(as, account(pv, i, 20, 64, 100000))
		in[i] = true
	}
	sent := account(gen.All[0], 500, 100, 8, 1000)
	set := func() {
		docs := []e2e.BD{c28doc(r, sent)}
		for i, a := range as {
			if in[i] {
				docs = append(docs, c28doc(r, a))
			}
		}
		r.Shuffle(len(docs), func(i, j int) { docs[i], docs[j] = docs[j], docs[i] })
		db.Set(accountsColl, docs)
	}
	set()
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Stop()
	sync := func() bool {
		sent.Secret = fmt.Sprintf("sentinel%d", r.Intn(1e8))
		set()
		for t := time.Now(); time.Since(t) < e2e.Watchdog(); time.Sleep(5 * time.Millisecond) {
			c, code, err := e2e.TryLogin(g, sent, nil)
			if c != nil {
				c.Close()
			}
			if err == nil && code == 0 {
				return true
			}
		}
		if alive(run, g, "reload") {
			run.Fail("gateway-reload", nil, "a changed secret is not accepted by the gateway")
		}
		return false
	}
	expect := func(a e2e.Account, ok bool, what string) {
		run.Case(fmt.Sprint(a.Isp, a.Ver, what))
		run.Count("logins", 1)
		for try := 0; ; try++ {
			c, code, err := e2e.TryLogin(g, a, nil)
			if c != nil {
				c.Close()
			}
			if err != nil && try < 20 && alive(run, g, "login") {
				time.Sleep(20 * time.Millisecond)
				continue // no answer: the login queue was full
			}
			if (err == nil && code == 0) != ok && alive(run, g, "login") {
				run.Fail("gateway-"+strings.Fields(what)[0], nil, "%s %s: %s: login answered with %d (%v), accepted expected: %v", a.Isp, a.Id, what, code, err, ok)
			}
			return
		}
	}
	for round := 0; round < run.N(2, 8) && !run.Failed(); round++ {
		for i := range as {
			old := as[i]
			if r.Intn(2) == 0 {
				as[i].Secret = fmt.Sprintf("s%d", r.Intn(1e9))
				if !sync() {
					return
				}
				expect(as[i], true, "changed secret")
				expect(old, false, "secret of before the change")
			} else {
				in[i] = false
				if !sync() {
					return
				}
				expect(old, false, "removed account")
				in[i] = true
				if !sync() {
					return
				}
				expect(as[i], true, "added account")
			}
		}
		db.Down()
		for i := range as {
			expect(as[i], true, "known account while the database is down")
			a := as[i]
			a.Secret += "x"
			expect(a, false, "wrong secret while the database is down")
		}
		if err := db.Up(); err != nil {
			panic(err)
		}
		if !sync() {
			return
		}
		expect(as[0], true, "account after the database came back")
	}
	run.Count("logins_with_the_database_down", int64(len(as)))
}
