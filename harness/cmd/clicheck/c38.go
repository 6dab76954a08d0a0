package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

func init() { checks["C38"] = c38 }

// c38 compares logs and identifiers of programs with random settings with these settings.
func c38() {
	run := lib.NewRun("C38", "exhaustive observation of sampled executions",
		"one evaluation: one entry of a log file or one identifier, compared with the settings of its file or generator; distinct: program × file × level configured × format × precision × level of the entry, and kind of identifier")
	n := run.N(24, 160)
	for i := 0; i < n && run.NFailed() < 5; i += 8 {
		par(8, func(k int) {
			r := run.Sub(fmt.Sprint("c38", i+k))
			switch (i + k) % 4 {
			case 0, 1:
				c38node(run, r)
				c38gateway(run, r, i+k)
			case 2:
				c38client(run, r, i+k)
			default:
				c38rotate(run, r, i+k)
			}
		})
	}
	run.Finish()
}

var c38levels = map[int]string{-1: "DEBUG", 0: "INFO", 1: "WARN", 2: "ERROR", 3: "DPANIC"}

// c38log are the settings of a log.
type c38log struct {
	section, file     string
	level             int
	format, precision string
	size, backups     int
	compress          bool
	absent            bool // the settings do not name it
}

func (l c38log) yaml() string {
	if l.absent {
		return ""
	}
	return fmt.Sprintf("  %s:\n    LogName: \"%s\"\n    Level: %d\n    TextFormat: \"%s\"\n    TimePrecision: \"%s\"\n    MaxSize: %d\n    MaxBackups: %d\n    MaxAge: 30\n    Compress: %v\n",
		l.section, l.file, l.level, l.format, l.precision, l.size, l.backups, l.compress)
}

func newLog(r *rand.Rand, section string) c38log {
	return c38log{section: section, file: fmt.Sprintf("%s/%s%d.txt", []string{"logs", "var/log", "."}[r.Intn(3)], strings.ToLower(section), r.Intn(1000)),
		level: r.Intn(5) - 1, format: []string{"json", "console"}[r.Intn(2)], precision: []string{"second", "millisecond"}[r.Intn(2)], size: 100, backups: 5}
}

var c38time = map[string]*regexp.Regexp{
	"second":      regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d$`),
	"millisecond": regexp.MustCompile(`^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\.\d{3}$`),
}
var c38line = regexp.MustCompile(`^(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d\S*)\t([A-Z]+)\t`)

// c38entry is an entry of a log.
type c38entry struct{ at, level, caller, msg string }

// entries parses a log in its format; what is not in it is reported.
func (l c38log) entries(run *lib.Run, program, dir string, conf any) (es []c38entry, raw []string) {
	b, err := os.ReadFile(filepath.Join(dir, l.file))
	if err != nil {
		return
	}
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(line)) == 0 {
			continue
		}
		var e c38entry
		if l.format == "json" {
			var m map[string]any
			if json.Unmarshal(line, &m) != nil {
				run.Fail("format "+program+" "+l.section, conf, "the %s writes a line that is not JSON into the log %s: %.300q", program, l.section, line)
				return
			}
			e.at, _ = m["created_at"].(string)
			e.level, _ = m["level"].(string)
			e.caller, _ = m["caller"].(string)
			e.msg, _ = m["msg"].(string)
		} else {
			f := c38line.FindSubmatch(line)
			if f == nil {
				if line[0] == '{' {
					run.Fail("format "+program+" "+l.section, conf, "the %s writes JSON into the log %s although text is configured: %.300q", program, l.section, line)
					return
				}
				continue // a stack
			}
			e.at, e.level = string(f[1]), string(f[2])
		}
		if !c38time[l.precision].MatchString(e.at) {
			run.Fail("precision "+program+" "+l.section, conf, "an entry of the log %s of the %s is of %q, configured are %ss", l.section, program, e.at, l.precision)
			return
		}
		es = append(es, e)
		raw = append(raw, string(line))
		run.Case(fmt.Sprint(program, l.section, l.level, l.format, l.precision, e.level))
	}
	return
}

func rank(level string) int {
	for k, v := range c38levels {
		if v == level {
			return k
		}
	}
	return 9
}

// judge compares the logs of a program with their settings.
func c38judge(run *lib.Run, program, dir string, logs []c38log, expect []string, conf any) {
	var counts [2]map[string]int
	for i, l := range logs[:2] {
		es, _ := l.entries(run, program, dir, conf)
		counts[i] = map[string]int{}
		for _, e := range es {
			counts[i][e.level]++
			if rank(e.level) < l.level {
				run.Fail("level "+program+" "+l.section, conf, "the log %s of the %s has an entry of level %s, configured is %s and above: %+v", l.section, program, e.level, c38levels[l.level], e)
				return
			}
		}
		for _, x := range expect {
			if rank(x) >= l.level && counts[i][x] == 0 {
				run.Fail("missing "+program+" "+l.section, conf, "the log %s of the %s (level %s and above, %s) has no entry of level %s after logins, messages, errors: %v",
					l.section, program, c38levels[l.level], l.file, x, counts[i])
				return
			}
		}
		run.Count("entries_"+l.section, int64(len(es)))
	}
	// what belongs into both is in both
	for lv := -1; lv < 3; lv++ {
		if x := c38levels[lv]; lv >= logs[0].level && lv >= logs[1].level && (counts[0][x] > counts[1][x]+2 || counts[1][x] > counts[0][x]+2) { // the program's end may come between the two
			run.Fail("different "+program, conf, "of the %s's entries of level %s, %d are in the log %s and %d in the log %s, both are configured to have them",
				program, x, counts[0][x], logs[0].section, counts[1][x], logs[1].section)
			return
		}
	}
}

// c38numbers are the settings of the number generators.
type c38numbers struct {
	dc, worker, dc32, worker32 int
	bcd                        string
	node                       uint32
}

func (n c38numbers) yaml() string {
	return fmt.Sprintf("Snowflake:\n  B64:\n    DC: %d\n    Worker: %d\n  B32:\n    DC: %d\n    Worker: %d\n  BCD: \"%s\"\n  SGIP: %d\n", n.dc, n.worker, n.dc32, n.worker32, n.bcd, n.node)
}

func newNumbers(r *rand.Rand) c38numbers {
	return c38numbers{r.Intn(4), r.Intn(8), r.Intn(2), r.Intn(4), fmt.Sprintf("%06d", r.Intn(1000000)), uint32(3000000000 + r.Intn(100000000))}
}

func c38gateway(run *lib.Run, r *rand.Rand, rep int) {
	logs := []c38log{newLog(r, "Default"), newLog(r, "Error"), newLog(r, "CounterDB")}
	logs[0].level = []int{-1, 0, 1, 2, 3}[rep/2%5]
	debug := rep%8 == 5 // all goes to the output
	if rep%8 == 4 {
		logs[2] = c38log{section: "CounterDB", file: "logs/CounterDB.log", level: 0, format: "json", precision: "millisecond", absent: true}
	}
	num := newNumbers(r)
	other := num // another gateway, that differs in one number
	if r.Intn(2) == 0 {
		other.dc = (num.dc + 1 + r.Intn(3)) % 4
	} else {
		other.worker = (num.worker + 1 + r.Intn(7)) % 8
	}
	cfg := e2e.Config{Success: 1, Debug: debug, Tick: "50ms", MaxSessions: 30, Deliver: true, DeliverRate: 0.5, Contents: []string{"01_,_hello"}}
	for _, l := range logs {
		cfg.Logs += l.yaml()
	}
	cfg.Logs = "Logs:\n" + cfg.Logs
	cfg.Numbers = num.yaml()
	pvs := trio(rep)
	for i, pv := range pvs {
		cfg.Accounts = append(cfg.Accounts, fake(pv, i, 3, 16, 10000).A)
	}
	conf := map[string]any{"logs": cfg.Logs, "numbers": cfg.Numbers, "debug": debug}
	g, err := e2e.StartGateway(cfg)
	if err != nil {
		run.Fail("gateway-start", conf, "the gateway does not start: %v", err)
		return
	}
	defer g.Stop()
	cfg2 := cfg
	cfg2.Numbers = other.yaml()
	g2, err := e2e.StartGateway(cfg2)
	if err != nil {
		run.Fail("gateway-start", conf, "the gateway does not start: %v", err)
		return
	}
	defer g2.Stop()
	sessions := 0
	var ids [2][]uint64
	for i, pv := range pvs {
		var c [2]*e2e.Conn
		for k, x := range []*e2e.Gateway{g, g2} {
			if c[k], err = e2e.Login(x, cfg.Accounts[i], e2e.AutoClient); err != nil {
				run.Fail("login", conf, "%s: no login: %v", pv, err)
				return
			}
			defer c[k].Close()
		}
		for m := 0; m < 40; m++ {
			for k := range c {
				seq, _ := c[k].Send("submit", refc.M{"dest": []string{"13800138000"}, "src": cfg.Accounts[i].Display, "content": []byte("hello"), "needReport": 1})
				e := c[k].Resp("submit", seq, e2e.Watchdog())
				if e == nil {
					run.Fail("no-answer", conf, "%s: a message is not answered", pv)
					return
				}
				n := num
				if k == 1 {
					n = other
				}
				switch pv.Proto {
				case refc.CMPP:
					id, _ := e.M["msgId"].(uint64)
					ids[k] = append(ids[k], id)
				case refc.SMGP:
					id, _ := e.M["msgId"].([]byte)
					if len(id) != 10 || fmt.Sprintf("%x", id[:3]) != n.bcd {
						run.Fail("smgp-id", conf, "a message over SMGP has the id %x, the configured code of the gateway is %s", id, n.bcd)
						return
					}
					run.Case("smgp id")
					run.Count("identifiers", 1)
				}
			}
		}
		// what is no packet: an error
		if w, err := e2e.Login(g, cfg.Accounts[i], e2e.AutoClient); err == nil {
			_ = w.Write([]byte{0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13})
			w.WaitEOF(e2e.Watchdog())
			w.Close()
			sessions++
		}
		for k := range c {
			c[k].Close()
		}
		sessions++
	}
	// the numbers of different gateways differ in a place of their own
	if len(ids[0]) > 30 && len(ids[1]) > 30 {
		fix := func(l []uint64) (mask uint64) {
			mask = ^uint64(0)
			for _, x := range l {
				mask &^= x ^ l[0]
			}
			return
		}
		if m := fix(ids[0]) & fix(ids[1]); (ids[0][0]^ids[1][0])&m == 0 {
			run.Fail("node", conf, "gateways with the numbers %d/%d and %d/%d give ids that differ in nothing but time and count: %x, %x", num.dc, num.worker, other.dc, other.worker, ids[0][:3], ids[1][:3])
			return
		}
		for _, l := range ids {
			for range l {
				run.Case("cmpp id")
				run.Count("identifiers", 1)
			}
		}
	}
	// all sessions are over
	want := sessions
	if logs[2].level > 0 {
		want = 0
	}
	var n int
	for t := time.Now(); time.Since(t) < e2e.Watchdog(); time.Sleep(50 * time.Millisecond) {
		b, _ := os.ReadFile(filepath.Join(g.Dir, logs[2].file))
		if n = bytes.Count(b, []byte("\n")); n >= want {
			break
		}
	}
	time.Sleep(100 * time.Millisecond)
	g.Signal(syscall.SIGTERM)
	g.Ended(e2e.Watchdog())
	es, raw := logs[2].entries(run, "gateway", g.Dir, conf)
	with := 0
	for i, e := range es {
		if rank(e.level) < logs[2].level {
			run.Fail("level gateway CounterDB", conf, "the statistics have an entry of level %s, configured is %s and above", e.level, c38levels[logs[2].level])
			return
		}
		if strings.Contains(raw[i], cfg.Accounts[0].Id) || strings.Contains(raw[i], cfg.Accounts[1].Id) || strings.Contains(raw[i], cfg.Accounts[2].Id) {
			with++
		}
	}
	run.Count("entries_CounterDB", int64(len(es)))
	if logs[2].level <= 0 && with != sessions || logs[2].level > 0 && len(es) > 0 {
		run.Fail("statistics", conf, "%d sessions ended, the statistics (level %s and above, %s) have %d records", sessions, c38levels[logs[2].level], logs[2].file, with)
		return
	}
	if debug {
		for _, l := range logs[:2] {
			if es, _ := l.entries(run, "gateway", g.Dir, conf); len(es) > 0 {
				run.Fail("debug", conf, "a gateway in debugging mode writes into the log %s", l.section)
			}
		}
		if b, _ := os.ReadFile(filepath.Join(g.Dir, "output.log")); bytes.Count(b, []byte("\tERROR\t")) == 0 {
			run.Fail("debug", conf, "a gateway in debugging mode does not write its log to the output")
		}
		run.Case("debugging mode")
		return
	}
	c38judge(run, "gateway", g.Dir, logs, []string{"DEBUG", "INFO", "WARN", "ERROR"}, conf)
	run.Sample(map[string]any{"program": "gateway", "logs": logs[0].yaml() + logs[1].yaml() + logs[2].yaml(), "sessions": sessions})
}

func c38client(run *lib.Run, r *rand.Rand, rep int) {
	logs := []c38log{newLog(r, "Default"), newLog(r, "Error")}
	logs[1].level = []int{2, -1, 1, 0, 3}[rep/4%5]
	num := newNumbers(r)
	cfg := e2e.ClientConfig{Logs: "Logs:\n" + logs[0].yaml() + logs[1].yaml(), Numbers: num.yaml()}
	var mu sync.Mutex
	var nodes []uint32
	a := newAnswerer(rand.New(rand.NewSource(r.Int63())))
	a.mix = true
	for i, pv := range trio(rep) {
		g := fake(pv, i, 2, 1000, 10000)
		g.OnEv = func(c *e2e.GwConn, e e2e.Ev) {
			if e.Kind == "submit" {
				if g.PV.Proto == refc.SGIP {
					mu.Lock()
					nodes = append(nodes, e.Seq[0])
					mu.Unlock()
				}
				a.onSubmit(c, e)
			}
		}
		cfg.GW = append(cfg.GW, g)
	}
	conf := map[string]any{"logs": cfg.Logs, "numbers": cfg.Numbers}
	p := start(run, cfg)
	if p == nil {
		return
	}
	defer func() {
		p.Stop()
		for _, g := range cfg.GW {
			g.Stop()
		}
	}()
	for k := 0; k < 2; k++ {
		var sent []e2e.Sent
		if err := p.Call("batch", e2e.Batch{Msgs: messages(r, 40), Workers: 3}, &sent); err != nil {
			if alive(run, p, "send") {
				run.Fail("send", conf, "messages are not sent: %v", err)
			}
			return
		}
		time.Sleep(200 * time.Millisecond)
		for _, g := range cfg.GW {
			_, in := g.Live()
			for _, c := range in {
				c.Reset()
			}
		}
		time.Sleep(300 * time.Millisecond)
	}
	p.Signal(syscall.SIGTERM)
	select {
	case <-p.Exited():
	case <-time.After(e2e.Watchdog()):
	}
	mu.Lock()
	defer mu.Unlock()
	if len(nodes) == 0 {
		run.Note("a client sent nothing over SGIP")
	}
	for _, x := range nodes {
		run.Case("sgip sequence of the client")
		run.Count("identifiers", 1)
		if x != num.node {
			run.Fail("sgip-node-client", conf, "a message over SGIP bears the node %d, configured is %d", x, num.node)
			return
		}
	}
	c38judge(run, "client", p.Dir, logs, []string{"DEBUG", "INFO", "ERROR"}, conf)
	run.Sample(map[string]any{"program": "client", "logs": logs[0].yaml() + logs[1].yaml(), "sgip": len(nodes)})
}

// c38rotate: logs of one megabyte and few old ones.
func c38rotate(run *lib.Run, r *rand.Rand, rep int) {
	logs := []c38log{newLog(r, "Default"), newLog(r, "Error"), newLog(r, "CounterDB")}
	for i := range logs {
		logs[i].file = fmt.Sprintf("logs/%d/%s.log", i, logs[i].section)
		logs[i].level, logs[i].size, logs[i].backups, logs[i].compress = -1, 1+r.Intn(2), 1+r.Intn(3), r.Intn(2) == 0
	}
	cfg := e2e.Config{Success: 1, Tick: "1h", MaxSessions: 300}
	for _, l := range logs {
		cfg.Logs += l.yaml()
	}
	cfg.Logs = "Logs:\n" + cfg.Logs
	pv := gen.All[r.Intn(len(gen.All))]
	a := fake(pv, 0, 50, 64, 100000).A
	cfg.Accounts = []e2e.Account{a}
	g, err := e2e.StartGateway(cfg)
	if err != nil {
		run.Fail("gateway-start", cfg.Logs, "the gateway does not start: %v", err)
		return
	}
	defer g.Stop()
	// enough for each log: ten megabytes of the first two, some of the last
	for k := 0; k < 6; k++ {
		var wg sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				c, err := e2e.Login(g, a, e2e.AutoClient)
				if err != nil {
					return
				}
				defer c.Close()
				var seq []uint32
				for m := 0; m < 300; m++ {
					seq, _ = c.Send("submit", refc.M{"dest": []string{"13800138000"}, "src": a.Display, "content": []byte("hello")})
				}
				c.Resp("submit", seq, e2e.Watchdog())
			}()
		}
		wg.Wait()
	}
	state := func(l c38log) (live int64, old []string, gz int) {
		fs, _ := os.ReadDir(filepath.Join(g.Dir, filepath.Dir(l.file)))
		for _, f := range fs {
			i, err := f.Info()
			if err != nil {
				continue
			}
			if f.Name() == filepath.Base(l.file) {
				live = i.Size()
				continue
			}
			old = append(old, f.Name())
			if strings.HasSuffix(f.Name(), ".gz") {
				gz++
			}
		}
		sort.Strings(old)
		return
	}
	for _, l := range logs[:2] {
		bad := "?"
		for t := time.Now(); bad != "" && time.Since(t) < e2e.Watchdog()/4; time.Sleep(100 * time.Millisecond) {
			live, old, gz := state(l)
			bad = ""
			if live > int64(l.size)<<20 {
				bad = fmt.Sprintf("it has %d octets, configured are %d MB", live, l.size)
			} else if len(old) != l.backups {
				bad = fmt.Sprintf("%d old files are kept, configured are %d: %v", len(old), l.backups, old)
			} else if l.compress != (gz == len(old)) || !l.compress && gz > 0 {
				bad = fmt.Sprintf("%d of %d old files are compressed, configured is %v", gz, len(old), l.compress)
			}
		}
		if bad != "" {
			run.Fail("rotation "+l.section, cfg.Logs, "the log %s is not cut as configured: %s", l.section, bad)
			return
		}
		run.Case(fmt.Sprint("rotation ", l.section, l.size, l.backups, l.compress))
		run.Count("rotations", int64(l.backups))
	}
}

// c38node looks at the sequence number of the one request that a gateway makes over SGIP: it takes leave.
func c38node(run *lib.Run, r *rand.Rand) {
	num := newNumbers(r)
	pv := gen.PV{}
	for _, x := range gen.All {
		if x.Proto == refc.SGIP {
			pv = x
		}
	}
	a := fake(pv, 0, 3, 16, 10000).A
	g, err := e2e.StartGateway(e2e.Config{Success: 1, Tick: "50ms", ForceClose: "500ms", MaxSessions: 30, Accounts: []e2e.Account{a}, Numbers: num.yaml()})
	if err != nil {
		run.Fail("gateway-start", num.yaml(), "the gateway does not start: %v", err)
		return
	}
	defer g.Stop()
	for try := 0; try < 3; try++ {
		c, err := e2e.Login(g, a, nil)
		if err != nil {
			continue
		}
		c.WaitEOF(e2e.Watchdog())
		c.Close()
		for _, e := range c.Evs() {
			if e.Kind != "" && !strings.HasSuffix(e.Kind, "_resp") && e.Cmd&0x80000000 == 0 {
				run.Case("sgip sequence of the gateway")
				run.Count("identifiers", 1)
				if len(e.Seq) != 3 || e.Seq[0] != num.node {
					run.Fail("sgip-node", num.yaml(), "a request of the gateway over SGIP (%s) has the sequence number %v, the configured node is %d", e.Kind, e.Seq, num.node)
				}
				return
			}
		}
	}
	run.Note("a gateway took no leave over SGIP")
}
