package main

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/e2e"
	"verif/gen"
	"verif/lib"
)

func init() { checks["C31"] = c31 }

// c31 watches the gateway program itself (msc_server/cmd) from its start to its end.
func c31() {
	run := lib.NewRun("C31", "exhaustive observation of sampled executions",
		"one evaluation: one life of the gateway program, from its start (with what an earlier one left) over its service to its end; distinct: pid file found × signals × what goes on when they come × settings, and the port that is taken")
	n := run.N(150, 900)
	sem := make(chan struct{}, 6)
	for i := 0; i < n && run.NFailed() < 8; i++ {
		sem <- struct{}{}
		i, r := i, run.Sub(fmt.Sprint("c31", i))
		go func() {
			defer func() { <-sem }()
			if i%6 == 5 {
				c31taken(run, r, i)
			} else {
				c31life(run, r, i)
			}
		}()
	}
	for i := 0; i < cap(sem); i++ {
		sem <- struct{}{}
	}
	run.Finish()
}

var c31signals = []struct {
	name string
	l    []syscall.Signal
}{
	{"TERM", []syscall.Signal{syscall.SIGTERM}},
	{"INT", []syscall.Signal{syscall.SIGINT}},
	{"QUIT", []syscall.Signal{syscall.SIGQUIT}},
	{"INT INT", []syscall.Signal{syscall.SIGINT, syscall.SIGINT}},
	{"many", nil},
}

func c31life(run *lib.Run, r *rand.Rand, i int) {
	cfg := e2e.Config{Bin: "gosmc", Success: 1, Multicore: r.Intn(2) == 0, Debug: r.Intn(4) == 0, LogLevel: []int{-1, 0, 2}[r.Intn(3)],
		Tick: []string{"5ms", "1s"}[r.Intn(2)], Reload: "20ms", Deliver: r.Intn(2) == 0, DeliverRate: 1, Contents: []string{"1_,_hello"}}
	for k, pv := range gen.All {
		cfg.Accounts = append(cfg.Accounts, account(pv, k, 10, 64, 100000))
	}
	left := []string{"", "1", "4194304999999", "999999999999 of an earlier one\n\n"}[i%4]
	if left != "" {
		cfg.Files = map[string]string{".gosms.pid": left}
	}
	g := start(run, cfg)
	if g == nil {
		return
	}
	defer g.Kill()
	time.Sleep(time.Duration(20+r.Intn(60)) * time.Millisecond)
	b, err := os.ReadFile(filepath.Join(g.Dir, ".gosms.pid"))
	if err != nil || strings.TrimSpace(string(b)) != strconv.Itoa(g.Pid()) {
		run.Fail("pid-file", left, "the gateway runs as process %d, its pid file (which held %q before) says %q (%v)", g.Pid(), left, b, err)
	}
	// what goes on
	busy := []string{"idle", "connections", "traffic", "logins", "half a packet"}[r.Intn(5)]
	var cs []*e2e.Conn
	stop := make(chan struct{})
	done := make(chan struct{})
	jobs := 0
	if busy != "idle" {
		for k, a := range cfg.Accounts {
			pv := gen.All[k]
			if busy == "logins" {
				jobs++
				go func(a e2e.Account, pv gen.PV, seed int64) {
					defer func() { done <- struct{}{} }()
					for {
						select {
						case <-stop:
							return
						default:
						}
						c, err := e2e.Login(g, a, e2e.AutoClient)
						if err != nil {
							return
						}
						c.Close()
					}
				}(a, pv, r.Int63())
				continue
			}
			c, err := e2e.Login(g, a, e2e.AutoClient)
			if err != nil {
				if alive(run, g, "login") {
					run.Fail("login", pv.String(), "%s: login not accepted by the gateway program: %v", pv, err)
				}
				close(stop)
				return
			}
			defer c.Close()
			cs = append(cs, c)
			switch busy {
			case "connections":
				s, err := c.Send("submit", submit(rand.New(rand.NewSource(r.Int63())), pv))
				if err != nil || c.Resp("submit", s, e2e.Watchdog()) == nil {
					if alive(run, g, "service") {
						run.Fail("not-served", pv.String(), "%s: a message is not answered by the gateway program", pv)
					}
				}
			case "half a packet":
				_ = c.Write([]byte{0, 0, 0, 90, 0, 0, 0})
			case "traffic":
				jobs++
				go func(c *e2e.Conn, pv gen.PV, seed int64) {
					defer func() { done <- struct{}{} }()
					rr := rand.New(rand.NewSource(seed))
					for {
						select {
						case <-stop:
							return
						default:
						}
						if _, err := c.Send("submit", submit(rr, pv)); err != nil {
							return
						}
						time.Sleep(200 * time.Microsecond)
					}
				}(c, pv, r.Int63())
			}
		}
	}
	time.Sleep(time.Duration(r.Intn(80)) * time.Millisecond)
	if g.Dead() {
		alive(run, g, busy)
		close(stop)
		return
	}
	sig := c31signals[i%len(c31signals)]
	l := sig.l
	if l == nil {
		for k := 0; k < 400; k++ {
			l = append(l, []syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGQUIT}[r.Intn(3)])
		}
	}
	asked := time.Now()
	for k, s := range l {
		if k > 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Microsecond)
		}
		if !g.Signal(s) {
			break
		}
	}
	ended := g.Ended(e2e.Watchdog())
	took := time.Since(asked)
	close(stop)
	what := fmt.Sprintf("signals %s during %s", sig.name, busy)
	if !ended {
		run.Fail("runs-on", what, "the gateway program still runs %s after it got %s", took.Round(time.Second), what)
		return
	}
	if st := g.Status(); st != "exit status 0" || g.Panicked() {
		run.Fail("end", what, "the gateway program ended with %s after %s: %s", st, what, g.Tail(1500))
	}
	for k := 0; k < jobs; k++ {
		select {
		case <-done:
		case <-time.After(e2e.Watchdog()):
			run.Fail("connections-stay", what, "connections stay open after the end of the gateway program")
			return
		}
	}
	for _, c := range cs {
		if !c.WaitEOF(e2e.Watchdog()) {
			run.Fail("connections-stay", what, "a connection stays open after the end of the gateway program")
		}
	}
	for _, n := range []string{"cmpp", "sgip", "smgp"} {
		if c, err := net.Dial("tcp", g.Addr(n)); err == nil {
			_ = c.Close()
			run.Fail("port-stays", what, "the %s port still takes connections after the end of the gateway program", n)
		}
	}
	run.Case(fmt.Sprint(len(left), sig.name, busy, cfg.Debug, cfg.Tick))
	run.Count("lives", 1)
	run.Count("connections_at_the_end", int64(len(cs)))
	run.Max("longest_end_ms", took.Milliseconds())
	run.Sample(map[string]any{"pid file before": left, "signals": sig.name, "during": busy, "end": g.Status(), "took": took.String()})
}

// c31taken starts the program while another process has one of its ports.
func c31taken(run *lib.Run, r *rand.Rand, i int) {
	which := []string{"cmpp", "sgip", "smgp"}[i/6%3]
	g, release, err := e2e.LaunchTaken(e2e.Config{Bin: "gosmc", Success: 1, LogLevel: 2, Multicore: r.Intn(2) == 0}, which)
	if err != nil {
		run.Note("no gateway could be launched beside a taken port: %v", err)
		return
	}
	defer release()
	defer g.Kill()
	if !g.Ended(e2e.Watchdog()) {
		run.Fail("port-taken", which, "the gateway program runs on although its %s port is taken by another process", which)
		return
	}
	if st := g.Status(); st == "exit status 0" {
		run.Fail("port-taken", which, "the gateway program ends with success although its %s port is taken by another process", which)
	}
	run.Case("taken " + which)
	run.Count("starts_with_a_taken_port", 1)
}
