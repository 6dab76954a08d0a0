// clicheck decides the properties of the client library (C21-C26) by observing a real program that uses it
// against gateways played by the harness.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/hrygo/log"
	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

var checks = map[string]func(){}

func main() {
	f, ok := checks[os.Args[1]]
	if !ok {
		fmt.Println("unknown check", os.Args[1])
		os.Exit(3)
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	log.ResetDefault(log.New(null, log.ErrorLevel))
	f()
}

// segment is the pattern of the numbers a protocol's gateway is for, prefix its first digits.
var prefix = map[string]string{refc.CMPP: "138", refc.SGIP: "130", refc.SMGP: "133"}

func segment(proto string) string { return "^" + prefix[proto] + "[0-9]{8}$" }

var phoneMu sync.Mutex
var phones = map[string]bool{}

// phone is a number never used before.
func phone(r *rand.Rand, proto string) string {
	phoneMu.Lock()
	defer phoneMu.Unlock()
	for {
		p := prefix[proto] + gen.Digits(r, 8)
		if !phones[p] {
			phones[p] = true
			return p
		}
	}
}

// fake makes a gateway for a protocol version.
func fake(pv gen.PV, n, maxConns, window, tput int) *e2e.FakeGW {
	a := e2e.Account{Isp: pv.Proto, Ver: pv.Ver, Secret: fmt.Sprintf("secret%d", n), NeedReport: 1, Level: 2,
		Display: "10690000", Service: "svc", FeeType: "05", FeeCode: "free", MaxConns: maxConns, Window: window, Tput: tput}
	switch pv.Proto {
	case refc.CMPP:
		a.Id = fmt.Sprintf("%06d", 900000+n)
	case refc.SMGP:
		a.Id = fmt.Sprintf("%08d", 30000000+n)
	default:
		a.Id = fmt.Sprintf("%d", 3037196000+n)
	}
	a.Login = a.Id
	return &e2e.FakeGW{PV: pv, A: a, MaxConns: maxConns, Window: window, Tput: tput, Segment: segment(pv.Proto)}
}

// trio picks one version of each protocol.
func trio(i int) []gen.PV {
	var c, m []gen.PV
	var s gen.PV
	for _, pv := range gen.All {
		switch pv.Proto {
		case refc.CMPP:
			c = append(c, pv)
		case refc.SMGP:
			m = append(m, pv)
		default:
			s = pv
		}
	}
	return []gen.PV{c[i%len(c)], s, m[i%len(m)]}
}

// start opens the gateways and starts the client.
func start(run *lib.Run, c e2e.ClientConfig) *e2e.Proc {
	for _, g := range c.GW {
		if err := g.Listen(); err != nil {
			fmt.Println("no port to listen on:", err)
			os.Exit(3)
		}
	}
	p, err := e2e.StartClient(c)
	if err != nil {
		run.Fail("client-start", nil, "the client program does not start: %v", err)
		if p != nil {
			p.Stop()
		}
		return nil
	}
	return p
}

// alive reports a client process that ended.
func alive(run *lib.Run, p *e2e.Proc, what string) bool {
	if p.Dead() {
		run.Fail("client-died", map[string]any{"during": what}, "the client process ended during %s: %s", what, p.Tail(1500))
		return false
	}
	return true
}

func bad(run *lib.Run, gs []*e2e.FakeGW) {
	for _, g := range gs {
		for _, s := range g.Bad() {
			run.Fail("protocol", nil, "%s", s)
		}
	}
}

// text is a message text of some length class: 0 short, 1 two or three parts, 2 many parts.
func text(r *rand.Rand, class int) string {
	n := []int{1 + r.Intn(60), 160 + r.Intn(150), 300 + r.Intn(700)}[class]
	if r.Intn(2) == 0 {
		return gen.Str(r, n)
	}
	s := []rune{}
	for i := 0; i < n/2+1; i++ {
		s = append(s, rune(0x4e00+r.Intn(0x4000)))
	}
	return string(s)
}

// barrier makes sure that the client dealt with everything sent to it on a connection.
func barrier(c *e2e.GwConn) bool {
	if c.Proto == refc.SGIP {
		return true
	}
	s, err := c.Send("active", refc.M{})
	return err == nil && c.Resp("active", s, e2e.Watchdog()) != nil
}

func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); f(i) }(i)
	}
	wg.Wait()
}

// poll waits for a condition.
func poll(d time.Duration, f func() bool) bool {
	for t := time.Now(); ; time.Sleep(10 * time.Millisecond) {
		if f() {
			return true
		}
		if time.Since(t) > d {
			if f() {
				return true
			}
			e2e.Stalled(d)
			return false
		}
	}
}
