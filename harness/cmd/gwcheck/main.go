// gwcheck decides the properties of the gateway (C10-C20) by observing a real gateway process.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/hrygo/log"
	"verif/e2e"
	"verif/gen"
	"verif/lib"
	"verif/refc"
)

var checks = map[string]func(){}

func main() {
	f, ok := checks[os.Args[1]]
	if !ok {
		fmt.Println("unknown check", os.Args[1])
		os.Exit(3)
	}
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	log.ResetDefault(log.New(null, log.ErrorLevel))
	f()
}

// account makes an account of a protocol version; n numbers it.
func account(pv gen.PV, n, maxConns, window, tput int) e2e.Account {
	a := e2e.Account{Isp: pv.Proto, Ver: pv.Ver, Secret: fmt.Sprintf("secret %d", n), NeedReport: 1, Level: 2,
		Display: "10690000", Service: "svc", FeeType: "05", FeeCode: "free", MaxConns: maxConns, Window: window, Tput: tput}
	switch pv.Proto {
	case refc.CMPP:
		a.Id = fmt.Sprintf("%06d", 900000+n)
	case refc.SMGP:
		a.Id = fmt.Sprintf("%08d", 30000000+n)
	default:
		a.Id = fmt.Sprintf("%d", 3037196000+n)
	}
	a.Login = a.Id
	return a
}

func start(run *lib.Run, c e2e.Config) *e2e.Gateway {
	g, err := e2e.StartGateway(c)
	if err != nil {
		run.Fail("gateway-start", nil, "the gateway does not start: %v", err)
		return nil
	}
	return g
}

// alive reports a gateway process that ended.
func alive(run *lib.Run, g *e2e.Gateway, what string) bool {
	if g.Dead() {
		run.Fail("gateway-died", map[string]any{"during": what}, "the gateway process ended during %s: %s", what, g.Tail(1500))
		return false
	}
	return true
}

// cuts are the sizes of the segments a stream of n octets is cut into.
func cuts(r *rand.Rand, n int, mode string) (l []int) {
	switch mode {
	case "whole":
		return nil
	case "octets":
		for i := 0; i < n; i++ {
			l = append(l, 1)
		}
	case "small":
		for i := 0; i < n; {
			k := 1 + r.Intn(13)
			l = append(l, k)
			i += k
		}
	default:
		for i := 0; i < n; {
			k := 1 + r.Intn(n)
			l = append(l, k)
			i += k
		}
	}
	return
}

// par runs jobs side by side.
func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); f(i) }(i)
	}
	wg.Wait()
}

func logout(c *e2e.Conn) bool {
	s, err := c.Send(e2e.LogoutKind(c.Proto), refc.M{})
	if err != nil {
		return false
	}
	ok := c.Resp(e2e.LogoutKind(c.Proto), s, e2e.Watchdog()) != nil
	if ok {
		ok = c.WaitEOF(e2e.Watchdog())
	}
	c.Close()
	return ok
}

// submit is a random well-formed submit, to at least one recipient.
func submit(r *rand.Rand, pv gen.PV) refc.M {
	for {
		m, _ := gen.Message(r, pv, "submit")
		if len(m.L("dest")) == 0 {
			continue
		}
		// digits, as addresses are
		d := m.L("dest")
		for i := range d {
			d[i] = "1" + gen.Digits(r, 10)
		}
		switch pv.Proto {
		case refc.SGIP:
			m["sp"] = "10690000" + gen.Digits(r, r.Intn(12))
		default:
			m["src"] = "10690000" + gen.Digits(r, r.Intn(12))
		}
		return m
	}
}

func dur(a time.Time) string { return time.Since(a).Round(time.Millisecond).String() }
