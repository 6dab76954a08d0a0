// gwmain is the gateway of /repo/msc_server as a process of its own: the same start-up as
// msc_server/cmd, plus a control channel (commands on fd 3, answers on fd 4) for the checks.
package main

import (
	"bufio"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/pprof"
	"strings"
	"time"

	"github.com/hrygo/log"

	"github.com/hrygo/gosms/auth"
	msc "github.com/hrygo/gosms/msc_server"
	"github.com/hrygo/gosms/msc_server/server"
)

func main() {
	rand.Seed(time.Now().UnixNano())
	auth.Cache = auth.New(msc.ConfigYml)
	server.Start(server.New(server.CMPP))
	server.Start(server.New(server.SMGP))
	server.Start(server.New(server.SGIP))
	go control(os.NewFile(3, "in"), os.NewFile(4, "out"))
	<-msc.StatChan()
	log.Sync()
	os.Exit(0)
}

func control(in, out *os.File) {
	sc := bufio.NewScanner(in)
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		switch f[0] {
		case "shift":
			d, err := time.ParseDuration(f[1])
			if err == nil {
				shift(d)
			}
			fmt.Fprintln(out, "ok")
		case "goroutines":
			fmt.Fprintln(out, runtime.NumGoroutine())
		case "heap":
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			fmt.Fprintln(out, m.HeapAlloc)
		case "race": // shows that the race detector is at work
			var n int
			done := make(chan bool)
			go func() { n++; done <- true }()
			n++
			<-done
			fmt.Fprintln(out, n)
		case "stacks":
			f, err := os.Create("stacks.txt")
			if err == nil {
				_ = pprof.Lookup("goroutine").WriteTo(f, 1)
				_ = f.Close()
			}
			fmt.Fprintln(out, "ok")
		}
	}
	os.Exit(0) // the check is gone
}
