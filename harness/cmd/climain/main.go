// climain is a program that uses the client library of /repo/msc_client, driven by the checks: it sends, queries
// and handles expired results as it is told, and keeps watching what queries show.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hrygo/log"

	"github.com/hrygo/gosms/auth"
	sms "github.com/hrygo/gosms/smc_client"
	"verif/e2e"
	"verif/proc"
)

var t0 = time.Now()

func now() int64 { return int64(time.Since(t0)) }

var (
	mu      sync.Mutex
	ids     []int64 // handles given out so far
	expired []e2e.Expired
)

func send(phones []string, text string) (s e2e.Sent) {
	s.Start = now()
	defer func() {
		if p := recover(); p != nil {
			s.Panic = fmt.Sprint(p)
		}
		s.End, s.Wall = now(), time.Now().UnixNano()
	}()
	if len(phones) == 1 {
		s.Id = sms.Send(text, phones[0])
	} else {
		s.Id = sms.SendN(text, phones)
	}
	if !forget.Load() {
		mu.Lock()
		ids = append(ids, s.Id)
		mu.Unlock()
	}
	return
}

var forget atomic.Bool // this program itself keeps nothing
var handled atomic.Int64

func query(id int64) (l []e2e.Result) {
	for _, x := range sms.Query(id) {
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		var r e2e.Result
		if err = json.Unmarshal(b, &r); err != nil {
			panic(err)
		}
		l = append(l, r)
	}
	return
}

// watcher queries all handles again and again; what a result shows may only be completed, never changed.
type watcher struct {
	stop atomic.Bool
	wg   sync.WaitGroup
	mu   sync.Mutex
	bad  []string
	n    int64
	mid  int64 // results seen between response and report
}

func (w *watcher) fail(f string, a ...any) {
	w.mu.Lock()
	if len(w.bad) < 10 {
		w.bad = append(w.bad, fmt.Sprintf(f, a...))
	}
	w.mu.Unlock()
}

func (w *watcher) run(k int) {
	defer w.wg.Done()
	last := map[int64][]e2e.Result{}
	for i := k; !w.stop.Load(); i++ {
		mu.Lock()
		l := ids[:len(ids):len(ids)]
		mu.Unlock()
		if len(l) == 0 {
			time.Sleep(time.Millisecond)
			continue
		}
		id := l[(i*7)%len(l)]
		if i%3 == 0 {
			id = l[len(l)-1]
		}
		q := query(id)
		atomic.AddInt64(&w.n, 1)
		p, ok := last[id]
		if ok && len(q) == 0 && len(p) > 0 {
			p, ok = nil, false // expired
		}
		for j := range q {
			r := q[j]
			if r.MsgId != "" && r.Report == "" {
				atomic.AddInt64(&w.mid, 1)
			}
			if r.QueryId != id {
				w.fail("a result of handle %d says it is of handle %d", id, r.QueryId)
			}
			if !ok {
				continue
			}
			if len(p) != len(q) {
				w.fail("handle %d showed %d parts, then %d", id, len(p), len(q))
				break
			}
			o := p[j]
			if o.SequenceId != r.SequenceId || o.Phone != r.Phone || !o.SendTime.Equal(r.SendTime) {
				w.fail("part %d of handle %d turned from %+v into %+v", j, id, o, r)
			}
			if !o.ResponseTime.IsZero() && (o.MsgId != r.MsgId || o.Result != r.Result) || !o.ReportTime.IsZero() && o.Report != r.Report {
				w.fail("part %d of handle %d had its response or report replaced: %+v, then %+v", j, id, o, r)
			}
		}
		last[id] = q
		if i%64 == 0 {
			time.Sleep(time.Millisecond)
		}
	}
}

var w *watcher

func main() {
	go func() { // an orderly end is told by the exit code
		<-sms.StatChan()
		log.Sync()
		os.Exit(7)
	}()
	proc.Serve(map[string]func(json.RawMessage) any{
		"init": func(json.RawMessage) any { auth.Cache = auth.New(sms.ConfigYml); return 1 },
		"send": func(b json.RawMessage) any {
			var m e2e.Msg
			_ = json.Unmarshal(b, &m)
			return send(m.Phones, m.Text)
		},
		"batch": func(b json.RawMessage) any {
			var a e2e.Batch
			_ = json.Unmarshal(b, &a)
			res := make([]e2e.Sent, len(a.Msgs))
			var wg sync.WaitGroup
			var next int64 = -1
			for k := 0; k < a.Workers; k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for {
						i := int(atomic.AddInt64(&next, 1))
						if i >= len(a.Msgs) {
							return
						}
						res[i] = send(a.Msgs[i].Phones, a.Msgs[i].Text)
						if a.GapUs > 0 {
							time.Sleep(time.Duration(a.GapUs) * time.Microsecond)
						}
					}
				}()
			}
			wg.Wait()
			return res
		},
		"query": func(b json.RawMessage) any {
			var l []int64
			_ = json.Unmarshal(b, &l)
			m := make([]e2e.Shown, len(l))
			for i, id := range l {
				m[i].Start = now()
				m[i].Results = query(id)
				m[i].End = now()
			}
			return m
		},
		"watch": func(json.RawMessage) any {
			w = &watcher{}
			for i := 0; i < 3; i++ {
				w.wg.Add(1)
				go w.run(i)
			}
			return 1
		},
		"unwatch": func(json.RawMessage) any {
			w.stop.Store(true)
			w.wg.Wait()
			return e2e.Watched{N: w.n, Mid: w.mid, Bad: w.bad}
		},
		"expire": func(b json.RawMessage) any {
			var slow int // the handler takes so many milliseconds
			_ = json.Unmarshal(b, &slow)
			sms.StartCacheExpireTicker(func(l []any) {
				x := e2e.Expired{At: now(), Wall: time.Now().UnixNano()}
				work := func() {
					time.Sleep(time.Duration(slow) * time.Millisecond)
					for _, a := range l {
						var r e2e.Result
						b, err := json.Marshal(a)
						if err == nil {
							err = json.Unmarshal(b, &r)
						}
						if err != nil {
							r.Phone = "handler: " + err.Error()
						}
						x.Results = append(x.Results, r)
					}
					mu.Lock()
					expired = append(expired, x)
					mu.Unlock()
				}
				if slow%2 == 1 { // a handler that keeps what it got for later
					go work()
				} else {
					work()
				}
			})
			return 1
		},
		"forget": func(b json.RawMessage) any { // results expire, handled or not, and nobody keeps them
			var h bool
			_ = json.Unmarshal(b, &h)
			forget.Store(true)
			if h {
				sms.StartCacheExpireTicker(func(l []any) { handled.Add(int64(len(l))) })
			} else {
				sms.StartCacheExpireTicker(nil)
			}
			return 1
		},
		"mem": func(json.RawMessage) any {
			runtime.GC()
			runtime.GC()
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			return e2e.Mem{Objects: int64(m.HeapObjects), Octets: int64(m.HeapAlloc), Goroutines: runtime.NumGoroutine(), Handled: handled.Load()}
		},
		"journal": func(json.RawMessage) any { sms.PersistenceSmsJournal(); return 1 },
		"expired": func(json.RawMessage) any {
			mu.Lock()
			defer mu.Unlock()
			return expired
		},
		"now":        func(json.RawMessage) any { return now() },
		"goroutines": func(json.RawMessage) any { return runtime.NumGoroutine() },
		"stacks": func(json.RawMessage) any {
			f, err := os.Create("stacks.txt")
			if err == nil {
				_ = pprof.Lookup("goroutine").WriteTo(f, 1)
				_ = f.Close()
			}
			return 1
		},
		"shift": func(b json.RawMessage) any {
			var d time.Duration
			_ = json.Unmarshal(b, &d)
			shift(d)
			return 1
		},
		"race": func(json.RawMessage) any { return canary() },
	})
}

// canary shows that the race detector is at work.
func canary() int {
	var n int
	done := make(chan bool)
	go func() { n++; done <- true }()
	n++
	<-done
	return n
}
