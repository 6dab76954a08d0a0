// storemain serves the account store of /repo/auth to the check of C11: lookups, reloads, and goroutines that
// look accounts up all the time and watch for anything but complete versions.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hrygo/gosms/auth"
	"github.com/hrygo/gosms/codec"
	msc "github.com/hrygo/gosms/msc_server"
	"verif/e2e"
	"verif/proc"
)

type key struct {
	Isp, Id string
	Always  bool // stored all the time
}

// Found is what a lookup yields.
type Found struct {
	Client *auth.Client    `json:"client"`
	Conf   *codec.AuthConf `json:"conf"`
}

type watch struct {
	stop atomic.Bool
	wg   sync.WaitGroup
	mu   sync.Mutex
	bad  []string
	n    int64
	vers map[string]map[string]bool
}

var w *watch

func (w *watch) fail(f string, a ...any) {
	w.mu.Lock()
	if len(w.bad) < 10 {
		w.bad = append(w.bad, fmt.Sprintf(f, a...))
	}
	w.mu.Unlock()
}

func (w *watch) reader(keys []key, n int) {
	defer w.wg.Done()
	last := map[key]int{}
	seen := map[key]map[int]bool{}
	type held struct {
		k key
		c *auth.Client
		v int
	}
	var hold []held
	for i := n; !w.stop.Load(); i++ {
		k := keys[i%len(keys)]
		atomic.AddInt64(&w.n, 1)
		v := -1
		if i%2 == 0 {
			c := auth.Cache.FindByCid(k.Isp, k.Id)
			if c != nil {
				b, _ := json.Marshal(c)
				v = check(w, k, b)
				if v >= 0 && len(hold) < 200 {
					hold = append(hold, held{k, c, v})
				}
			}
		} else if c := msc.FindAuthConf(k.Isp, k.Id); c != nil {
			b, _ := json.Marshal(c)
			v = check(w, k, b)
		}
		if v < 0 && k.Always {
			w.fail("%v: an account that is stored all the time is not served, or not whole", k)
		}
		if v >= 0 {
			if v < last[k] {
				w.fail("%v: version %d is served after version %d", k, v, last[k])
			}
			last[k] = v
			if seen[k] == nil {
				seen[k] = map[int]bool{}
			}
			seen[k][v] = true
		}
		if len(hold) == 200 {
			// what a lookup returned stays one version
			for _, h := range hold {
				b, _ := json.Marshal(h.c)
				if u := check(w, h.k, b); u != h.v {
					w.fail("%v: an account that was looked up turned from version %d into %d", h.k, h.v, u)
				}
			}
			hold = nil
		}
	}
	w.mu.Lock()
	for k, m := range seen {
		s := k.Isp + "_" + k.Id
		if w.vers[s] == nil {
			w.vers[s] = map[string]bool{}
		}
		for v := range m {
			w.vers[s][fmt.Sprint(v)] = true
		}
	}
	w.mu.Unlock()
}

// check tells the version of an account, which all its attributes have to be of.
func check(w *watch, k key, b []byte) int {
	var a e2e.Attrs
	_ = json.Unmarshal(b, &a)
	a.ISP = strings.ToLower(a.ISP)
	v := a.Version()
	if v < 0 || a != e2e.Versioned(k.Isp, k.Id, v).Attrs() {
		w.fail("%v: not one complete version: %s", k, b)
		return -1
	}
	return v
}

func main() {
	auth.Cache = auth.New(msc.ConfigYml)
	proc.Serve(map[string]func(json.RawMessage) any{
		"find": func(b json.RawMessage) any {
			var ks []key
			_ = json.Unmarshal(b, &ks)
			var l []Found
			for _, k := range ks {
				l = append(l, Found{auth.Cache.FindByCid(k.Isp, k.Id), msc.FindAuthConf(k.Isp, k.Id)})
			}
			return l
		},
		"load": func(json.RawMessage) any { auth.Cache.Load(); return 1 },
		"watch": func(b json.RawMessage) any {
			var ks []key
			_ = json.Unmarshal(b, &ks)
			w = &watch{vers: map[string]map[string]bool{}}
			for i := 0; i < 6; i++ {
				w.wg.Add(1)
				go w.reader(ks, i*7)
			}
			return 1
		},
		"unwatch": func(json.RawMessage) any {
			w.stop.Store(true)
			w.wg.Wait()
			n := 0
			for _, m := range w.vers {
				n += len(m)
			}
			return map[string]any{"bad": w.bad, "lookups": w.n, "versions": n}
		},
		"sleep": func(json.RawMessage) any { time.Sleep(time.Millisecond); return 1 },
	})
}
