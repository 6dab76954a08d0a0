package main

import (
	"fmt"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hrygo/gosms/event_manager"
	"verif/lib"
)

func init() { checks["C27"] = eventsCheck }

// eventsCheck: registration, calls and shutdown hooks, alone and concurrently.
func eventsCheck() *lib.Run {
	r := lib.NewRun("C27", "exploration", "a case is one history of registrations and calls under a fresh prefix; distinct by script; non-trivial when several registrations compete or several handlers run")
	rnd := r.Sub("events")
	// sequential histories against a model
	for c := 0; c < r.N(2000, 20000); c++ {
		prefix := fmt.Sprintf("h%d_", c)
		top := event_manager.CreateEventManage(prefix)
		sub := event_manager.CreateEventManage(prefix + "k") // a group within the group
		other := event_manager.CreateEventManage("other_" + prefix)
		type call struct {
			id   int
			args string
		}
		var got []call
		id := 0
		model := map[string][]int{}
		var script []string
		mk := func() (event_manager.Event, int) {
			id++
			n := id
			return func(args ...any) { got = append(got, call{n, fmt.Sprint(args...)}) }, n
		}
		foreign := 0
		other.Register("k0", func(args ...any) { foreign++ })
		for k := 0; k < 12; k++ {
			em, group := top, prefix
			if rnd.Intn(3) == 0 {
				em, group = sub, prefix+"k"
			}
			key := []string{"", "k", "k0", "k1", "k2", "k11", "x", "xk"}[rnd.Intn(8)] // also the group's own name, and names that begin alike
			if rnd.Intn(3) == 0 {
				key = group + key // the prefix may already be there
			}
			short := key // the whole name
			if !strings.HasPrefix(key, group) {
				short = group + key
			}
			switch rnd.Intn(6) {
			case 0, 1:
				n := rnd.Intn(4)
				hs := make([]event_manager.Event, 0, rnd.Intn(8))
				var ids []int
				for i := 0; i < n; i++ {
					h, x := mk()
					hs, ids = append(hs, h), append(ids, x)
				}
				ok := em.Register(key, hs...)
				for i := range hs { // the slice is the caller's
					hs[i] = func(args ...any) { got = append(got, call{-1, ""}) }
				}
				_, exists := model[short]
				if ok != (n > 0 && !exists) {
					r.Fail("event-register", script, "registering %d handlers for %q (already registered: %v) returned %v", n, key, exists, ok)
				}
				if n > 0 && !exists {
					model[short] = ids
				}
				script = append(script, fmt.Sprintf("reg(%s,%d)", key, n))
			case 2, 3:
				args := []any{rnd.Intn(100), "x", nil, []int{rnd.Intn(9)}}[:rnd.Intn(5)]
				got = nil
				if p := lib.Guard(func() { em.Call(key, args...) }); p != nil {
					r.Fail("event-panic", script, "calling %q panics: %v", key, p)
				}
				var want []call
				for _, x := range model[short] {
					want = append(want, call{x, fmt.Sprint(args...)})
				}
				if !reflect.DeepEqual(got, want) {
					r.Fail("event-call", script, "calling %q with %v ran %v, registered were %v", key, args, got, want)
				}
				script = append(script, "call("+key+")")
			case 4:
				got = nil
				em.FuzzyCall()
				seen := map[int]int{}
				for _, g := range got {
					seen[g.id]++
				}
				want := 0
				for name, ids := range model {
					if !strings.HasPrefix(name, group) {
						continue
					}
					for _, x := range ids {
						want++
						if seen[x] != 1 {
							r.Fail("event-fuzzy", script, "handler %d ran %d times in a call of the whole prefix", x, seen[x])
						}
					}
				}
				if len(got) != want || foreign != 0 {
					r.Fail("event-fuzzy", script, "calling the prefix ran %d handlers, registered were %d; foreign handlers ran %d", len(got), want, foreign)
				}
				script = append(script, "fuzzy("+group+")")
			case 5:
				em.Delete(key)
				delete(model, short)
				if _, ok := em.Get(key); ok {
					r.Fail("event-delete", script, "%q is still registered after its deletion", key)
				}
				script = append(script, "del("+key+")")
			}
		}
		r.Case(fmt.Sprint(script))
		if c == 0 {
			r.Sample(script)
		}
		for k := range model {
			top.Delete(k)
		}
		other.Delete("k0")
	}
	// competing registrations: exactly one wins and only its handlers run
	for c := 0; c < r.N(3000, 60000); c++ {
		prefix := fmt.Sprintf("c%d_", c)
		em := event_manager.CreateEventManage(prefix)
		const g = 8
		var wins, ran [g]int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				if em.Register("k", func(args ...any) { atomic.AddInt32(&ran[i], 1) }) {
					wins[i] = 1
				}
			}(i)
		}
		close(start)
		wg.Wait()
		em.Call("k")
		w := int32(0)
		for i := range wins {
			w += wins[i]
			if ran[i] != wins[i] {
				r.Fail("event-winner", c, "registration %d won: %d, its handler ran %d times", i, wins[i], ran[i])
			}
		}
		if w != 1 {
			r.Fail("event-winner", c, "%d of %d competing registrations of one key reported success", w, g)
		}
		em.Delete("k")
		r.Case("compete")
		r.Count("competitions", 1)
	}
	// shutdown hooks: all run once, events before the cancel signal
	var order []string
	var mu sync.Mutex
	var cancels, shared []<-chan bool
	n := 5 + rnd.Intn(5)
	for i := 0; i < n; i++ {
		i := i
		ch := event_manager.RegisterShutdownHookerAddChan(fmt.Sprintf("s%d", i), func(args ...any) {
			mu.Lock()
			defer mu.Unlock()
			order = append(order, fmt.Sprintf("s%d", i))
			if len(cancels[i]) != 0 {
				r.Fail("event-cancel", i, "the cancel signal was sent before the hook ran")
			}
		})
		if ch == nil {
			r.Fail("event-cancel", i, "registering a fresh shutdown hook failed")
			return r
		}
		cancels = append(cancels, ch)
		if event_manager.RegisterShutdownHookerAddChan(fmt.Sprintf("s%d", i), func(args ...any) {}) != nil {
			r.Fail("event-cancel", i, "a second shutdown hook of the same key got a cancel channel")
		}
	}
	// several hooks made of one slice
	base := make([]event_manager.Event, 1, 5)
	ran := 0
	base[0] = func(args ...any) { ran++ }
	for i := 0; i < 3; i++ {
		shared = append(shared, event_manager.RegisterShutdownHookerAddChan(fmt.Sprintf("shared%d", i), base...))
	}
	over := make(chan struct{})
	go func() { event_manager.GracefullyShutdown(); close(over) }()
	select {
	case <-over:
	case <-time.After(time.Minute):
		r.Fail("event-shutdown", nil, "the shutdown hooks do not return")
		return r
	}
	if ran != 3 {
		r.Fail("event-shared", ran, "a handler that three hooks have in common ran %d times", ran)
	}
	for i, ch := range shared {
		select {
		case <-ch:
		default:
			r.Fail("event-shared", i, "hook %d of three with a common slice of handlers gave no cancel signal", i)
		}
	}
	if len(order) != n {
		r.Fail("event-shutdown", order, "%d of %d shutdown hooks ran: %v", len(order), n, order)
	}
	for i, ch := range cancels {
		select {
		case v, ok := <-ch:
			if !v || !ok {
				r.Fail("event-cancel", i, "cancel channel gave %v, %v", v, ok)
			}
		default:
			r.Fail("event-cancel", i, "no cancel signal after shutdown")
		}
	}
	r.Case("shutdown")
	return r
}
