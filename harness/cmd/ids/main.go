// Command ids decides C08: identifiers are unique, carry their node and survive clock steps.
// It is built with a package time whose clock can be shifted.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hrygo/gosms/codec/sgip"
	"github.com/hrygo/gosms/utils"
	"github.com/hrygo/gosms/utils/snowflake"
	"github.com/hrygo/gosms/utils/snowflake32"

	"verif/lib"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "sgip" {
		sgipChild()
		return
	}
	r := lib.NewRun("C08", "exploration", "a case is one history of one generator (node, goroutines, clock-step script, calls); distinct by generator+node+script shape; non-trivial when it has concurrent calls or a clock step or a complete cycle")
	cycle(r)
	flake64(r)
	flake32(r)
	bcd(r)
	sgipSeq(r)
	clockOff()
	r.Finish()
}

var offset time.Duration

func step(d time.Duration) { time.VerifShift(d, 0); offset += d }
func clockOff()            { step(-offset) }

// gather calls next from g goroutines n times each, while a clock script runs between rounds.
func gather(g, n int, next func() uint64) [][]uint64 {
	out := make([][]uint64, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			o := make([]uint64, 0, n)
			for k := 0; k < n; k++ {
				o = append(o, next())
			}
			out[i] = o
		}(i)
	}
	close(start)
	wg.Wait()
	return out
}

func cycle(r *lib.Run) {
	rnd := r.Sub("cycle")
	// every node: concurrent calls, values positive, distinct within and across nodes
	for dc := int32(0); dc < 4; dc++ {
		for w := int32(0); w < 8; w++ {
			s := utils.NewCycleSequence(dc, w)
			seen := map[uint64]bool{}
			for _, o := range gather(8, 300, func() uint64 { return uint64(uint32(s.NextVal())) }) {
				prev := int64(-1)
				for _, v := range o {
					if seen[v] {
						r.Fail("cycle-dup", v, "cycle sequence dc=%d w=%d repeated %d", dc, w, v)
					}
					seen[v] = true
					if v>>31 != 0 || int32(v>>29) != dc || int32(v>>26)&7 != w {
						r.Fail("cycle-node", v, "cycle sequence dc=%d w=%d produced %#x: not a positive number carrying its node", dc, w, v)
					}
					if int64(v) <= prev {
						r.Fail("cycle-order", v, "cycle sequence went back from %d to %d before its cycle ended", prev, v)
					}
					prev = int64(v)
				}
			}
			r.Case(fmt.Sprintf("cycle/%d/%d", dc, w))
			r.Count("ids", int64(len(seen)))
		}
	}
	// whole cycles: no value repeats within 2^26 calls, whatever the node
	for k := 0; k < r.N(2, 6); k++ {
		dc, w := int32(rnd.Intn(4)), int32(rnd.Intn(8))
		s := utils.NewCycleSequence(dc, w)
		bits := make([]uint64, 1<<20)
		for i := 0; i < 1<<26; i++ {
			v := uint32(s.NextVal())
			if v>>31 != 0 || int32(v>>29) != dc || int32(v>>26)&7 != w {
				r.Fail("cycle-node", v, "after %d calls cycle sequence dc=%d w=%d produced %#x: not a positive number carrying its node", i, dc, w, v)
				break
			}
			x := v & 0x3ffffff
			if bits[x>>6]&(1<<(x&63)) != 0 {
				r.Fail("cycle-dup", v, "cycle sequence dc=%d w=%d repeated %d after %d calls", dc, w, v, i)
				break
			}
			bits[x>>6] |= 1 << (x & 63)
		}
		r.Case(fmt.Sprintf("fullcycle/%d/%d", dc, w))
		r.Count("ids", 1<<26)
	}
}

type flake64Log struct {
	dc, w int64
	ids   []uint64
}

// flake64: ids of several nodes generated at once, with the clock stepping both ways
func flake64(r *lib.Run) {
	rnd := r.Sub("flake64")
	all := map[uint64]string{}
	for c := 0; c < r.N(60, 600); c++ {
		dc, w := int64(rnd.Intn(8)), int64(rnd.Intn(128))
		if c%5 == 0 {
			dc, w = 7, 127
		}
		s := snowflake.NewSnowflake(dc, w)
		dc2, w2 := dc, (w+1+int64(rnd.Intn(126)))%128
		if c%3 == 0 {
			dc2, w2 = (dc+1+int64(rnd.Intn(6)))%8, w
		}
		s2 := snowflake.NewSnowflake(dc2, w2)
		var script []string
		seen := map[uint64]bool{}
		prevMax := uint64(0)
		steps := 0
		for round := 0; round < 6; round++ {
			g, n := 1+rnd.Intn(8), 1+rnd.Intn(900)
			if rnd.Intn(6) == 0 {
				n = 4500 // more than a millisecond holds
				g = 1
			}
			script = append(script, fmt.Sprintf("%dx%d", g, n))
			roundMin, roundMax := ^uint64(0), uint64(0)
			before := time.Now().UnixNano() / 1e6
			check := func(o []uint64, edc, ew int64) {
				prev := uint64(0)
				for _, v := range o {
					p := snowflake.Parse(int64(v))
					if int64(v) < 0 || p.DatacenterId() != edc || p.WorkerId() != ew {
						r.Fail("flake64-node", script, "id %#x of node (%d,%d) parses as (%d,%d)", v, edc, ew, p.DatacenterId(), p.WorkerId())
					}
					if steps == 0 && (p.Timestamp() < before-1 || p.Timestamp() > time.Now().UnixNano()/1e6+1) {
						r.Fail("flake64-time", script, "id %#x carries time %d, made between %d and now", v, p.Timestamp(), before)
					}
					if v <= prev {
						r.Fail("flake64-order", script, "a goroutine saw id %#x after %#x", v, prev)
					}
					prev = v
					if o, dup := all[v]; dup {
						r.Fail("flake64-dup", script, "id %#x of node (%d,%d) repeats one of %s (clock script %v)", v, edc, ew, o, script)
					}
					all[v] = fmt.Sprintf("node(%d,%d) case %d", edc, ew, c)
					r.Count("ids", 1)
				}
			}
			res := gather(g, n, func() uint64 { return uint64(s.NextVal()) })
			for _, o := range res {
				check(o, dc, w)
				for _, v := range o {
					seen[v] = true
					if v < roundMin {
						roundMin = v
					}
					if v > roundMax {
						roundMax = v
					}
				}
			}
			if roundMin <= prevMax {
				r.Fail("flake64-order", script, "id %#x was made after %#x but is not larger (clock script %v)", roundMin, prevMax, script)
			}
			prevMax = roundMax
			check(seq(300, func() uint64 { return uint64(s2.NextVal()) }), dc2, w2)
			// clock step between calls
			if rnd.Intn(3) > 0 {
				d := []time.Duration{-time.Millisecond, -5 * time.Millisecond, -time.Second, -time.Hour, time.Second, 24 * time.Hour, -3 * time.Millisecond}[rnd.Intn(7)]
				step(d)
				steps++
				script = append(script, "step"+d.String())
			}
		}
		key := ""
		if steps > 0 {
			key = fmt.Sprintf("flake64/%d/%d/%v", dc, w, script)
		}
		r.Case(key)
		r.Count("clock_steps", int64(steps))
		if c == 1 {
			r.Sample(map[string]any{"generator": "snowflake64", "node": []int64{dc, w}, "script": script, "last_id": fmt.Sprintf("%#x", prevMax)})
		}
		// the next case starts later than everything so far: nodes may be reused between cases
		clockOff()
		step(time.Duration(c+1) * 48 * time.Hour)
	}
	clockOff()
}

func seq(n int, next func() uint64) []uint64 {
	o := make([]uint64, n)
	for i := range o {
		o[i] = next()
	}
	return o
}

func flake32(r *lib.Run) {
	rnd := r.Sub("flake32")
	for c := 0; c < r.N(60, 400); c++ {
		dc, w := int32(rnd.Intn(4)), int32(rnd.Intn(8))
		s := snowflake32.NewSnowflake(dc, w)
		w2 := (w + 1 + int32(rnd.Intn(7))) % 8
		s2 := snowflake32.NewSnowflake(dc, w2)
		// start somewhere of the day, often just before midnight
		clockOff()
		now := time.Now()
		midnight := time.Date(now.Year(), now.Month(), now.Day()+1, 0, 0, 0, 0, now.Location())
		if c%2 == 0 {
			step(midnight.Sub(now) - time.Duration(1+rnd.Intn(3))*time.Second)
		} else {
			step(time.Duration(rnd.Intn(86400)) * time.Second)
		}
		begin := time.Now()
		seen := map[uint64]bool{}
		var script []string
		steps, crossed := 0, false
		total := time.Duration(0)
		for round := 0; round < 8; round++ {
			g, n := 1+rnd.Intn(4), 1+rnd.Intn(60)
			script = append(script, fmt.Sprintf("%dx%d", g, n))
			done := make(chan [][]uint64, 1)
			go func() { done <- gather(g, n, func() uint64 { return uint64(uint32(s.NextVal())) }) }()
			var res [][]uint64
			select {
			case res = <-done:
			case <-time.After(90 * time.Second):
				r.Fail("flake32-stall", script, "the generator stopped producing ids for 90 s (clock script %v)", script)
				r.Finish()
			}
			sod := func(t time.Time) int64 { _, o := t.Zone(); return (t.Unix() + int64(o)) % 86400 }
			for _, o := range res {
				for _, v := range o {
					p := snowflake32.Parse(int32(v))
					if int32(v) < 0 || p.Datacenter() != dc || p.Worker() != w || p.Seconds() < 0 || p.Seconds() >= 86400 {
						r.Fail("flake32-node", script, "id %#x of node (%d,%d) parses as (%d,%d) second %d", v, dc, w, p.Datacenter(), p.Worker(), p.Seconds())
					}
					if steps == 0 {
						d := sod(time.Now()) - int64(p.Seconds())
						if d < 0 {
							d += 86400
						}
						if d > int64(time.Since(begin)/time.Second)+2 {
							r.Fail("flake32-time", script, "id %#x carries second %d of the day, now is %d", v, p.Seconds(), sod(time.Now()))
						}
					}
					if seen[v] {
						r.Fail("flake32-dup", script, "id %#x of node (%d,%d) repeats within a day (clock script %v)", v, dc, w, script)
					}
					seen[v] = true
				}
			}
			for i := 0; i < 20; i++ {
				v := uint64(uint32(s2.NextVal()))
				if seen[v] {
					r.Fail("flake32-node", script, "nodes (%d,%d) and (%d,%d) made the same id %#x", dc, w, dc, w2, v)
				}
			}
			if rnd.Intn(4) > 0 && total < 20*time.Hour {
				d := []time.Duration{-time.Second, -10 * time.Second, time.Second, 2 * time.Second, 5 * time.Second, -time.Minute, time.Hour}[rnd.Intn(7)]
				b := time.Now()
				step(d)
				if time.Now().Day() != b.Day() {
					crossed = true
				}
				if d > 0 {
					total += d
				}
				if d < 0 {
					steps++
				}
				script = append(script, "step"+d.String())
			}
		}
		key := ""
		if steps > 0 || crossed {
			key = fmt.Sprintf("flake32/%d/%d/%v", dc, w, script)
		}
		if crossed {
			r.Count("midnights_crossed", 1)
		}
		r.Case(key)
		r.Count("clock_steps", int64(steps))
		r.Count("ids", int64(len(seen)))
	}
	clockOff()
}

func bcd(r *lib.Run) {
	rnd := r.Sub("bcd")
	digits := func(b []byte) string { return hex.EncodeToString(b) }
	for c := 0; c < r.N(60, 400); c++ {
		worker := fmt.Sprintf("%06d", rnd.Intn(1000000))
		cfg := worker
		if c%6 == 5 { // shorter codes are padded on the left
			cfg = strings.TrimLeft(worker, "0")
			if cfg == "" {
				cfg = "0"
			}
		}
		s := utils.NewBcdSequence(cfg)
		seen := map[string]bool{}
		var script []string
		steps := 0
		for round := 0; round < 6; round++ {
			g, n := 1+rnd.Intn(8), 1+rnd.Intn(400)
			script = append(script, fmt.Sprintf("%dx%d", g, n))
			before := time.Now().Format("01021504")
			var mu sync.Mutex
			var ids []string
			gather(g, n, func() uint64 {
				v := s.NextVal()
				mu.Lock()
				ids = append(ids, digits(v))
				mu.Unlock()
				return 0
			})
			after := time.Now().Format("01021504")
			for _, id := range ids {
				if len(id) != 20 || strings.Trim(id, "0123456789") != "" || id[:6] != worker {
					r.Fail("bcd-form", script, "message id %s is not 10 BCD bytes starting with gateway code %s", id, worker)
					continue
				}
				if t := id[6:14]; t != before && t != after {
					r.Fail("bcd-time", script, "message id %s made at %s carries minute %s", id, before, t)
				}
				if seen[id] {
					r.Fail("bcd-dup", script, "message id %s repeats (clock script %v)", id, script)
				}
				seen[id] = true
			}
			if rnd.Intn(3) > 0 {
				d := []time.Duration{-time.Minute, -time.Second, time.Minute, -2 * time.Minute, 30 * time.Second, time.Hour}[rnd.Intn(6)]
				step(d)
				steps++
				script = append(script, "step"+d.String())
			}
		}
		key := ""
		if steps > 0 {
			key = fmt.Sprintf("bcd/%s/%v", worker, script)
		}
		r.Case(key)
		r.Count("ids", int64(len(seen)))
		r.Count("clock_steps", int64(steps))
	}
	// a million in one minute
	s := utils.NewBcdSequence("123456")
	seen := make([]bool, 1000000)
	for i := 0; i < 1000000; i++ {
		id := digits(s.NextVal())
		n, err := strconv.Atoi(id[14:])
		if err != nil || seen[n] {
			r.Fail("bcd-dup", i, "message id %s repeats after %d ids", id, i)
			break
		}
		seen[n] = true
	}
	r.Case("bcd/million")
	r.Count("ids", 1000000)
	clockOff()
}

// sgipChild prints sequence words of the process-wide generator: sgip <node> <worker> <goroutines> <n>
func sgipChild() {
	node, _ := strconv.ParseUint(os.Args[2], 10, 32)
	worker, _ := strconv.Atoi(os.Args[3])
	g, _ := strconv.Atoi(os.Args[4])
	n, _ := strconv.Atoi(os.Args[5])
	sgip.NewSequencer(uint32(node), uint32(worker))
	var mu sync.Mutex
	begin := time.Now().Format("0102150405")
	w := bufio.NewWriter(os.Stdout)
	gather(g, n, func() uint64 {
		v := sgip.Sequencer.NextVal()
		var b [12]byte
		for i := 0; i < 3; i++ {
			binary.BigEndian.PutUint32(b[4*i:], v[i])
		}
		mu.Lock()
		fmt.Fprintf(w, "%x %s-%s\n", b, begin, time.Now().Format("0102150405"))
		mu.Unlock()
		return 0
	})
	w.Flush()
}

func sgipSeq(r *lib.Run) {
	clockOff()
	node := uint64(3037196688)
	seen := map[string]int{}
	for w := 0; w < 32; w++ {
		out, err := exec.Command(os.Args[0], "sgip", fmt.Sprint(node), fmt.Sprint(w), "4", fmt.Sprint(r.N(500, 5000))).Output()
		if err != nil {
			r.Fail("sgip-crash", w, "generator of worker %d died: %v", w, err)
			continue
		}
		lines := strings.Fields(string(out))
		for i := 0; i+1 < len(lines); i += 2 {
			id, at := lines[i], lines[i+1]
			b, _ := hex.DecodeString(id)
			if uint64(binary.BigEndian.Uint32(b)) != node {
				r.Fail("sgip-node", id, "sequence number %s does not start with node %d", id, node)
			}
			ts := fmt.Sprintf("%010d", binary.BigEndian.Uint32(b[4:]))
			if ts < at[:10] || ts > at[11:] {
				r.Fail("sgip-time", id, "sequence number %s carries time %s, made in %s", id, ts, at)
			}
			key := fmt.Sprint(binary.BigEndian.Uint32(b[8:]))
			if o, dup := seen[key]; dup {
				r.Fail("sgip-dup", id, "workers %d and %d of one node made the same sequence word %s", o, w, key)
			}
			seen[key] = w
			r.Count("ids", 1)
		}
		r.Case(fmt.Sprintf("sgip/%d", w))
	}
}
