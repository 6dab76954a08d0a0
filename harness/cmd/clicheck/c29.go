package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"time"

	"verif/e2e"
	"verif/lib"
)

func init() { checks["C29"] = c29 }

const journalColl = "smsdb.journal"

func c29() {
	run := lib.NewRun("C29", "exhaustive observation of sampled executions",
		"one evaluation: one transmitted part and the documents of it in the journal; distinct: lifetime × interval of the expiry check × number of parts × what was known of the part")
	n := run.N(16, 120)
	for i := 0; i < n && run.NFailed() < 5; i += 8 {
		par(8, func(k int) {
			r := run.Sub(fmt.Sprint("c29", i+k))
			db := &e2e.FakeMongo{}
			var mu sync.Mutex
			fr := rand.New(rand.NewSource(r.Int63()))
			db.Fault = func(cmd, coll string, n int) string {
				mu.Lock()
				defer mu.Unlock()
				if cmd == "insert" && fr.Intn(3) == 0 {
					return time.Duration(fr.Intn(400) * int(time.Millisecond)).String() // a slow database
				}
				return ""
			}
			if err := db.Listen(); err != nil {
				panic(err)
			}
			defer func() {
				db.Close()
				for _, b := range db.Bad() {
					panic("the harness does not understand the driver: " + b)
				}
			}()
			if (i+k)%4 == 3 {
				c25virtual(run, r, i+k, db)
			} else {
				c25real(run, r, i+k, db)
			}
			for _, o := range db.Ops() {
				if o.Cmd == "insert" && o.Coll == journalColl {
					run.Count("inserts", 1)
					run.Count("documents", int64(o.N))
					run.Max("largest_insert", int64(o.N))
				}
			}
		})
	}
	run.Finish()
}

// journal are the results that the journal holds.
func journal(c *c25client) (l []e2e.Expired, n int) {
	x := e2e.Expired{Wall: 1 << 62} // when it was stored is not judged
	for _, d := range c.db.Docs(journalColl) {
		t := func(k string) time.Time { v, _ := d.Get(k).(time.Time); return v }
		x.Results = append(x.Results, e2e.Result{QueryId: d.Int("queryid"), Phone: d.Str("phone"), SequenceId: seqOf(d.Get("sequenceid")), Result: uint32(d.Int("result")),
			MsgId: d.Str("msgid"), Report: d.Str("report"), SendTime: nozero(t("sendtime")), ResponseTime: nozero(t("responsetime")), ReportTime: nozero(t("reporttime"))})
	}
	c.run.Max("journal", int64(len(x.Results)))
	return []e2e.Expired{x}, len(x.Results)
}

// nozero: the zero time is kept as one that is not one.
func nozero(t time.Time) time.Time {
	if t.Unix() == (time.Time{}).Unix() {
		return time.Time{}
	}
	return t
}

// seqOf reads a sequence number of 64 bits in whatever way it is kept that loses nothing.
func seqOf(v any) uint64 {
	switch v := v.(type) {
	case int32:
		return uint64(v)
	case int64:
		return uint64(v)
	case string:
		n, _ := new(big.Int).SetString(v, 10)
		if n != nil && n.IsUint64() {
			return n.Uint64()
		}
	case e2e.BRaw:
		if v.T == 19 { // a decimal of 128 bits, as an integer
			var lo uint64
			for i := 7; i >= 0; i-- {
				lo = lo<<8 | uint64(v.B[i])
			}
			return lo
		}
	}
	return 0
}
