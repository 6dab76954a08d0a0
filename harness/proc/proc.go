// Package proc is the talk between a check and a process of the code under test: one JSON object per line,
// requests on fd 3, answers on fd 4, any number of calls at once.
package proc

import (
	"bufio"
	"encoding/json"
	"os"
	"sync"
)

// Req is a call.
type Req struct {
	Id   int64           `json:"id"`
	Op   string          `json:"op"`
	Args json.RawMessage `json:"args,omitempty"`
}

// Rsp is its answer.
type Rsp struct {
	Id int64           `json:"id"`
	R  json.RawMessage `json:"r"`
}

// Serve answers calls until the check is gone, each in a goroutine of its own.
func Serve(ops map[string]func(args json.RawMessage) any) {
	in, out := os.NewFile(3, "in"), os.NewFile(4, "out")
	var mu sync.Mutex
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	for sc.Scan() {
		var r Req
		if json.Unmarshal(sc.Bytes(), &r) != nil {
			continue
		}
		go func() {
			var v any
			if f := ops[r.Op]; f != nil {
				v = f(r.Args)
			}
			b, err := json.Marshal(v)
			if err != nil {
				b = []byte("null")
			}
			b, _ = json.Marshal(Rsp{r.Id, b})
			mu.Lock()
			_, _ = out.Write(append(b, '\n'))
			mu.Unlock()
		}()
	}
	os.Exit(0)
}
