package lib

import (
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Race is one report of the race detector.
type Race struct {
	Sig   string // the two functions of the system under test that collide
	Text  string
	Sut   bool // code of the system under test takes part
	Canry bool // the deliberate race of the harness
}

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n\s+(\S+):\d+`)

// Races reads the reports a process wrote with GORACE=log_path=<dir>/race.
func Races(dir string) (l []Race, n int) {
	fs, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, t := range strings.Split(string(b), "==================") {
			if !strings.Contains(t, "WARNING: DATA RACE") {
				continue
			}
			n++
			// the stacks of the two accesses, not those of the goroutines' creation
			acc := t
			if i := strings.Index(acc, "\nGoroutine "); i >= 0 {
				acc = acc[:i]
			}
			var sig []string
			r := Race{Text: t}
			for _, st := range strings.Split(acc, "\n\n") {
				name := ""
				for _, m := range raceFrame.FindAllStringSubmatch(st, -1) {
					if strings.Contains(m[1], "github.com/hrygo/gosms/") {
						name = m[1]
						r.Sut = true
						break
					}
				}
				if strings.Contains(st, "main.control") || strings.Contains(st, "main.canary") {
					r.Canry = true
				}
				if name != "" {
					sig = append(sig, strings.TrimPrefix(name, "github.com/hrygo/gosms/"))
				}
			}
			sort.Strings(sig)
			r.Sig = strings.Join(sig, " / ")
			if r.Canry {
				r.Sut, r.Sig = false, "canary"
			}
			if !seen[r.Sig] {
				seen[r.Sig] = true
				l = append(l, r)
			}
		}
	}
	return
}
