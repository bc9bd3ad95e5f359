// Package main runs the real code of emberlib against independent oracles, one property per run. It finds the failing
// input when a proof obligation fails and it is the bounded supplement of the proofs. It uses the exported API only.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type H struct {
	prop     string
	rng      *rand.Rand
	thorough bool
	evals    int
	distinct map[uint64]bool
	samples  []string
	fails    map[string]bool
	nfail    int
	rule     string
	deadline time.Time
	cur      atomic.Value
	curStart atomic.Int64
	mu       sync.Mutex
	// set when a run that crashed is repeated to find the case
	traceFile string
}

// desc is evaluated lazily
type caseT struct{ d func() string }

func (h *H) failf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	h.mu.Lock()
	defer h.mu.Unlock()
	key := s
	if i := strings.Index(s, ":"); i > 0 {
		key = s[:i]
	}
	h.nfail++
	if h.fails[key] || len(h.fails) > 6 {
		return
	}
	h.fails[key] = true
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Println("VERIF-FAIL " + strings.ReplaceAll(s, "\n", " "))
}

func (h *H) stop() bool { return h.nfail > 30 || time.Now().After(h.deadline) }

// run executes one case under a panic guard and the watchdog; key identifies the case for the distinct count.
func (h *H) run(desc func() string, f func()) {
	h.evals++
	h.cur.Store(caseT{desc})
	if h.traceFile != "" {
		os.WriteFile(h.traceFile, []byte(desc()), 0644)
	}
	h.curStart.Store(time.Now().UnixNano())
	defer func() {
		h.curStart.Store(0)
		if r := recover(); r != nil {
			st := string(debug.Stack())
			h.failf("panic %v: on %s -- %s", r, desc(), trace(st))
		}
		if h.evals < 4 || (h.evals&1023 == 0 && len(h.samples) < 8) {
			s := desc()
			if len(s) > 160 {
				s = s[:160]
			}
			h.samples = append(h.samples, s)
		}
		if len(h.distinct) < 200000 {
			x := fnv.New64a()
			x.Write([]byte(desc()))
			h.distinct[x.Sum64()] = true
		}
	}()
	f()
}

func trace(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/vreplay") && !strings.Contains(l, "runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " < ")
}

func hx(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d octets)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

var props = map[string]func(*H){}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vreplay PROP")
		os.Exit(2)
	}
	debug.SetMemoryLimit(6 << 30)
	debug.SetMaxStack(256 << 20)
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	h := &H{prop: os.Args[1], rng: rand.New(rand.NewSource(seed)), thorough: os.Getenv("VERIF_TIER") == "thorough",
		distinct: map[uint64]bool{}, fails: map[string]bool{}}
	h.traceFile = os.Getenv("VREPLAY_TRACE")
	budget := 40 * time.Second
	if h.thorough {
		budget = 400 * time.Second
	}
	h.deadline = time.Now().Add(budget)
	f := props[h.prop]
	if f == nil {
		fmt.Println("VERIF-STATS {\"evaluations\":0}")
		return
	}
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			st := h.curStart.Load()
			if st != 0 && time.Since(time.Unix(0, st)) > 20*time.Second {
				d := h.cur.Load().(caseT).d()
				h.failf("no termination within 20 s: %s", d)
				h.stats()
				os.Exit(1)
			}
			if st != 0 && time.Since(time.Unix(0, st)) > 400*time.Millisecond {
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				if m.HeapAlloc > 3<<30 && h.curStart.Load() == st {
					h.failf("memory grows without bound: %s", h.cur.Load().(caseT).d())
					h.stats()
					os.Exit(1)
				}
			}
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				h.failf("panic %v: outside a case -- %s", r, trace(string(debug.Stack())))
			}
		}()
		f(h)
	}()
	h.stats()
	if h.nfail > 0 {
		os.Exit(1)
	}
}

func (h *H) stats() {
	m := map[string]interface{}{"evaluations": h.evals, "distinct_nontrivial": len(h.distinct), "rule": h.rule, "samples": h.samples, "failures": h.nfail}
	b, _ := json.Marshal(m)
	fmt.Println("VERIF-STATS " + string(b))
}

// n is the number of repetitions of a random part.
func (h *H) n(quick int) int {
	if h.thorough {
		return quick * 12
	}
	return quick
}
