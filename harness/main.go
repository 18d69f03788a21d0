// Command harness searches for a concrete input on which the exported API of
// /repo breaks a stated property.  It is the replay half of every check: the
// deciding half is the contract verifier (govc).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// T is the context of one case.
type T struct {
	*Gen
	desc    string // what is being called, for replay
	nontriv bool
	calls   int64
	journal string
}

type failure struct{ msg string }

func (t *T) fail(format string, args ...interface{}) {
	panic(failure{fmt.Sprintf(format, args...)})
}

func (t *T) call(format string, args ...interface{}) {
	t.desc = fmt.Sprintf(format, args...)
	t.calls++
	atomic.StoreInt64(&t.Gen.started, time.Now().UnixNano())
	if t.journal != "" {
		_ = os.WriteFile(t.journal, []byte(t.desc+"\n"), 0644)
	}
}

type Result struct {
	Property    string   `json:"property"`
	Seed        int64    `json:"seed"`
	Evaluations int64    `json:"evaluations"`
	Calls       int64    `json:"calls"`
	Distinct    int      `json:"distinct_nontrivial"`
	Samples     []string `json:"samples"`
	Violation   string   `json:"violation,omitempty"`
	Wall        float64  `json:"wall_s"`
}

var props = map[string]func(t *T){}

func main() {
	prop := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 10, "seconds")
	workers := flag.Int("workers", 6, "workers")
	src := flag.String("src", "/repo", "source to take constants from")
	out := flag.String("out", "", "result file")
	journal := flag.String("journal", "", "write each call here first")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var l []string
		for k := range props {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(l)
		return
	}
	f := props[*prop]
	if f == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(3)
	}
	debug.SetMaxStack(256 << 20)
	dict, sizes := mine(*src)
	start := time.Now()
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))
	var mu sync.Mutex
	res := Result{Property: *prop, Seed: *seed}
	seen := map[uint64]bool{}
	var done int32
	finish := func() {
		mu.Lock()
		res.Distinct = len(seen)
		res.Wall = time.Since(start).Seconds()
		b, _ := json.MarshalIndent(res, "", " ")
		mu.Unlock()
		if *out != "" {
			_ = os.WriteFile(*out, b, 0644)
		}
		fmt.Println(string(b))
		if res.Violation != "" {
			os.Exit(1)
		}
		os.Exit(0)
	}
	report := func(msg string) {
		mu.Lock()
		if res.Violation == "" {
			res.Violation = msg
		}
		mu.Unlock()
		atomic.StoreInt32(&done, 1)
	}
	if *journal != "" {
		*workers = 1
	}
	ts := make([]*T, *workers)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		t := &T{Gen: &Gen{Rand: rand.New(rand.NewSource(*seed*1000003 + int64(w))), dict: dict, sizes: sizes}, journal: *journal}
		ts[w] = t
		wg.Add(1)
		go func(w int, t *T) {
			defer wg.Done()
			for n := 0; atomic.LoadInt32(&done) == 0 && time.Now().Before(deadline); n++ {
				t.noDup = n%4 != 0
				t.nontriv = false
				t.desc = ""
				atomic.StoreInt64(&t.Gen.started, time.Now().UnixNano())
				msg := runCase(f, t)
				atomic.StoreInt64(&t.Gen.started, 0)
				h := fnv.New64a()
				h.Write([]byte(t.desc))
				mu.Lock()
				res.Evaluations++
				if t.nontriv && len(seen) < 2000000 {
					seen[h.Sum64()] = true
				}
				if t.nontriv && len(res.Samples) < 3 && len(t.desc) > 30 && len(t.desc) < 400 {
					res.Samples = append(res.Samples, t.desc)
				}
				mu.Unlock()
				if msg != "" {
					report(msg)
					return
				}
			}
			mu.Lock()
			res.Calls += t.calls
			mu.Unlock()
		}(w, t)
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	tick := time.NewTicker(200 * time.Millisecond)
	for {
		select {
		case <-fin:
			finish()
		case <-tick.C:
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for _, t := range ts {
				s := atomic.LoadInt64(&t.Gen.started)
				if s == 0 {
					continue
				}
				age := time.Since(time.Unix(0, s))
				if age > 20*time.Second || age > 2*time.Second && ms.HeapAlloc > 4<<30 {
					report("does not return: " + t.desc)
					finish()
				}
			}
		}
	}
}

func runCase(f func(t *T), t *T) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				msg = t.desc + "\n  " + fl.msg
				return
			}
			msg = fmt.Sprintf("%s\n  panic: %v\n%s", t.desc, r, debug.Stack())
		}
	}()
	f(t)
	return ""
}
