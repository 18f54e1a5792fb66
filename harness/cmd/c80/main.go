// C80: concurrent use of the library is race free and gives sequential results.
package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"

	"verif/harness/mon"
)

const rule = "fresh processes under the race detector in which goroutines released at once make the first calls of each kind (so that what is set up on first use is hit by all), then run all tasks (every package, own values and shared ones) in different orders and with yields; " +
	"all results compared with those of processes which run the tasks one after another, in several orders; non-trivial for a task which does not end in an error; distinct by task and result"

// a run of a child process
type plan struct {
	World   uint64
	Order   uint64
	Workers int
	First   int // the kind of the first calls
	N       int // tasks of a kind
	Rounds  int
}

type answer struct {
	Results []string
	Bad     []string // tasks whose results differ within the process
	Calls   int64
	Seeds   int
	SeedDup bool
	Kinds   []string
}

var seeds struct {
	sync.Mutex
	m   map[string]bool
	dup bool
}

// noteSeed takes a random seed made by the library: no two are the same.
func noteSeed(b []byte) {
	seeds.Lock()
	defer seeds.Unlock()
	if seeds.m == nil {
		seeds.m = map[string]bool{}
	}
	if seeds.m[string(b)] {
		seeds.dup = true
	}
	seeds.m[string(b)] = true
}

func safe(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	return f()
}

func child(p plan) answer {
	w := &world{}
	l := tasks(p.World, w, p.N)
	a := answer{Results: make([]string, len(l))}
	var kinds []string
	for _, t := range l {
		if len(kinds) == 0 || kinds[len(kinds)-1] != t.kind {
			kinds = append(kinds, t.kind)
		}
	}
	a.Kinds = kinds
	var mu sync.Mutex
	report := func(i int, s string) {
		mu.Lock()
		defer mu.Unlock()
		if a.Results[i] == "" {
			a.Results[i] = s
		} else if a.Results[i] != s && len(a.Bad) < 5 {
			a.Bad = append(a.Bad, fmt.Sprintf("%s: %.300q and %.300q", l[i].kind, a.Results[i], s))
		}
		a.Calls++
	}
	phase := func(cold bool) {
		var mine []int
		for i, t := range l {
			if t.cold || !cold {
				mine = append(mine, i)
			}
		}
		if p.Workers == 0 {
			r := rand.New(rand.NewPCG(p.Order, 1))
			switch p.Order {
			case 0:
			case 1:
				for i, j := 0, len(mine)-1; i < j; i, j = i+1, j-1 {
					mine[i], mine[j] = mine[j], mine[i]
				}
			default:
				r.Shuffle(len(mine), func(i, j int) { mine[i], mine[j] = mine[j], mine[i] })
			}
			for _, i := range mine {
				report(i, safe(l[i].f))
			}
			return
		}
		if cold {
			// all goroutines make the first calls of a kind at once
			for k := range kinds {
				kind := kinds[(p.First+k)%len(kinds)]
				var same []int
				for _, i := range mine {
					if l[i].kind == kind {
						same = append(same, i)
					}
				}
				together(p, l, same, 1, report)
			}
			return
		}
		together(p, l, mine, 2, report)
	}
	phase(true)
	*w = *newWorld(p.World)
	for i := 0; i < p.Rounds; i++ {
		phase(false)
	}
	a.Seeds, a.SeedDup = len(seeds.m), seeds.dup
	for i, s := range a.Results {
		if strings.HasPrefix(s, "panic: ") {
			a.Bad = append(a.Bad, l[i].kind+": "+s)
		}
	}
	return a
}

// together runs tasks on all goroutines, each in an order of its own, skipping
// some of the cold ones unless of is 1.
func together(p plan, l []task, mine []int, of int, report func(int, string)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < p.Workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(p.Order, uint64(g)+7))
			var order []int
			for _, i := range mine {
				if !l[i].cold || r.IntN(of) == 0 {
					order = append(order, i)
				}
			}
			r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
			results := make([]string, len(order))
			<-start
			for k, i := range order {
				// no lock between the calls: it would order them
				results[k] = safe(l[i].f)
				if r.IntN(8) == 0 {
					runtime.Gosched()
				}
			}
			for k, i := range order {
				report(i, results[k])
			}
		}()
	}
	close(start)
	wg.Wait()
}

func spawn(m *mon.M, name string, p plan) *answer {
	b, _ := json.Marshal(p)
	out := filepath.Join(os.Getenv("VERIF_TMP"), "c80-"+name)
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "C80_PLAN="+string(b), "C80_OUT="+out)
	if p.Workers > 0 && p.Order%3 == 0 {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
	} else {
		cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
	}
	log, err := cmd.CombinedOutput()
	if err != nil {
		text := string(log)
		switch {
		case strings.Contains(text, "WARNING: DATA RACE"):
			m.Failf("data race", "%s\n%.6000s", b, text)
		case strings.Contains(text, "fatal error: ") || strings.Contains(text, "panic: "):
			m.Failf("crash", "%s\n%.6000s", b, text)
		default:
			fmt.Fprintf(os.Stderr, "child: %v\n%s\n", err, text)
			os.Exit(4)
		}
		return nil
	}
	d, err := os.ReadFile(out)
	a := &answer{}
	if err == nil {
		err = json.Unmarshal(d, a)
	}
	if err != nil {
		fmt.Fprintf(os.Stderr, "child: %v\n%s\n", err, log)
		os.Exit(4)
	}
	os.Remove(out)
	return a
}

func main() {
	if s := os.Getenv("C80_PLAN"); s != "" {
		var p plan
		if err := json.Unmarshal([]byte(s), &p); err != nil {
			panic(err)
		}
		b, _ := json.Marshal(child(p))
		if err := os.WriteFile(os.Getenv("C80_OUT"), b, 0o600); err != nil {
			panic(err)
		}
		return
	}
	mon.Main("C80", rule, func(m *mon.M) {
		m.Require("concurrent call", 5000)
		m.Require("comparison", 3000)
		n := m.N(3, 8)
		worlds := m.N(2, 12)
		each := m.N(12, 100)
		base := make([]*answer, worlds)
		m.Par("sequential", worlds, func(m *mon.M, i int) {
			for order := uint64(0); order < 4; order++ {
				p := plan{World: m.Seed<<8 + uint64(i), Order: order, N: n, Rounds: 1}
				m.Do("sequential", func() {
					a := spawn(m, fmt.Sprint("s", i, "-", order), p)
					compare(m, base[i], a)
					if base[i] == nil {
						base[i] = a
					}
				}, i, order)
			}
		})
		m.Par("concurrent", worlds*each, func(m *mon.M, k int) {
			i := k % worlds
			p := plan{World: m.Seed<<8 + uint64(i), Order: uint64(k) + m.Seed*1000, Workers: 4 + k%5, First: k / worlds, N: n, Rounds: 1}
			m.Do("concurrent", func() {
				a := spawn(m, fmt.Sprint("c", k), p)
				compare(m, base[i], a)
				if a != nil {
					for j := int64(0); j < a.Calls; j++ {
						m.Event("concurrent call")
					}
					m.Do("seeds", func() { m.Check(!a.SeedDup, "seed", "the same random seed twice") }, k, a.Seeds)
				}
			}, k)
		})
	})
}

// compare compares the results of a process with those of the first.
func compare(m *mon.M, base, a *answer) {
	if a == nil {
		return
	}
	m.Check(len(a.Bad) == 0, "results differ", "%s", strings.Join(a.Bad, "\n"))
	if base == nil {
		base = a
	}
	n := len(a.Results) / len(a.Kinds)
	for i, s := range a.Results {
		m.Do("comparison", func() {
			m.Check(s != "", "no result", "task %d", i)
			if s != "error" {
				m.NonTrivial()
			}
			if base.Results[i] != s {
				m.Failf("results differ", "%s: alone %.500q, here %.500q", a.Kinds[i/n], base.Results[i], s)
			}
		}, a.Kinds[i/n], i, fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:8])
	}
}
