// C42: registration of algorithms never changes what existing ids mean.
package main

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"verif/harness/gen"
	"verif/harness/mon"
)

const rule = "histories of registrations, each in a process of its own, of algorithms of every kind of type (structures with and without parameters, numbers, texts, slices, maps, functions, generic ones, wrappers of built-in ones, a hundred and fifty for the hundred and twenty-eight ids, methods on values and on pointers; as values and pointers), with reserved ids, ids in use, second ids, repeated, built-in, anonymous and missing algorithms; " +
	"after every step the keys and signatures written before it are decoded, verified and written again, and every id is tried; non-trivial for a history with an accepted registration after a refused one; distinct by history"

type report struct {
	Trace      []string
	Violations [][2]string
	Events     map[string]int
}

func child(seed uint64, steps int) {
	r := gen.R{Rand: rand.New(rand.NewPCG(seed, 42))}
	h := &history{R: r, rep: report{Events: map[string]int{}}}
	if steps == 0 {
		h.fill()
	} else {
		h.run(steps)
	}
	b, _ := json.Marshal(h.rep)
	os.Stdout.Write(b)
	os.Exit(0)
}

func main() {
	if s := os.Getenv("C42_SEED"); s != "" {
		seed, _ := strconv.ParseUint(s, 10, 64)
		steps, _ := strconv.Atoi(os.Getenv("C42_STEPS"))
		child(seed, steps)
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	mon.Main("C42", rule, func(m *mon.M) {
		for _, e := range []string{"accepted", "refused reserved", "refused in use", "refused second id", "refused built-in", "refused anonymous", "refused nil", "repeated", "decoded again"} {
			m.Require(e, 20)
		}
		m.Require("every id taken", 10)
		m.Par("history", 16, func(m *mon.M, i int) {
			for j := 0; j < m.N(60, 400); j++ {
				seed := m.Rand.Uint64()
				steps := gen.Pick(gen.R{Rand: m.Rand}, 3, 8, 20, 40, 90)
				if j%30 == 0 {
					steps = 0
				}
				var rep report
				var trace string
				m.Do("history", func() {
					c := exec.Command(self)
					c.Env = append(os.Environ(), fmt.Sprintf("C42_SEED=%d", seed), fmt.Sprintf("C42_STEPS=%d", steps))
					var out, errs strings.Builder
					c.Stdout, c.Stderr = &out, &errs
					err := c.Run()
					if err != nil {
						m.Failf("crash", "%v: %s\n%s", err, out.String(), errs.String())
						return
					}
					if err := json.Unmarshal([]byte(out.String()), &rep); err != nil {
						m.Failf("crash", "no report: %v: %s", err, out.String())
						return
					}
					trace = strings.Join(rep.Trace, "; ")
					for e, n := range rep.Events {
						for ; n > 0; n-- {
							m.Event(e)
						}
					}
					for _, v := range rep.Violations {
						m.Failf(v[0], "%s", v[1])
					}
					if rep.Events["accepted after refused"] > 0 {
						m.NonTrivial()
					}
				}, fmt.Sprint(seed), fmt.Sprint(steps), func() string { return trace })
			}
		})
	})
}
