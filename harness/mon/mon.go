// Package mon is the runtime monitor shared by all the drivers: it counts the
// events a run observed, turns oracle failures, panics and calls which do not
// return into recorded violations with their witness, and writes the result
// for check.py.
package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	_ "time/tzdata" // for Main
)

// Violation is one refutation of the property, with its witness.
type Violation struct {
	Class  string `json:"class"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
}

// Known is an observed known finding.
type Known struct {
	ID   string `json:"id"`
	What string `json:"what"`
}

type result struct {
	Property    string           `json:"property"`
	Seed        uint64           `json:"seed"`
	Tier        string           `json:"tier"`
	Rule        string           `json:"rule"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct_nontrivial"`
	Events      map[string]int64 `json:"events"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Known       []Known          `json:"known"`
	Missing     []string         `json:"missing"`
	Done        bool             `json:"done"`
}

type sink struct {
	mu         sync.Mutex
	violations []Violation
	known      map[string]Known
	samples    map[string][]string
	events     map[string]int64
	evals      int64
	distinct   *set
	required   map[string]int64
	shards     []*M
	finished   bool
}

type current struct {
	kind  string
	parts []any
	n     uint64
}

// M monitors one stream of events: one goroutine of a run.
type M struct {
	Prop     string
	Tier     string
	Seed     uint64
	Thorough bool
	*rand.Rand

	rule   string
	s      *sink
	cur    atomic.Pointer[current]
	n      uint64
	evals  int64
	events map[string]int64
	set    *set
	seen   map[string]int
	marked bool
	args   []arg
	first  int // of the current case
}

// arg is an argument handed to the code under test, within a larger buffer.
type arg struct {
	buf, keep []byte
}

const maxViolations = 12

func (m *M) child(label uint64) *M {
	c := &M{Prop: m.Prop, Tier: m.Tier, Seed: m.Seed, Thorough: m.Thorough, rule: m.rule, s: m.s}
	c.Rand = rand.New(rand.NewPCG(m.Seed*0x9E3779B97F4A7C15+1, label*0xD1342543DE82EF95+7))
	c.events = map[string]int64{}
	c.set = newSet()
	c.seen = map[string]int{}
	m.s.mu.Lock()
	m.s.shards = append(m.s.shards, c)
	m.s.mu.Unlock()
	return c
}

// Main runs the workload of a property. VERIF_SEED and VERIF_TIER select it.
func Main(prop, rule string, f func(m *M)) {
	// what the code does depends on no setting of the machine
	if loc, err := time.LoadLocation("America/St_Johns"); err == nil {
		time.Local = loc
	} else {
		panic(err)
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	root := &M{Prop: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough", rule: rule}
	root.s = &sink{known: map[string]Known{}, samples: map[string][]string{}, events: map[string]int64{}, required: map[string]int64{}, distinct: newSet()}
	m := root.child(0)
	go watch(root)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				// outside any monitored call: an error of the driver, unless
				// the stack runs through the code under test
				st := string(debug.Stack())
				if strings.Contains(st, "github.com/ndau/ndaumath/") {
					m.record("panic", m.describe(), fmt.Sprint(r)+"\n"+st)
					return
				}
				fmt.Fprintf(os.Stderr, "driver error: %v\n%s\n", r, st)
				os.Exit(4)
			}
		}()
		f(m)
	}()
	finish(root, true)
}

type stop struct{}

func finish(m *M, done bool) {
	s := m.s
	s.mu.Lock()
	if s.finished {
		s.mu.Unlock()
		select {}
	}
	s.finished = true
	r := result{Property: m.Prop, Seed: m.Seed, Tier: m.Tier, Rule: m.rule, Done: done, Violations: s.violations}
	if done {
		for _, c := range s.shards {
			c.flush()
		}
		r.Evaluations, r.Distinct, r.Events = s.evals, int64(s.distinct.n), s.events
		var kinds []string
		for k := range s.samples {
			kinds = append(kinds, k)
		}
		sort.Strings(kinds)
		for _, k := range kinds {
			r.Samples = append(r.Samples, s.samples[k]...)
		}
		for k, n := range s.required {
			if s.events[k] < n {
				r.Missing = append(r.Missing, fmt.Sprintf("%s: observed %d, need %d", k, s.events[k], n))
			}
		}
	}
	for _, k := range s.known {
		r.Known = append(r.Known, k)
	}
	sort.Slice(r.Known, func(i, j int) bool { return r.Known[i].ID < r.Known[j].ID })
	b, _ := json.MarshalIndent(r, "", " ")
	if out := os.Getenv("MON_OUT"); out != "" {
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	} else {
		os.Stdout.Write(append(b, '\n'))
	}
	os.Exit(0)
}

// flush merges the counts of c; the sink's lock is held.
func (c *M) flush() {
	s := c.s
	s.evals += c.evals
	c.evals = 0
	for k, v := range c.events {
		s.events[k] += v
	}
	c.events = map[string]int64{}
	for _, h := range c.set.t {
		if h != 0 {
			s.distinct.add(h)
		}
	}
	c.set = newSet()
}

// watch reports calls which do not return: one case which has been running for
// a long time, during which this process used much CPU time.
func watch(root *M) {
	type st struct {
		n   uint64
		at  time.Time
		cpu time.Duration
	}
	last := map[*M]st{}
	for {
		time.Sleep(2 * time.Second)
		var ru syscall.Rusage
		syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
		cpu := time.Duration(ru.Utime.Nano())
		root.s.mu.Lock()
		shards := append([]*M{}, root.s.shards...)
		root.s.mu.Unlock()
		for _, c := range shards {
			p := c.cur.Load()
			if p == nil {
				delete(last, c)
				continue
			}
			l, ok := last[c]
			if !ok || l.n != p.n {
				last[c] = st{p.n, time.Now(), cpu}
				continue
			}
			if time.Since(l.at) > 60*time.Second && cpu-l.cpu > 30*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				root.s.mu.Lock()
				root.s.violations = append(root.s.violations, Violation{"no return", describe(p), "the call did not return within 60 s and 30 s of CPU time\n" + string(buf)})
				root.s.mu.Unlock()
				finish(root, false)
			}
		}
	}
}

func describe(p *current) string {
	if p == nil {
		return "(between cases)"
	}
	var b strings.Builder
	b.WriteString(p.kind)
	for _, x := range p.parts {
		b.WriteByte(' ')
		switch v := x.(type) {
		case []byte:
			fmt.Fprintf(&b, "0x%x", v)
		case string:
			fmt.Fprintf(&b, "%q", v)
		case func() string:
			b.WriteString(v())
		default:
			fmt.Fprintf(&b, "%v", x)
		}
	}
	return b.String()
}

func (m *M) describe() string { return describe(m.cur.Load()) }

func (m *M) record(class, cs, detail string) {
	if class == "panic" && libraryLength(detail) {
		m.KnownFinding("msgp-length-32bit", "where int has 32 bits, the MessagePack library panics when a length is 2^31 or more: %.200s", cs)
		return
	}
	m.s.mu.Lock()
	m.s.violations = append(m.s.violations, Violation{class, cs, detail})
	n := len(m.s.violations)
	m.s.mu.Unlock()
	if n >= maxViolations {
		finish(m, false)
	}
}

// libraryLength tells the known finding apart: on a platform whose int has 32
// bits, the MessagePack library reads a length of 2^31 or more as a negative
// number and slices with it.
func libraryLength(detail string) bool {
	if strconv.IntSize != 32 || !strings.Contains(detail, "slice bounds out of range [:-") {
		return false
	}
	_, st, ok := strings.Cut(detail, "\npanic(")
	if !ok {
		return false
	}
	for _, l := range strings.Split(st, "\n")[2:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") {
			continue
		}
		return strings.HasPrefix(l, "github.com/tinylib/msgp/msgp.ReadStringZC(") || strings.HasPrefix(l, "github.com/tinylib/msgp/msgp.readBytesBytes(")
	}
	return false
}

// Failf records a violation of the property by the current case.
func (m *M) Failf(class, format string, args ...any) {
	m.record(class, m.describe(), fmt.Sprintf(format, args...))
}

// Check records a violation unless ok.
func (m *M) Check(ok bool, class, format string, args ...any) bool {
	if !ok {
		m.Failf(class, format, args...)
	}
	return ok
}

// Known records that a known finding was observed.
func (m *M) KnownFinding(id, format string, args ...any) {
	m.s.mu.Lock()
	defer m.s.mu.Unlock()
	if _, ok := m.s.known[id]; !ok {
		m.s.known[id] = Known{id, fmt.Sprintf(format, args...)}
	}
	m.events["known finding "+id]++
}

// Do runs one case under the monitor: a panic in it is a violation, and the
// parts are the witness. It reports whether f returned normally.
func (m *M) Do(kind string, f func(), parts ...any) (ok bool) {
	m.n++
	c := &current{kind, parts, m.n}
	prev := m.cur.Load()
	m.cur.Store(c)
	m.evals++
	m.events[kind]++
	outer, first := m.marked, m.first
	m.marked, m.first = false, len(m.args)
	defer func() {
		m.checkArgs(m.first)
		m.first = first
		if r := recover(); r != nil {
			if _, isStop := r.(stop); isStop {
				panic(r)
			}
			m.record("panic", describe(c), fmt.Sprint(r)+"\n"+string(debug.Stack()))
		}
		m.marked = outer
		m.cur.Store(prev)
	}()
	f()
	return true
}

// Arg is a copy of b to be handed to the code under test, with other data of
// the caller right before and behind it, behind it also within its capacity.
// When the case ends, all of it must be as it was.
func (m *M) Arg(b []byte) []byte {
	if b == nil {
		return nil
	}
	m.n++
	x := m.n * 0x9E3779B97F4A7C15
	const margin = 24
	a := arg{make([]byte, len(b)+2*margin), make([]byte, len(b)+2*margin)}
	for i := 0; i < margin; i++ {
		a.buf[i] = byte(x >> (i % 8 * 8))
		a.buf[margin+len(b)+i] = ^a.buf[i]
	}
	copy(a.buf[margin:], b)
	copy(a.keep, a.buf)
	m.args = append(m.args, a)
	m.events["arguments kept"]++
	return a.buf[margin : margin+len(b)]
}

// Reclaim checks the arguments of the case so far, and then uses their memory
// for other things, as a caller may once a call has returned.
func (m *M) Reclaim() {
	args := append([]arg{}, m.args[m.first:]...)
	m.checkArgs(m.first)
	for _, a := range args {
		for i := range a.buf {
			a.buf[i] ^= 0xee
		}
	}
}

// checkArgs checks the arguments from the n-th, and forgets them.
func (m *M) checkArgs(n int) {
	for _, a := range m.args[n:] {
		if !bytes.Equal(a.buf, a.keep) {
			i := 0
			for a.buf[i] == a.keep[i] {
				i++
			}
			m.Failf("argument changed", "at %d of %d: from %.200x to %.200x, with 24 bytes before and behind", i-24, len(a.buf)-48, a.keep, a.buf)
			break
		}
	}
	clear(m.args[n:])
	m.args = m.args[:n]
}

// Try runs f, reporting a panic as a violation of the current case.
func (m *M) Try(what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			m.record("panic", m.describe(), what+": "+fmt.Sprint(r)+"\n"+string(debug.Stack()))
		}
	}()
	f()
	return true
}

// NonTrivial marks the current case as one which reached the behaviour the
// property is about, and keeps the first of a kind as samples.
func (m *M) NonTrivial() {
	c := m.cur.Load()
	if c == nil || m.marked {
		return
	}
	m.marked = true
	m.set.add(hash(c.kind, c.parts))
	if m.seen[c.kind] < 1 {
		m.seen[c.kind]++
		m.s.mu.Lock()
		if len(m.s.samples[c.kind]) < 2 {
			s := describe(c)
			if len(s) > 400 {
				s = s[:400] + "..."
			}
			m.s.samples[c.kind] = append(m.s.samples[c.kind], s)
		}
		m.s.mu.Unlock()
	}
}

// Event counts an observation.
func (m *M) Event(name string) { m.events[name]++ }

// Require makes the run inconclusive unless the event was observed n times.
func (m *M) Require(name string, n int64) {
	m.s.mu.Lock()
	m.s.required[name] = n / int64(divisor) / int64(divisor)
	m.s.mu.Unlock()
}

// N is the number of cases of a workload in this tier.
func (m *M) N(quick, thorough int) int {
	n := quick
	if m.Thorough {
		n = thorough
	}
	if n > 1 && divisor > 1 {
		n = max(1, n/divisor)
	}
	return n
}

// Further reports whether this is a further run, with less work than the first.
func (m *M) Further() bool { return divisor > 1 }

// divisor reduces the workload of a further run of the driver, built for another platform.
var divisor = func() int {
	n, _ := strconv.Atoi(os.Getenv("MON_DIV"))
	return max(1, n)
}()

// Par runs shards of a workload on all processors; each is a deterministic
// sequence of its own.
func (m *M) Par(label string, shards int, f func(s *M, shard int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.GOMAXPROCS(0))
	lh := uint64(1469598103934665603)
	for _, c := range []byte(label) {
		lh = (lh ^ uint64(c)) * 1099511628211
	}
	for i := 0; i < shards; i++ {
		c := m.child(lh + uint64(i)*2654435761)
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					if !strings.Contains(st, "github.com/ndau/ndaumath/") {
						fmt.Fprintf(os.Stderr, "driver error: %v\n%s\n", r, st)
						os.Exit(4)
					}
					c.record("panic", c.describe(), fmt.Sprint(r)+"\n"+st)
				}
				m.s.mu.Lock()
				c.flush()
				m.s.mu.Unlock()
				<-sem
				wg.Done()
			}()
			f(c, i)
		}()
	}
	wg.Wait()
}

func hash(kind string, parts []any) uint64 {
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		h = (h ^ 0x1fe) * 1099511628211
	}
	add(kind)
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			add(string(v))
		case string:
			add(v)
		case func() string:
			add(v())
		case int64:
			h = (h ^ uint64(v)) * 0x9E3779B97F4A7C15
			h ^= h >> 29
		case uint64:
			h = (h ^ v) * 0x9E3779B97F4A7C15
			h ^= h >> 29
		default:
			add(fmt.Sprint(p))
		}
	}
	h ^= h >> 32
	h *= 0xD6E8FEB86659FD93
	h ^= h >> 32
	if h == 0 {
		h = 1
	}
	return h
}

// set is a set of non-zero hashes.
type set struct {
	t []uint64
	n int
}

func newSet() *set { return &set{t: make([]uint64, 64)} }

func (s *set) add(h uint64) {
	if s.n*2 >= len(s.t) {
		old := s.t
		s.t = make([]uint64, 2*len(old))
		s.n = 0
		for _, x := range old {
			if x != 0 {
				s.add(x)
			}
		}
	}
	for i := h & uint64(len(s.t)-1); ; i = (i + 1) & uint64(len(s.t)-1) {
		if s.t[i] == h {
			return
		}
		if s.t[i] == 0 {
			s.t[i] = h
			s.n++
			return
		}
	}
}
