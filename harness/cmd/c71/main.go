// C71: the JavaScript API equals the string API and survives every call.
package main

import (
	"context"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/ndau/ndaumath/pkg/keyaddr"

	"verif/harness/gen"
	"verif/harness/hd"
	"verif/harness/mon"
	"verif/harness/ref"
	"verif/harness/sk"
)

const rule = "sessions of calls of the module built for WebAssembly, run by node: every function with valid, invalid and wrongly typed arguments (all JavaScript types), missing, extra and misplaced arguments, no callback, alone, in batches and from within callbacks, at all log levels and with either error handler, each followed by valid calls; " +
	"non-trivial for a call which calls back with a value; distinct by function and arguments"

//go:embed host.js
var host string

var b64 = base64.StdEncoding

// arg is an argument of a call: t is its type.
type arg struct {
	T string `json:"t"`
	V string `json:"v"`
}

func (a arg) String() string {
	v := a.V
	if len(v) > 300 {
		v = v[:300] + fmt.Sprintf("…(%d)", len(a.V))
	}
	return a.T + ":" + strconv.Quote(v)
}

func str(s string) arg { return arg{"s", s} }
func num(s any) arg    { return arg{"n", fmt.Sprint(s)} }

type call struct {
	Fn     string `json:"fn"`
	Args   []arg  `json:"args"`
	Batch  int    `json:"batch,omitempty"`
	Nested bool   `json:"nested,omitempty"`
	Silent bool   `json:"silent,omitempty"`
	Self   bool   `json:"self,omitempty"`

	// want is "value", "error", "handler", "either" (an error or one of the
	// values) or "any"
	want string
	vals []string // as JSON
}

func (c *call) String() string { return fmt.Sprint(c.Fn, c.Args) }

type session struct {
	Handler string  `json:"handler,omitempty"`
	Level   *string `json:"level,omitempty"`
	Exit    bool    `json:"exit"`
	Calls   []*call `json:"calls"`
}

type result struct {
	Calls   int    `json:"calls"`
	Inner   int    `json:"inner"`
	Handler int    `json:"handler"`
	N       int    `json:"n"`
	Err     arg    `json:"err"`
	Val     arg    `json:"val"`
	Threw   string `json:"threw"`
	Ret     string `json:"ret"`
}

type output struct {
	Results   []*result `json:"results"`
	Exited    bool      `json:"exited"`
	Stopped   bool      `json:"stopped"`
	ExitedAt  int       `json:"exitedAt"`
	Sentinel  string    `json:"sentinel"`
	Names     []string  `json:"names"`
	Unhandled []string  `json:"unhandled"`
	Lines     []string  `json:"lines"`
	Exit      *struct {
		result
		Before bool `json:"before"`
		After  bool `json:"after"`
	} `json:"exit"`
}

var arity = map[string]int{"newKey": 1, "wordsToBytes": 2, "deriveFrom": 3, "ndauAddress": 1, "toPublic": 1, "child": 2, "sign": 2, "hardenedChild": 2,
	"wordsFromPrefix": 3, "isPrivate": 1, "wordsFromBytes": 2, "fromString": 1, "exit": 0}

var names = []string{"child", "deriveFrom", "fromString", "hardenedChild", "isPrivate", "ndauAddress", "newKey", "sign", "toPublic", "wordsFromBytes", "wordsFromPrefix", "wordsToBytes"}

// number reads an argument as the number of a child.
func number(a arg) (n int32, free, ok bool) {
	if a.T != "n" {
		return 0, false, false
	}
	f := parse(a.V)
	switch {
	case math.IsNaN(f) || f >= 1<<31 || f <= -1<<31-1:
		return 0, false, false
	case f != math.Trunc(f):
		return int32(f), true, true
	}
	return int32(f), false, true
}

func parse(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) {
		panic(err)
	}
	return f
}

func text(k *keyaddr.Key, err error) (string, bool) {
	if err != nil {
		return "", false
	}
	b, _ := json.Marshal(k.Key)
	return string(b), true
}

// judge says what a call has to call back, by the string API.
func (c *call) judge() {
	n, known := arity[c.Fn]
	if !known {
		panic(c.Fn)
	}
	if len(c.Args) == 0 || c.Args[len(c.Args)-1].T != "cb" {
		c.want = "handler"
		if len(c.Args) > 0 && c.Args[len(c.Args)-1].T == "f" {
			panic("last argument")
		}
		return
	}
	a := c.Args[:len(c.Args)-1]
	if len(a) != n {
		c.want = "error"
		return
	}
	c.want = "error"
	// wrong types are errors, and lone surrogates are no text
	boxed := false
	for i, x := range a {
		numeric := (c.Fn == "child" || c.Fn == "hardenedChild") && i == 1 || c.Fn == "wordsFromPrefix" && i == 2
		switch {
		case x.T == "str" || x.T == "num" || x.T == "sur":
			boxed = true
		case numeric && x.T != "n":
			return
		case !numeric && x.T == "u" && c.Fn == "wordsToBytes" && i == 0:
		case !numeric && x.T != "s":
			if c.Fn == "wordsFromPrefix" {
				c.want = "either"
				c.vals = []string{`""`}
			}
			return
		}
	}
	if boxed {
		// the text of the object, or an error
		c.want = "any"
		if c.Fn != "wordsFromPrefix" && c.Fn != "wordsToBytes" && c.Fn != "wordsFromBytes" {
			for _, x := range a {
				if x.T == "sur" {
					c.want = "error"
				}
			}
		}
		return
	}
	s := func(i int) string { return a[i].V }
	var v string
	ok := false
	free := false
	switch c.Fn {
	case "newKey":
		v, ok = text(keyaddr.NewKey(s(0)))
	case "wordsToBytes":
		lang := s(0)
		if a[0].T == "u" {
			lang = "en"
		}
		w, err := keyaddr.WordsToBytes(lang, s(1))
		b, _ := json.Marshal(w)
		v, ok = string(b), err == nil
	case "deriveFrom":
		v, ok = text(keyaddr.DeriveFrom(s(0), s(1), s(2)))
	case "ndauAddress":
		x, err := (&keyaddr.Key{Key: s(0)}).NdauAddress()
		if ok = err == nil; ok {
			b, _ := json.Marshal(x.Address)
			v = string(b)
		}
	case "toPublic":
		v, ok = text((&keyaddr.Key{Key: s(0)}).ToPublic())
	case "child", "hardenedChild":
		var n int32
		n, free, ok = number(a[1])
		if !ok || n < 0 {
			ok = false
			break
		}
		k := &keyaddr.Key{Key: s(0)}
		if c.Fn == "child" {
			v, ok = text(k.Child(n))
		} else {
			v, ok = text(k.HardenedChild(n))
		}
	case "sign":
		x, err := (&keyaddr.Key{Key: s(0)}).Sign(s(1))
		if ok = err == nil; ok {
			b, _ := json.Marshal(x.Signature)
			v = string(b)
		}
	case "wordsFromPrefix":
		f := parse(s(2))
		max := 0
		switch {
		case math.IsNaN(f):
			c.want = "any"
			return
		case f >= 1<<40:
			max, free = 1<<40, f >= 1<<62
		case f <= -1<<40:
			max, free = -1<<40, f <= -1<<62
		default:
			max, free = int(f), f != math.Trunc(f)
		}
		b, _ := json.Marshal(keyaddr.WordsFromPrefix(s(0), s(1), max))
		v, ok = string(b), true
	case "isPrivate":
		p, err := (&keyaddr.Key{Key: s(0)}).IsPrivate()
		v, ok = fmt.Sprint(p), err == nil
	case "wordsFromBytes":
		w, err := keyaddr.WordsFromBytes(s(0), s(1))
		b, _ := json.Marshal(w)
		v, ok = string(b), err == nil
	case "fromString":
		k, err := keyaddr.FromString(s(0))
		if ok = err == nil; ok {
			b, _ := json.Marshal(map[string]string{"key": k.Key})
			v = string(b)
		}
	}
	switch {
	case ok && free:
		c.want, c.vals = "either", []string{v}
	case ok:
		c.want, c.vals = "value", []string{v}
	}
}

// asJSON is the JSON of a value called back.
func asJSON(a arg) string {
	switch a.T {
	case "s":
		b, _ := json.Marshal(a.V)
		return string(b)
	case "o":
		var v any
		if json.Unmarshal([]byte(a.V), &v) != nil {
			return "?" + a.V
		}
		b, _ := json.Marshal(v)
		return string(b)
	case "b", "n":
		return a.V
	}
	return a.T
}

// truth of what comes as an error
func isError(a arg) bool {
	return a.T != "u" && a.T != "null" && !(a.T == "s" && a.V == "") && a.T != "b"
}
func isNone(a arg) bool { return a.T == "u" || a.T == "null" || a.T == "" }

func check(m *mon.M, c *call, r *result, handler string) {
	if r == nil {
		m.Failf("call not made", "the module had stopped")
		return
	}
	if !m.Check(r.Threw == "", "throws", "%s", r.Threw) {
		return
	}
	m.Check(r.Ret == "", "returns", "%s", r.Ret)
	m.Check(r.Inner == 0, "wrong callback", "a function which is not the last argument is called")
	if c.want == "handler" {
		m.Event("no callback")
		m.Check(r.Calls == 0, "callback", "%d", r.Calls)
		if handler != "" {
			m.Check(r.Handler >= 1, "not reported", "KeyaddrErrorHandler is not called")
		}
		return
	}
	if !m.Check(r.Calls == 1, "callbacks", "%d callbacks", r.Calls) {
		return
	}
	if handler != "" {
		m.Check(r.Handler == 0, "KeyaddrErrorHandler", "is called, and the callback as well")
	}
	if isError(r.Err) {
		m.Event("error")
		m.Check(isNone(r.Val), "value", "an error %v and a value %v", r.Err, r.Val)
		m.Check(c.want != "value", c.Fn, "error %v, want %s", r.Err, c.vals)
		return
	}
	m.Check(isNone(r.Err), "error", "%v is no error", r.Err)
	if c.want == "any" {
		return
	}
	got := asJSON(r.Val)
	if !m.Check(c.want != "error", c.Fn, "no error: %s", got) {
		return
	}
	m.NonTrivial()
	m.Event("value")
	m.Check(got == c.vals[0], c.Fn, "got %s, want %s", got, c.vals[0])
}

// source of arguments
type source struct {
	gen.R
	keys []string
}

func (r *source) key() string {
	k := r.keys[r.IntN(len(r.keys))]
	if r.IntN(8) == 0 {
		k = k[:4] + r.Case(k[4:])
	}
	return k
}

func (r *source) badKey() string {
	k := r.key()
	switch r.IntN(6) {
	case 0:
		return gen.Pick(r.R, "", "npub", "npvt", "undefined", "null", "\x00", "ÿ", "<object>", "npvt"+strings.Repeat("a", 100000))
	case 1:
		return k[:r.IntN(len(k))]
	}
	// valid UTF-8, so that it is the same text in JavaScript
	return strings.ToValidUTF8(r.Mutate(k, ref.Alphabet+"=\n A"), "?")
}

func (r *source) num() arg {
	switch r.IntN(5) {
	case 0:
		return num(gen.Pick(r.R, "-1", "-0", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "-2147483648", "-2147483649", "NaN", "Infinity", "-Infinity",
			"1e300", "-1e300", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551616", "18446744073709551617", "1.5", "0.1", "-0.5", "5e-324", "1e20", "-9223372036854775808", "6442450945", "1099511627776"))
	case 1:
		return num(int32(hd.Normal(r.R)))
	}
	return num(r.IntN(50))
}

// odd is a value of another type.
func (r *source) odd() arg {
	switch r.IntN(16) {
	case 0:
		return arg{"u", ""}
	case 1:
		return arg{"null", ""}
	case 2:
		return arg{"b", fmt.Sprint(r.IntN(2) == 0)}
	case 3:
		return arg{"o", r.key()}
	case 4:
		return arg{"a", r.key()}
	case 5:
		return arg{"sym", "x"}
	case 6, 7:
		return arg{"big", gen.Pick(r.R, "0", "1", "-1", "12345678901234567890123")}
	case 8:
		return arg{"f", ""}
	case 9:
		return arg{"date", ""}
	case 10:
		return arg{"bytes", ""}
	case 11:
		return arg{"proxy", ""}
	case 12:
		return arg{"bare", ""}
	case 13:
		return arg{"str", r.key()}
	case 14:
		return arg{"sur", r.key()}
	}
	return arg{"re", ""}
}

func (r *source) cb() arg {
	return arg{"cb", gen.Pick(r.R, "", "", "function", "async", "bound", "proxy", "returns", "object", "one", "two", "two", "three", "method")}
}

// path of a child, and that of its parent
func (r *source) paths() (string, string) {
	p := ""
	for i := r.IntN(3); i > 0; i-- {
		p += "/" + fmt.Sprint(r.IntN(5)) + gen.Pick(r.R, "", "'")
	}
	c := p
	for i := r.IntN(3); i > 0 || c == ""; i-- {
		c += "/" + fmt.Sprint(r.IntN(2000)) + gen.Pick(r.R, "", "'")
	}
	if p == "" {
		p = "/"
	}
	if r.IntN(5) == 0 {
		p, c = c, p
	}
	if r.IntN(8) == 0 {
		c = strings.ToValidUTF8(r.Mutate(c, "0123456789/' "), "?")
	}
	return p, c
}

// args are arguments of the right types for a function, mostly valid ones.
func (r *source) args(fn string) []arg {
	k := r.key()
	if r.IntN(6) == 0 {
		k = r.badKey()
	}
	lang := "en"
	if r.IntN(10) == 0 {
		lang = gen.Pick(r.R, "", "fr", "EN", "en ")
	}
	switch fn {
	case "newKey":
		s := b64.EncodeToString(r.Bytes(gen.Pick(r.R, 16, 32, 64, 20, 0, 15, 65, r.IntN(80))))
		if r.IntN(5) == 0 {
			s = strings.ToValidUTF8(r.Mutate(s, "ABCabc012+/=-_ \n\r\t\x00"), "?")
		}
		return []arg{str(s)}
	case "wordsToBytes":
		w := strings.Join(ref.PhraseWords(r.Bytes(r.Len(40))), " ")
		if r.IntN(3) == 0 {
			w = gen.Pick(r.R, "", " ", w+" ", strings.ToUpper(w), w+" abandon", strings.ToValidUTF8(r.Mutate(w, "abc d"), "?"))
		}
		if r.IntN(4) == 0 {
			return []arg{{"u", ""}, str(w)}
		}
		return []arg{str(lang), str(w)}
	case "deriveFrom":
		p, c := r.paths()
		return []arg{str(k), str(p), str(c)}
	case "child", "hardenedChild":
		return []arg{str(k), r.num()}
	case "sign":
		s := b64.EncodeToString(sk.Message(r.R))
		if r.IntN(5) == 0 {
			s = strings.ToValidUTF8(r.Mutate(s, "ABCabc012+/=-_ \n\r\t\x00"), "?")
		}
		return []arg{str(k), str(s)}
	case "wordsFromPrefix":
		n := r.num()
		if r.IntN(2) == 0 {
			n = num(r.IntN(12) - 3)
		}
		return []arg{str(lang), str(gen.Pick(r.R, "", "a", "riv", "zoo", "zz", "A", "é", r.Text("abcde", 3)+"")), n}
	case "wordsFromBytes":
		s := b64.EncodeToString(r.Bytes(r.Len(60)))
		if r.IntN(4) == 0 {
			s = strings.ToValidUTF8(r.Mutate(s, "ABCabc012+/=-_ \n\r\t\x00"), "?")
		}
		return []arg{str(lang), str(s)}
	}
	return []arg{str(k)}
}

func clean(a []arg) []arg {
	for i := range a {
		a[i].V = strings.ToValidUTF8(a[i].V, "?")
	}
	return a
}

func (r *source) call(fn string, hostile bool) *call {
	c := &call{Fn: fn, Self: r.IntN(4) == 0}
	if fn != "exit" {
		c.Args = append(clean(r.args(fn)), r.cb())
	}
	if hostile || fn == "exit" {
		n := len(c.Args)
		switch k := r.IntN(8); {
		case fn == "exit" && k < 4:
			// never the call which ends it
			c.Args = []arg{r.odd(), r.cb()}
		case fn == "exit" && k < 6:
			c.Args = nil
		case fn == "exit":
			c.Args = []arg{str("x")}
		case k < 3:
			c.Args[r.IntN(n-1)] = r.odd()
		case k == 3: // too few
			i := r.IntN(n - 1)
			c.Args = append(c.Args[:i:i], c.Args[i+1:]...)
		case k == 4: // too many
			i := r.IntN(n)
			c.Args = append(c.Args[:i:i], append([]arg{gen.Pick(r.R, r.odd(), str("x"), num(1), r.odd())}, c.Args[i:]...)...)
		case k == 5: // no callback
			c.Args = c.Args[:r.IntN(n)]
		case k == 6: // no callback, but a value
			c.Args[n-1] = r.odd()
		case k == 7: // not the last
			c.Args[n-1].T = "f"
			i := r.IntN(n - 1)
			c.Args[i], c.Args[n-1] = c.Args[n-1], c.Args[i]
		}
	}
	if n := len(c.Args); n > 0 && c.Args[n-1].T == "f" {
		c.Args[n-1] = r.cb()
	}
	c.judge()
	if c.want == "handler" {
		c.Silent = true
	}
	return c
}

func newSession(r *source, n int) *session {
	s := &session{Handler: gen.Pick(r.R, "", "before", "before", "after"), Exit: r.IntN(2) == 0}
	if r.IntN(4) > 0 {
		s.Level = new(string)
		*s.Level = gen.Pick(r.R, "D", "I", "E", "E", "", "X")
	}
	for len(s.Calls) < n {
		hostile := r.IntN(3) == 0
		b := 1
		nested := false
		switch r.IntN(5) {
		case 0:
			b = 2 + r.IntN(30)
		case 1:
			nested = true
			b = 2 + r.IntN(6)
		}
		for i := 0; i < b; i++ {
			fn := gen.Pick(r.R, names...)
			if hostile && r.IntN(12) == 0 {
				fn = "exit"
			}
			c := r.call(fn, hostile && r.IntN(4) > 0)
			if nested && c.want == "handler" {
				c = r.call("isPrivate", false)
			}
			c.Batch, c.Nested = b-i, nested
			s.Calls = append(s.Calls, c)
		}
	}
	return s
}

var execJS string

func run(m *mon.M, name string, s *session) {
	tmp := os.Getenv("VERIF_TMP")
	in, outf := filepath.Join(tmp, name+".json"), filepath.Join(tmp, name+".out")
	b, err := json.Marshal(s)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(in, b, 0o600); err != nil {
		panic(err)
	}
	os.Remove(outf)
	limit := time.Duration(m.N(200, 1200)) * time.Second
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, "node", filepath.Join(tmp, "host.js"), execJS, filepath.Join(tmp, "keyaddr.wasm"), in, outf)
	log, err := cmd.CombinedOutput()
	if ctx.Err() != nil && cmd.ProcessState != nil && cmd.ProcessState.UserTime() > limit/3 {
		m.Do("session", func() { m.Failf("no return", "a session of %d calls did not end within %v", len(s.Calls), limit) }, name, string(b))
		return
	}
	var o output
	b, rerr := os.ReadFile(outf)
	if rerr != nil || json.Unmarshal(b, &o) != nil {
		fmt.Fprintf(os.Stderr, "host: %v, %v\n%s\n", err, rerr, log)
		os.Exit(4)
	}
	os.Remove(in)
	os.Remove(outf)
	handled := s.Handler
	for i, c := range s.Calls {
		var r *result
		if i < len(o.Results) {
			r = o.Results[i]
		}
		if o.Exited && o.Exit == nil && (r == nil || i > o.ExitedAt) || o.Stopped && r == nil {
			break
		}
		m.Do(c.Fn, func() { check(m, c, r, handled) }, c.Args)
	}
	m.Do("session", func() {
		if o.Exited && o.Exit == nil {
			last := "?"
			from := max(0, o.ExitedAt-3)
			if o.ExitedAt >= 0 && o.ExitedAt < len(s.Calls) {
				last = fmt.Sprint(s.Calls[from : o.ExitedAt+1])
			}
			m.Failf("the module stopped", "after %s\n%s\n%s", last, strings.Join(o.Lines, "\n"), strings.Join(o.Unhandled, "\n"))
			return
		}
		m.Check(len(o.Unhandled) == 0, "unhandled", "%s", strings.Join(o.Unhandled, "\n"))
		m.Check(o.Sentinel == ref.Prefix("zo", 0), "the module stopped", "a last call gives %q", o.Sentinel)
		for _, n := range names {
			ok := false
			for _, x := range o.Names {
				ok = ok || x == n
			}
			m.Check(ok, "missing function", "%s", n)
		}
		if o.Exit != nil {
			m.Event("exit")
			m.Check(o.Exit.Calls == 1 && isNone(o.Exit.Err) && o.Exit.Threw == "" && o.Exit.Val.T == "s", "exit", "%+v", *o.Exit)
			m.Check(o.Exit.After, "exit", "the module goes on")
		}
	}, name)
}

func main() {
	mon.Main("C71", rule, func(m *mon.M) {
		for _, n := range names {
			m.Require(n, 30)
		}
		m.Require("value", 800)
		m.Require("error", 500)
		m.Require("no callback", 40)
		m.Require("exit", 2)
		tmp := os.Getenv("VERIF_TMP")
		root, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			panic(err)
		}
		for _, d := range []string{"lib", "misc"} {
			f := filepath.Join(strings.TrimSpace(string(root)), d, "wasm", "wasm_exec.js")
			if _, err := os.Stat(f); err == nil {
				execJS = f
			}
		}
		if err := os.WriteFile(filepath.Join(tmp, "host.js"), []byte(host), 0o600); err != nil {
			panic(err)
		}
		m.Par("session", m.N(32, 64), func(m *mon.M, i int) {
			r := &source{R: gen.R{Rand: m.Rand}}
			for j := 0; j < 12; j++ {
				x := hd.XKey(r.R)
				if j < 4 {
					x, _ = ref.Master(r.Bytes(32))
				}
				if j%3 == 2 {
					x = x.Public()
				}
				r.keys = append(r.keys, x.Text())
			}
			p := sk.Ed(r.R)
			r.keys = append(r.keys, "npub"+ref.KeyText(1, p.Pub, nil))
			for j := 0; j < m.N(2, 6); j++ {
				run(m, fmt.Sprintf("s%d-%d", i, j), newSession(r, m.N(800, 3000)))
			}
		})
	})
}
