// Command gosbreplay searches for concrete inputs on which the code of /repo breaks a property.
// It uses the public API only; its oracles are written from the property statements.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

type result struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failure     string   `json:"failure"`
}

// T is the run of one driver.
type T struct {
	R        *rand.Rand
	seed     int64
	out      string
	res      result
	deadline time.Time
	hist     []string
	desc     func() string
	started  atomic.Int64 // start of the current case
	seen     map[string]bool
	thorough bool
}

type failure struct{ msg string }

func (t *T) Fail(f string, a ...any) { panic(failure{fmt.Sprintf(f, a...)}) }

func (t *T) Check(ok bool, f string, a ...any) {
	if !ok {
		t.Fail(f, a...)
	}
}

// Op records a step of the current history.
func (t *T) Op(f string, a ...any) { t.hist = append(t.hist, fmt.Sprintf(f, a...)) }

func (t *T) Time() bool { return time.Now().Before(t.deadline) }

// Frac tells whether less than fraction p of the budget is used.
func (t *T) Frac(p float64, start time.Time) bool {
	return time.Now().Before(start.Add(time.Duration(p * float64(t.deadline.Sub(start)))))
}

// Frac2 tells whether less than half a quick run is used (long loops stop there unless the run is thorough).
func (t *T) Frac2() bool { return t.thorough || time.Until(t.deadline) > 4*time.Second }

func (t *T) describe() string {
	var b strings.Builder
	if t.desc != nil {
		b.WriteString(t.desc())
		b.WriteString("\n")
	}
	h := t.hist
	if len(h) > 400 {
		fmt.Fprintf(&b, "  (%d earlier steps)\n", len(h)-400)
		h = h[len(h)-400:]
	}
	for _, s := range h {
		b.WriteString("  ")
		b.WriteString(s)
		b.WriteString("\n")
	}
	return b.String()
}

func (t *T) finish(msg string) {
	t.res.Failure = msg
	b, _ := json.MarshalIndent(t.res, "", " ")
	if t.out != "" {
		os.WriteFile(t.out, b, 0o644)
	}
	if msg != "" {
		fmt.Println(msg)
		os.Exit(3)
	}
	fmt.Printf("%d cases, no failing input\n", t.res.Evaluations)
	os.Exit(0)
}

// Case runs one case: a panic or a hang is a failure.
func (t *T) Case(desc func() string, f func()) {
	t.hist = t.hist[:0]
	t.desc = desc
	t.res.Evaluations++
	t.started.Store(time.Now().UnixNano())
	defer t.started.Store(0)
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			if fl, ok := r.(failure); ok {
				msg = fl.msg
			} else {
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if len(st) > 1500 {
					st = st[:1500]
				}
				msg = fmt.Sprintf("panic: %v\n%s", r, st)
			}
			t.finish(t.describe() + "=> " + msg)
		}
	}()
	f()
	n := t.res.Evaluations
	if n <= 3 || n == 100 || n == 10000 {
		s := t.describe()
		if len(s) > 600 {
			s = s[:600] + " ..."
		}
		t.res.Samples = append(t.res.Samples, s)
	}
}

// Distinct counts distinct cases.
func (t *T) Distinct() { t.res.Distinct++ }

// Panics runs f and returns what it panicked with.
func Panics(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

var drivers = map[string]struct {
	rule string
	f    func(*T)
}{}

func reg(id, rule string, f func(*T)) {
	drivers[id] = struct {
		rule string
		f    func(*T)
	}{rule, f}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosbreplay PROPERTY [-seed N] [-budget S] [-out FILE]")
		os.Exit(2)
	}
	fl := flag.NewFlagSet("replay", flag.ExitOnError)
	seed := fl.Int64("seed", 1, "")
	budget := fl.Int("budget", 10, "")
	out := fl.String("out", "", "")
	fl.Parse(os.Args[2:])
	d, ok := drivers[os.Args[1]]
	if !ok {
		fmt.Println("no driver", os.Args[1])
		os.Exit(2)
	}
	t := &T{R: rand.New(rand.NewSource(*seed)), seed: *seed, out: *out, seen: map[string]bool{}}
	t.res.Rule = d.rule
	t.deadline = time.Now().Add(time.Duration(*budget) * time.Second)
	t.thorough = *budget >= 60
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := t.started.Load()
			if s != 0 && time.Since(time.Unix(0, s)) > 25*time.Second {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				// a concurrent read of the history: the case is stuck
				t.finish(t.describe() + "=> the call does not return within 25 s\n" + string(buf[:min(len(buf), 3000)]))
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 6<<30 {
				t.finish(t.describe() + "=> the call uses unbounded memory")
			}
		}
	}()
	d.f(t)
	if t.res.Distinct == 0 {
		t.res.Distinct = t.res.Evaluations
	}
	t.finish("")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// tuples enumerates every sequence over vals of length at most n.
func tuples[V any](vals []V, n int) [][]V {
	out := [][]V{{}}
	last := [][]V{{}}
	for i := 0; i < n; i++ {
		var next [][]V
		for _, s := range last {
			for _, v := range vals {
				c := append(append([]V{}, s...), v)
				next = append(next, c)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func clone[V any](s []V) []V { return append([]V{}, s...) }

func same[V comparable](a, b []V) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
