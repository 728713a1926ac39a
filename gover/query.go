package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// ---- building one SMT query ----

type qbuilder struct {
	seen  map[*Term]int
	order []*Term
}

func (q *qbuilder) walk(t *Term) {
	q.seen[t]++
	if q.seen[t] > 1 {
		return
	}
	for _, a := range t.Args {
		q.walk(a)
	}
	for _, tr := range t.Trig {
		for _, y := range tr {
			q.walk(y)
		}
	}
	q.order = append(q.order, t)
}

// queryText builds the SMT-LIB text for: assumptions entail the goal. Not safe for concurrent use.
func queryText(asm []*Term, goal *Term, rounds int) string {
	var roots []*Term
	for _, a := range asm {
		roots = append(roots, skolemize(a, true))
	}
	roots = append(roots, skolemize(Not(goal), true))
	q := &qbuilder{seen: map[*Term]int{}}
	for _, r := range roots {
		q.walk(r)
	}
	done := map[*Term]bool{}
	axDone := map[*Axiom]bool{}
	scanned := 0
	syms := map[string]bool{}
	addAx := func() {
		for {
			for ; scanned < len(q.order); scanned++ {
				syms[q.order[scanned].Op] = true
			}
			grew := false
			for i := 0; i < len(axioms); i++ {
				a := axioms[i]
				if axDone[a] {
					continue
				}
				for _, n := range a.Need {
					if syms[n] {
						axDone[a] = true
						roots = append(roots, a.T)
						q.walk(a.T)
						grew = true
						break
					}
				}
			}
			if !grew && scanned == len(q.order) {
				return
			}
		}
	}
	addAx()
	for r := 0; r < rounds; r++ {
		var apps []*Term
		for _, t := range q.order {
			if len(t.free) == 0 && !done[t] {
				if _, ok := recDefs[t.Op]; ok {
					apps = append(apps, t)
				}
			}
		}
		if len(apps) == 0 {
			break
		}
		sort.Slice(apps, func(i, j int) bool { return apps[i].id < apps[j].id })
		for _, a := range apps {
			done[a] = true
			if eq := unfoldRec(a); eq != nil {
				roots = append(roots, eq)
				q.walk(eq)
			}
		}
		addAx()
	}

	var sb strings.Builder
	// sorts
	var dts []Sort
	dseen := map[Sort]bool{}
	sdecl := map[Sort]bool{}
	var needSort func(s Sort)
	needSort = func(s Sort) {
		switch s {
		case SInt, SBool, SReal, SBV8:
			return
		}
		if dseen[s] || sdecl[s] {
			return
		}
		if p, ok := arrSorts[s]; ok {
			needSort(p.k)
			needSort(p.v)
			return
		}
		if d, ok := datatypes[s]; ok {
			for _, f := range d.Sorts {
				needSort(f)
			}
			dseen[s] = true
			dts = append(dts, s)
			return
		}
		if strings.HasPrefix(string(s), "(_ ") {
			return
		}
		sdecl[s] = true
	}
	needSort(SRef)
	needSort(SSl)
	type cdecl struct {
		n string
		s Sort
	}
	var consts []cdecl
	cs := map[string]bool{}
	fs := map[string]bool{}
	var fns []string
	for _, t := range q.order {
		needSort(t.S)
		for _, v := range t.Vars {
			needSort(v.S)
		}
		if _, isCtor := dtCtor[t.Op]; isCtor && len(t.Args) == 0 {
			continue
		}
		if t.decl && !cs[t.Op] {
			cs[t.Op] = true
			consts = append(consts, cdecl{t.Op, t.S})
		}
		if sg, ok := funDecls[t.Op]; ok && len(t.Args) > 0 && !fs[t.Op] {
			fs[t.Op] = true
			fns = append(fns, t.Op)
			for _, a := range sg.args {
				needSort(a)
			}
		}
	}
	var so []string
	for s := range sdecl {
		so = append(so, string(s))
	}
	sort.Strings(so)
	for _, s := range so {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", quoteSym(s))
	}
	for _, s := range dts {
		d := datatypes[s]
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", quoteSym(string(s)), quoteSym(d.Ctor))
		for i, f := range d.Fields {
			fmt.Fprintf(&sb, " (%s %s)", quoteSym(f), d.Sorts[i])
		}
		sb.WriteString("))))\n")
	}
	for _, c := range consts {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", quoteSym(c.n), c.s)
	}
	sort.Strings(fns)
	for _, f := range fns {
		sg := funDecls[f]
		fmt.Fprintf(&sb, "(declare-fun %s (", quoteSym(f))
		for i, a := range sg.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", sg.ret)
	}
	names := map[*Term]string{}
	k := 0
	for _, t := range q.order {
		if q.seen[t] > 1 && len(t.free) == 0 && len(t.Args) > 0 && t.size > 4 && !t.bound {
			k++
			n := fmt.Sprintf("?s%d", k)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.S)
			printTerm(&sb, t, names)
			sb.WriteString(")\n")
			names[t] = n
		}
	}
	for _, r := range roots {
		sb.WriteString("(assert ")
		printTerm(&sb, r, names)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// ---- solvers ----

type solverCfg struct {
	name string
	pre  string
	cmd  []string
}

func z3cfg(bin, name, pre string, ms int) solverCfg {
	return solverCfg{name: name, pre: pre, cmd: []string{bin, "-in", fmt.Sprintf("-T:%d", (ms+999)/1000), "-memory:4000"}}
}

func runSolver(ctx context.Context, c solverCfg, q string, ms int) (string, time.Duration) {
	ctx, cancel := context.WithTimeout(ctx, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.cmd[0], c.cmd[1:]...)
	cmd.Stdin = strings.NewReader(c.pre + q)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "unsat", "sat", "unknown":
			return l, d
		case "timeout":
			return "unknown", d
		}
		if strings.HasPrefix(l, "(error") {
			return "error: " + l, d
		}
	}
	if e := strings.TrimSpace(errb.String()); e != "" && ctx.Err() == nil {
		if len(e) > 300 {
			e = e[:300]
		}
		return "error: " + e, d
	}
	return "unknown", d
}

const (
	z3pre1 = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-logic ALL)\n"
	z3pre2 = "(set-logic ALL)\n"
	z3pre3 = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n(set-option :smt.arith.solver 2)\n(set-option :smt.relevancy 0)\n(set-logic ALL)\n"
	z3pre4 = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 100)\n(set-logic ALL)\n"
)

var cacheDir = os.Getenv("GOVER_CACHE")

func cacheGet(key string) (string, bool) {
	if cacheDir == "" {
		return "", false
	}
	b, err := os.ReadFile(filepath.Join(cacheDir, key))
	return string(b), err == nil
}
func cachePut(key, v string) {
	if cacheDir != "" {
		os.MkdirAll(cacheDir, 0o755)
		os.WriteFile(filepath.Join(cacheDir, key), []byte(v), 0o644)
	}
}

type job struct {
	o     *Obligation
	q     string
	parts []string // the goal split into conjuncts
	few   []string // the same with only the assumptions that seem to matter (of the whole, or of every part), or ""
}

func quantified(t *Term, memo map[*Term]bool) bool {
	if r, ok := memo[t]; ok {
		return r
	}
	r := len(t.Vars) > 0
	for _, a := range t.Args {
		r = r || quantified(a, memo)
	}
	memo[t] = r
	return r
}

func constsOf(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if len(t.Args) == 0 && !t.bound && t.num == nil && t != True && t != False && len(t.Vars) == 0 {
		out[t] = true
	}
	for _, a := range t.Args {
		constsOf(a, out, seen)
	}
}

// relevant leaves out quantified assumptions that are linked to the goal only by names that occur everywhere. What is left entails
// less, so an answer unsat still counts.
func relevant(asm []*Term, goal *Term, rounds int) []*Term {
	memo := map[*Term]bool{}
	cs := make([]map[*Term]bool, len(asm))
	freq := map[*Term]int{}
	nq := 0
	for i, a := range asm {
		cs[i] = map[*Term]bool{}
		constsOf(a, cs[i], map[*Term]bool{})
		if quantified(a, memo) {
			nq++
			for c := range cs[i] {
				freq[c]++
			}
		}
	}
	in := map[*Term]bool{}
	constsOf(goal, in, map[*Term]bool{})
	keep := make([]bool, len(asm))
	for r := 0; r < rounds; r++ {
		add := map[*Term]bool{}
		for i, a := range asm {
			if keep[i] {
				continue
			}
			if !quantified(a, memo) && r == 0 {
				keep[i] = true
				continue
			}
			for c := range cs[i] {
				if in[c] && freq[c]*5 <= nq {
					keep[i] = true
				}
			}
			if keep[i] {
				for c := range cs[i] {
					if freq[c]*5 <= nq {
						add[c] = true
					}
				}
			}
		}
		for c := range add {
			in[c] = true
		}
	}
	var out []*Term
	for i, a := range asm {
		if keep[i] {
			out = append(out, a)
		}
	}
	return out
}

func fewText(o *Obligation, g *Term) string {
	as := relevant(o.Asm, g, 3)
	if len(as)*10 > len(o.Asm)*9 {
		return ""
	}
	return queryText(as, g, 2+o.Unfold)
}

// SolveOpts bounds the solver effort.
type SolveOpts struct {
	FastMs, SlowMs, CoverMs int
	Workers                 int
	Dump                    string
	MaxFail                 int       // after more failures than this the rest is not tried hard
	Deadline                time.Time // after this, nothing is tried hard any more
}

func solveFast(q string, ms int) (string, string, int64) {
	r, d := runSolver(context.Background(), z3cfg("z3-new", "z3-5.3", z3pre1, ms), q, ms)
	return r, "z3-5.3", d.Milliseconds()
}

// solveHard runs several solvers at once and takes the first answer unsat.
func solveHard(q, few string, ms int) (string, string, int64) {
	cfgs := []solverCfg{
		z3cfg("z3-new", "z3-5.3", z3pre1, ms),
		z3cfg("z3-new", "z3-5.3/mbqi", z3pre2, ms),
		z3cfg("z3-new", "z3-5.3/seed7", z3pre3, ms),
		z3cfg("z3", "z3-4.8", z3pre4, ms),
		{name: "cvc5", pre: "(set-logic ALL)\n", cmd: []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-q"}},
	}
	if few != "" {
		cfgs = append(cfgs, z3cfg("z3-new", "z3-5.3/few", z3pre1, ms))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type res struct{ r, n string }
	ch := make(chan res, len(cfgs))
	t0 := time.Now()
	for _, c := range cfgs {
		c := c
		go func() {
			q := q
			if c.name == "z3-5.3/few" {
				q = few
			}
			r, _ := runSolver(ctx, c, q, ms)
			if c.name == "z3-5.3/few" && r != "unsat" {
				r = "unknown"
			}
			ch <- res{r, c.name}
		}()
	}
	last := res{"unknown", "portfolio"}
	for range cfgs {
		r := <-ch
		if r.r == "unsat" {
			return r.r, r.n, time.Since(t0).Milliseconds()
		}
		if r.r == "sat" || strings.HasPrefix(r.r, "error") && last.r == "unknown" {
			last = r
			if r.r == "sat" && r.n == "z3-5.3/mbqi" {
				// a model was found by a complete run
				return r.r, r.n, time.Since(t0).Milliseconds()
			}
		}
	}
	return last.r, last.n, time.Since(t0).Milliseconds()
}

func splitGoal(g *Term) []*Term {
	if g.Op == "and" && len(g.Vars) == 0 {
		var out []*Term
		for _, a := range g.Args {
			out = append(out, splitGoal(a)...)
		}
		return out
	}
	if g.Op == "=>" {
		ps := splitGoal(g.Args[1])
		if len(ps) > 1 {
			var out []*Term
			for _, p := range ps {
				out = append(out, Implies(g.Args[0], p))
			}
			return out
		}
	}
	if g.Op == "forall" {
		ps := splitGoal(g.Args[0])
		if len(ps) > 1 {
			var out []*Term
			for _, p := range ps {
				q := Forall(g.Vars, nil, p)
				if q.Op == "forall" {
					goalTrig[q] = g.Trig
				}
				out = append(out, q)
			}
			return out
		}
	}
	if g.Op == "=" && g.Args[0].S == SBool {
		return []*Term{Implies(g.Args[0], g.Args[1]), Implies(g.Args[1], g.Args[0])}
	}
	return []*Term{g}
}

// Solve discharges obligations.
func Solve(obs []*Obligation, opt SolveOpts) {
	defer coverPaths(obs)
	var jobs []*job
	for _, o := range obs {
		if o.Trivial {
			o.Result, o.Solver = "unsat", "simplifier"
			continue
		}
		j := &job{o: o, q: queryText(o.Asm, o.Goal, 2+o.Unfold)}
		jobs = append(jobs, j)
	}
	pool := func(n int, js []*job, f func(j *job)) {
		ch := make(chan *job)
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					f(j)
				}
			}()
		}
		for _, j := range js {
			ch <- j
		}
		close(ch)
		wg.Wait()
	}
	key := func(q string) string {
		h := sha256.Sum256([]byte(q))
		return hex.EncodeToString(h[:16])
	}
	pool(opt.Workers, jobs, func(j *job) {
		if opt.Dump != "" {
			n := sanitize(j.o.Fn + "-" + j.o.Kind + "-" + j.o.Name)
			if len(n) > 120 {
				n = n[:120]
			}
			os.WriteFile(filepath.Join(opt.Dump, fmt.Sprintf("%s-%s.smt2", n, key(j.q)[:6])), []byte(z3pre1+j.q), 0o644)
		}
		if v, ok := cacheGet(key(j.q)); ok {
			j.o.Result, j.o.Solver = v, "cache"
			return
		}
		ms := opt.FastMs
		if j.o.Expect == "sat" {
			ms = opt.CoverMs
		}
		r, s, d := solveFast(j.q, ms)
		j.o.Result, j.o.Solver, j.o.Ms = r, s, d
		if r == "unsat" || j.o.Expect == "sat" {
			cachePut(key(j.q), r)
		}
	})
	var hard []*job
	for _, j := range jobs {
		if j.o.Expect == "unsat" && j.o.Result != "unsat" {
			hard = append(hard, j)
		}
	}
	for _, j := range hard {
		ps := splitGoal(j.o.Goal)
		if len(ps) > 1 {
			for _, p := range ps {
				j.parts = append(j.parts, queryText(j.o.Asm, p, 2+j.o.Unfold))
				j.few = append(j.few, fewText(j.o, p))
			}
		} else {
			j.few = append(j.few, fewText(j.o, j.o.Goal))
		}
	}
	nw := opt.Workers / 3
	if nw < 1 {
		nw = 1
	}
	if opt.SlowMs == 0 {
		return
	}
	late := func() bool { return !opt.Deadline.IsZero() && time.Now().After(opt.Deadline) }
	nfail := 0
	most := opt.MaxFail
	if most == 0 {
		most = 12
	}
	var mu sync.Mutex
	pool(nw, hard, func(j *job) {
		mu.Lock()
		skip := nfail > most || late() // clearly broken: do not spend the time budget on the rest
		mu.Unlock()
		if skip {
			j.o.Out = "not attempted further: many failures, or out of time"
			return
		}
		t0 := time.Now()
		ok := true
		if j.parts != nil {
			for i, p := range j.parts {
				if _, c := cacheGet(key(p)); c {
					continue
				}
				if late() {
					ok = false
					j.o.Out = "not attempted further: out of time"
					break
				}
				r, s, _ := solveFast(p, opt.FastMs)
				if r != "unsat" {
					r, s, _ = solveHard(p, j.few[i], opt.SlowMs)
				}
				j.o.Solver = s
				if r != "unsat" {
					ok = false
					j.o.Result = r
					j.o.Out = fmt.Sprintf("conjunct %d of %d: %s", i+1, len(j.parts), r)
					if opt.Dump != "" {
						n := sanitize(j.o.Fn + "-" + j.o.Name)
						if len(n) > 100 {
							n = n[:100]
						}
						os.WriteFile(filepath.Join(opt.Dump, fmt.Sprintf("PART-%s-%d.smt2", n, i+1)), []byte(z3pre1+p), 0o644)
					}
					break
				}
				cachePut(key(p), r)
			}
			if ok {
				j.o.Result = "unsat"
				cachePut(key(j.q), "unsat")
			}
		} else {
			j.o.Result, j.o.Solver, _ = solveHard(j.q, j.few[0], opt.SlowMs)
			if j.o.Result == "unsat" {
				cachePut(key(j.q), "unsat")
			}
		}
		j.o.Ms += time.Since(t0).Milliseconds()
		if j.o.Result != "unsat" {
			mu.Lock()
			nfail++
			mu.Unlock()
		}
	})
}

// coverPaths: a loop that is reached along several paths is covered when one of them is possible.
func coverPaths(obs []*Obligation) {
	type key struct{ fn, name, pos string }
	live := map[key]bool{}
	for _, o := range obs {
		if o.Expect == "sat" && o.Name != "exit-cover" && o.ok() {
			live[key{o.Fn, o.Name, o.Pos}] = true
		}
	}
	for _, o := range obs {
		if o.Expect == "sat" && o.Name != "exit-cover" && o.Result == "unsat" && live[key{o.Fn, o.Name, o.Pos}] {
			o.Result = "sat elsewhere"
		}
	}
}

func (o *Obligation) ok() bool {
	if o.Expect == "sat" {
		return o.Result != "unsat" && !strings.HasPrefix(o.Result, "error")
	}
	return o.Result == "unsat"
}

// skolemize replaces the variables that the solver would name itself: pos is the polarity in which t is asserted
// (universal variables of the goal, existential ones of assumptions), so that recursive definitions unfold on them.
func skolemize(t *Term, pos bool) *Term {
	switch t.Op {
	case "forall", "exists":
		if (t.Op == "exists") == pos && len(t.free) == 0 {
			m := map[*Term]*Term{}
			for _, v := range t.Vars {
				m[v] = NewConst("sk", v.S)
			}
			b := skolemize(Subst(t.Args[0], m), pos)
			if t.Op == "forall" {
				// the terms of the triggers stay in sight, also where the part of the goal at hand does not mention them
				for _, tr := range trigOf(t) {
					for _, y := range tr {
						y = Subst(y, m)
						if len(y.free) == 0 && !occurs(y, b) {
							b = Or(b, Not(App("touch$"+sanitize(string(y.S)), SBool, y)))
						}
					}
				}
			}
			return b
		}
		return t
	case "and", "or":
		if len(t.Vars) != 0 {
			return t
		}
		as := make([]*Term, len(t.Args))
		same := true
		for i, a := range t.Args {
			as[i] = skolemize(a, pos)
			same = same && as[i] == a
		}
		if same {
			return t
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "=>":
		a, b := skolemize(t.Args[0], !pos), skolemize(t.Args[1], pos)
		if a == t.Args[0] && b == t.Args[1] {
			return t
		}
		return Implies(a, b)
	case "not":
		a := skolemize(t.Args[0], !pos)
		if a == t.Args[0] {
			return t
		}
		return Not(a)
	}
	return t
}

// goalTrig: the triggers of the goal that a part was split off from.
var goalTrig = map[*Term][][]*Term{}

func trigOf(t *Term) [][]*Term {
	if tr, ok := goalTrig[t]; ok && len(t.Trig) == 0 {
		return tr
	}
	return t.Trig
}

func occurs(y, t *Term) bool {
	if y == t {
		return true
	}
	for _, a := range t.Args {
		if occurs(y, a) {
			return true
		}
	}
	return false
}
