package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

var (
	fRepo    = flag.String("repo", "/repo", "repository")
	fSpecs   = flag.String("specs", "/verif/specs", "contract directory")
	fFuncs   = flag.String("funcs", "", "functions to verify (comma separated; pkg.* for all contracts of a package)")
	fLemmas  = flag.String("lemmas", "", "lemmas to prove (comma separated or *)")
	fDump    = flag.String("dump", "", "directory for the SMT queries")
	fV       = flag.Bool("v", false, "list every obligation")
	fFast    = flag.Int("fast", 4000, "first solver limit (ms)")
	fSlow    = flag.Int("slow", 15000, "portfolio limit (ms)")
	fDebug   = flag.Bool("debug", false, "let internal errors panic")
	fOnly    = flag.String("only", "", "only obligations whose name contains this")
	fLocals  = flag.Bool("locals", false, "write specs/locals.json: the local variables of every function")
	fClosure = flag.Bool("closure", false, "also verify every contract used")
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		checkMain(os.Args[2:])
		return
	}
	flag.Parse()
	debugPanics = *fDebug
	t0 := time.Now()
	pr, err := Load(*fRepo, []string{"./..."})
	if err != nil {
		die("load: %v", err)
	}
	set, err := LoadSpecs(*fSpecs)
	if err != nil {
		die("specs: %v", err)
	}
	if !*fLocals {
		pr.renamedFuncs()
	}
	if *fLocals {
		if err := writeLocals(pr, *fSpecs); err != nil {
			die("locals: %v", err)
		}
		return
	}
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	var funcs, lemmas []string
	for _, f := range strings.Split(*fFuncs, ",") {
		if f == "" {
			continue
		}
		if strings.HasSuffix(f, "*") {
			for k, sp := range set.Funcs {
				if strings.HasPrefix(k, strings.TrimSuffix(f, "*")) && !sp.Trusted && (!sp.Inline || sp.Opt["alone"]) {
					if _, ok := pr.ByKey[k]; ok {
						funcs = append(funcs, k)
					}
				}
			}
			continue
		}
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	for _, l := range strings.Split(*fLemmas, ",") {
		if l == "" {
			continue
		}
		if strings.HasSuffix(l, "*") {
			for k := range set.Lemmas {
				if strings.HasPrefix(k, strings.TrimSuffix(l, "*")) {
					lemmas = append(lemmas, k)
				}
			}
			continue
		}
		lemmas = append(lemmas, l)
	}
	sort.Strings(lemmas)
	if *fDump != "" {
		os.MkdirAll(*fDump, 0o755)
		old, _ := filepath.Glob(filepath.Join(*fDump, "*.smt2"))
		for _, f := range old {
			os.Remove(f)
		}
	}
	rs := VerifyAll(pr, set, funcs, lemmas, *fClosure)
	var obs []*Obligation
	for _, r := range rs {
		for _, o := range r.Oblig {
			if *fOnly == "" || strings.Contains(o.Name, *fOnly) {
				obs = append(obs, o)
			}
		}
	}
	Solve(obs, SolveOpts{FastMs: *fFast, SlowMs: *fSlow, CoverMs: 1000, Workers: 8, Dump: *fDump})
	if *fOnly == "" {
		Reprove(pr, set, rs, func(*VerifyResult) {}, func(obs []*Obligation) {
			Solve(obs, SolveOpts{FastMs: *fFast, SlowMs: *fSlow, CoverMs: 1000, Workers: 8})
		}, time.Now().Add(300*time.Second))
	}
	bad := 0
	for _, r := range rs {
		n, ok := 0, 0
		var ms int64
		for _, o := range r.Oblig {
			if o.Result == "" {
				continue
			}
			n++
			if o.ok() {
				ok++
			}
			ms += o.Ms
		}
		st := "ok"
		if r.Err != "" {
			st = "ERROR " + r.Err
			bad++
		} else if ok != n {
			st = "FAILED"
		}
		fmt.Printf("%-40s %3d/%3d %6dms %s\n", r.Key, ok, n, ms, st)
		covers, live := 0, 0
		for _, o := range r.Oblig {
			if o.Name == "exit-cover" && o.Result != "" {
				covers++
				if o.ok() {
					live++
				}
				continue
			}
			if o.Result != "" && (!o.ok() || *fV) {
				if !o.ok() {
					bad++
				}
				fmt.Printf("    %-8s %-14s %s [%s] %s %dms %s %s\n", o.Result, o.Kind, o.Name, o.Pos, o.Solver, o.Ms, strings.Join(o.Tags, ","), o.Out)
			}
		}
		if covers > 0 && live == 0 {
			bad++
			fmt.Printf("    VACUOUS: no exit is reachable\n")
		} else if live < covers && *fV {
			fmt.Printf("    %d of %d exits unreachable\n", covers-live, covers)
		}
	}
	fmt.Printf("total %v, %d problems\n", time.Since(t0).Round(time.Millisecond), bad)
	if bad > 0 {
		os.Exit(1)
	}
}

// VerifyAll generates the obligations of the functions and lemmas, of every lemma they use and, with closure, of every contract they rely on.
func VerifyAll(pr *Program, set *SpecSet, funcs, lemmas []string, closure bool) []*VerifyResult {
	sh := &shared{writes: map[string]map[string]bool{}, wip: map[string]bool{}}
	var out []*VerifyResult
	doneF, doneL := map[string]bool{}, map[string]bool{}
	for len(funcs) > 0 || len(lemmas) > 0 {
		var nf, nl []string
		for _, f := range funcs {
			if doneF[f] {
				continue
			}
			doneF[f] = true
			r := VerifyFunc(pr, set, sh, f)
			out = append(out, r)
			nl = append(nl, r.Lemmas...)
			if closure {
				for _, u := range r.Used {
					if sp := set.Funcs[u]; sp != nil && !sp.Trusted && pr.ByKey[u] != nil {
						nf = append(nf, u)
					}
				}
			}
		}
		for _, l := range append(lemmas, nl...) {
			if doneL[l] {
				continue
			}
			doneL[l] = true
			if d := set.Lemmas[l]; d != nil && d.Axiom {
				continue
			}
			r := VerifyLemma(pr, set, sh, l)
			out = append(out, r)
			nl = append(nl, r.Lemmas...)
		}
		funcs, lemmas = nf, nl
		var left []string
		for _, l := range lemmas {
			if !doneL[l] {
				left = append(left, l)
			}
		}
		lemmas = left
	}
	return out
}
