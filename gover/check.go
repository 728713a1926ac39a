package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// checkConf is the per-property configuration (checks/props.json).
type checkConf struct {
	Extra   []string `json:"extra"`    // further functions to verify
	Lemmas  []string `json:"lemmas"`   // further lemmas to prove
	Driver  bool     `json:"driver"`   // a replay driver exists
	Race    bool     `json:"race"`     // build it with the race detector
	BudgetS int      `json:"budget_s"` // time of the driver in the quick tier
	Bounded []string `json:"bounded"`  // what only the driver covers (never counted as proved)
	Assume  []string `json:"assume"`   // further assumptions
}

type driverOut struct {
	Evaluations int      `json:"evaluations"`
	Distinct    int      `json:"distinct"`
	Rule        string   `json:"rule"`
	Samples     []string `json:"samples"`
	Failure     string   `json:"failure"`
	wall        float64
	err         string
}

// tagged lists the functions and lemmas whose contracts carry a property.
func tagged(pr *Program, set *SpecSet, prop string) (fs, ls []string) {
	has := func(cs []*Clause) bool {
		for _, c := range cs {
			for _, t := range c.Tags {
				if t == prop {
					return true
				}
			}
		}
		return false
	}
	for k, sp := range set.Funcs {
		if sp.Trusted {
			continue
		}
		var any func(*FuncSpec) bool
		any = func(sp *FuncSpec) bool {
			y := has(sp.Requires) || has(sp.Ensures) || has(sp.Panics) || has(sp.Exit) || has(sp.Unwinds)
			for _, l := range sp.Loops {
				y = y || has(l.Inv)
			}
			for _, c := range sp.Closures {
				y = y || any(c)
			}
			return y
		}
		if any(sp) {
			fs = append(fs, k)
		}
	}
	for k, l := range set.Lemmas {
		if !l.Axiom && has(l.Ensures) {
			ls = append(ls, k)
		}
	}
	sort.Strings(fs)
	sort.Strings(ls)
	return
}

func checkMain(args []string) {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	verif := fl.String("verif", "/verif", "verification directory")
	repo := fl.String("repo", "/repo", "repository")
	tier := fl.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	noDriver := fl.Bool("nodriver", false, "skip the replay driver")
	fl.Parse(args)
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()

	confs := map[string]*checkConf{}
	if b, err := os.ReadFile(filepath.Join(*verif, "checks/props.json")); err == nil {
		if err := json.Unmarshal(b, &confs); err != nil {
			die("props.json: %v", err)
		}
	}
	cf := confs[*prop]
	if cf == nil {
		cf = &checkConf{}
	}

	// the replay driver searches for a concrete failing input on the real code: once at first, and longer if the proof fails
	var dr *driverOut
	drive := func(budget int) {
		if cf.Driver && !*noDriver {
			dr = runDriver(*verif, *repo, *prop, cf.Race, seed, budget)
		}
	}
	budget := cf.BudgetS
	if budget == 0 {
		budget = 8
	}
	if *tier == "thorough" {
		budget = 120
	}
	drive(budget)
	failing := func() bool { return dr != nil && dr.Failure != "" }

	var problems []string // failed obligations
	var rs []*VerifyResult
	set, err := LoadSpecs(filepath.Join(*verif, "specs"))
	if err != nil {
		die("specs: %v", err)
	}
	pr, err := Load(*repo, []string{"./..."})
	total, discharged, trivial := 0, 0, 0
	covers, liveFns := 0, 0
	var solverMs int64
	byBackend := map[string]int{}
	var under, lemmas []string
	inlined := map[string]bool{}
	trusted := map[string]string{}
	notes := map[string]bool{}
	var details []string
	if err != nil {
		problems = append(problems, "the repository cannot be loaded: "+err.Error())
	} else {
		pr.renamedFuncs()
		fs, ls := tagged(pr, set, *prop)
		fs = append(fs, cf.Extra...)
		ls = append(ls, cf.Lemmas...)
		root := map[string]bool{}
		for _, f := range fs {
			root[f] = true
		}
		rs = VerifyAll(pr, set, fs, ls, true)
		usedBy := map[string]bool{}
		for _, r := range rs {
			for _, u := range r.Used {
				if u != r.Key {
					usedBy[u] = true
				}
			}
		}
		var obs []*Obligation
		prepare := func(r *VerifyResult) {
			var keep []*Obligation
			for _, o := range r.Oblig {
				if root[r.Key] && !usedBy[r.Key] && len(o.Tags) > 0 {
					mine := false
					for _, t := range o.Tags {
						mine = mine || t == *prop
					}
					if !mine && (o.Kind == "postcondition" || o.Kind == "invariant" || o.Kind == "invariant-entry") {
						continue
					}
				}
				keep = append(keep, o)
			}
			r.Oblig = keep
		}
		for _, r := range rs {
			prepare(r)
			obs = append(obs, r.Oblig...)
		}
		opt := SolveOpts{FastMs: 4000, SlowMs: 20000, CoverMs: 1000, Workers: 8}
		if *tier == "thorough" {
			opt.SlowMs = 60000
			opt.CoverMs = 4000
		}
		if failing() { // the property is broken: which obligation fails is of interest, but not at any cost
			opt.SlowMs, opt.MaxFail = 8000, 2
		}
		if *tier != "thorough" {
			opt.Deadline = t0.Add(560 * time.Second)
		}
		Solve(obs, opt)
		// an undecided obligation gets a second attempt with more time
		var again []*Obligation
		for _, o := range obs {
			if !o.ok() && o.Expect != "sat" && o.Result != "sat" {
				again = append(again, o)
			}
		}
		if len(again) > 0 && len(again) <= 8 && !failing() {
			opt.FastMs, opt.SlowMs, opt.Workers = 15000, 45000, 2
			if !opt.Deadline.IsZero() {
				opt.Deadline = t0.Add(680 * time.Second)
			}
			Solve(again, opt)
		}
		if !failing() {
			opt.FastMs, opt.SlowMs, opt.Workers = 4000, 20000, 8
			until := time.Now().Add(time.Duration(2*time.Since(t0).Seconds()) * time.Second)
			if *tier != "thorough" && until.After(t0.Add(420*time.Second)) {
				until = t0.Add(420 * time.Second)
			}
			Reprove(pr, set, rs, prepare, func(obs []*Obligation) { Solve(obs, opt) }, until)
		}
		for _, r := range rs {
			if strings.HasPrefix(r.Key, "lemma ") {
				lemmas = append(lemmas, strings.TrimPrefix(r.Key, "lemma "))
			} else {
				under = append(under, r.Key)
			}
			for _, f := range r.Inlined {
				inlined[f] = true
			}
			for k, v := range r.Trusted {
				trusted[k] = v
			}
			for _, n := range r.Notes {
				notes[n] = true
			}
			if r.Err != "" {
				problems = append(problems, r.Key+": "+r.Err)
			}
			exits, live, real := 0, 0, 0
			for _, o := range r.Oblig {
				solverMs += o.Ms
				if o.Expect == "sat" {
					covers++
					if o.Name == "exit-cover" {
						exits++
						if o.ok() {
							live++
						}
						continue
					}
					if !o.ok() {
						problems = append(problems, fmt.Sprintf("%s: vacuous: %s is not satisfiable", r.Key, o.Name))
					}
					continue
				}
				real++
				total++
				if o.ok() {
					discharged++
					if o.Trivial || o.Solver == "" {
						trivial++
					} else {
						byBackend[o.Solver]++
					}
					continue
				}
				id := fmt.Sprintf("%s: %s: %s [%s]", r.Key, o.Kind, o.Name, o.Pos)
				problems = append(problems, id)
				details = append(details, fmt.Sprintf("%s\n    verifier: %s (%s) %s", id, o.Result, o.Solver, o.Out))
			}
			if exits > 0 && live == 0 {
				problems = append(problems, r.Key+": vacuous: no exit of the function is reachable under its contract")
			}
			if exits > 0 && live > 0 {
				liveFns++
			}
			if real == 0 && r.Err == "" {
				problems = append(problems, r.Key+": vacuous: no obligation was generated")
			}
		}
		if total == 0 && len(problems) == 0 {
			problems = append(problems, "no obligation carries this property")
		}
	}
	proofS := time.Since(t0).Seconds()
	if dr != nil {
		proofS -= dr.wall
	}

	if len(problems) > 0 && !failing() && *tier != "thorough" {
		wall := 0.0
		if dr != nil {
			wall = dr.wall
		}
		drive(60)
		if dr != nil {
			dr.wall += wall
		}
	}

	wdir := filepath.Join(*verif, "work", "replay")
	os.MkdirAll(wdir, 0o755)
	rp := filepath.Join(wdir, *prop+".txt")
	os.Remove(rp)
	violations := 0
	line := ""
	if len(problems) > 0 || (dr != nil && dr.Failure != "") {
		violations = 1
		var b strings.Builder
		fmt.Fprintf(&b, "property %s\n\n", *prop)
		if dr != nil && dr.Failure != "" {
			fmt.Fprintf(&b, "failing input, observed on the real code (reproduce: cd %s/replay && go run . %s -seed %d):\n%s\n\n", *verif, *prop, seed, dr.Failure)
		} else {
			fmt.Fprintf(&b, "no failing input was found\n\n")
		}
		fmt.Fprintf(&b, "obligations that are not discharged (%d):\n", len(problems))
		for _, p := range problems {
			fmt.Fprintf(&b, "  %s\n", p)
		}
		fmt.Fprintf(&b, "\nverifier output:\n")
		for _, d := range details {
			fmt.Fprintf(&b, "  %s\n", d)
		}
		if dr != nil && dr.err != "" {
			fmt.Fprintf(&b, "\nreplay driver: %s\n", dr.err)
		}
		os.WriteFile(rp, []byte(b.String()), 0o644)
		line = fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, rp)
		if dr == nil || dr.Failure == "" {
			line += " no-failing-input-found"
		}
	}

	// evidence
	var as []string
	for n := range notes {
		as = append(as, n)
	}
	sort.Strings(as)
	as = append(as, cf.Assume...)
	var tb []string
	for k, v := range trusted {
		s := "contract assumed, not proved: " + k
		if v != "" {
			s += " (" + v + ")"
		}
		tb = append(tb, s)
	}
	for _, n := range usedAxioms(rs, set) {
		tb = append(tb, n)
	}
	sort.Strings(tb)
	tb = append(tb, "gover (the verification condition generator in /verif/gover), go/types, and the SMT solvers z3 5.3, z3 4.8.12, cvc5 1.1.2")
	sort.Strings(under)
	sort.Strings(lemmas)
	cov := map[string]any{
		"obligations": total, "discharged": discharged,
		"checker_cmd":               fmt.Sprintf("/verif/bin/gover check -prop %s -tier %s", *prop, *tier),
		"trusted_base":              tb,
		"functions_under_contract":  under,
		"functions_inlined":         keysOf(inlined),
		"lemmas_proved":             lemmas,
		"discharged_by":             byBackend,
		"discharged_by_simplifier":  trivial,
		"vacuity_checks":            covers,
		"functions_with_live_exits": liveFns,
		"solver_time_s":             float64(solverMs) / 1000,
		"proof_wall_s":              proofS,
		"failed_obligations":        problems,
	}
	if problems == nil {
		cov["failed_obligations"] = []string{}
	}
	if dr != nil {
		cov["bounded_replay_driver"] = map[string]any{"evaluations": dr.Evaluations, "distinct_nontrivial": dr.Distinct, "rule": dr.Rule, "samples": dr.Samples, "wall_s": dr.wall, "error": dr.err,
			"role": "searches for a concrete failing input on the real code; bounded, never counted as proved"}
	}
	if len(cf.Bounded) > 0 {
		cov["bounded_only"] = cf.Bounded
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": as, "wall_s": time.Since(t0).Seconds(), "violations": violations,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(js, '\n'), 0o644)

	fmt.Printf("%s: %d of %d obligations discharged over %d functions and %d lemmas in %.1f s", *prop, discharged, total, len(under), len(lemmas), proofS)
	if dr != nil {
		fmt.Printf("; replay driver: %d cases in %.1f s", dr.Evaluations, dr.wall)
		if dr.err != "" {
			fmt.Printf(" (%s)", dr.err)
		}
	}
	fmt.Println()
	if line != "" {
		for i, p := range problems {
			if i == 12 {
				fmt.Printf("  ... %d more\n", len(problems)-i)
				break
			}
			fmt.Println("  not discharged:", p)
		}
		if dr != nil && dr.Failure != "" {
			fmt.Println("  failing input:", firstLines(dr.Failure, 12))
		}
		fmt.Println(line)
		os.Exit(1)
	}
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = append(ls[:n], "...")
	}
	return strings.Join(ls, "\n    ")
}

// usedAxioms lists the trusted lemmas and axioms of the packages under contract.
func usedAxioms(rs []*VerifyResult, set *SpecSet) []string {
	var out []string
	seen := map[string]bool{}
	for _, r := range rs {
		for _, l := range r.Lemmas {
			if d := set.Lemmas[l]; d != nil && d.Axiom && !seen[l] {
				seen[l] = true
				out = append(out, "axiom, not proved: "+l+" ("+d.Reason+")")
			}
		}
	}
	return out
}

// runDriver builds the replay driver from the current tree and runs it, as an unprivileged user, in a scratch directory.
func runDriver(verif, repo, prop string, race bool, seed, budget int) *driverOut {
	t0 := time.Now()
	d := &driverOut{}
	defer func() { d.wall = time.Since(t0).Seconds() }()
	tmp, err := os.MkdirTemp("", "replay")
	if err != nil {
		d.err = err.Error()
		return d
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0o755)
	src := filepath.Join(verif, "replay")
	if repo != "/repo" { // development: another tree
		cp := filepath.Join(tmp, "src")
		exec.Command("cp", "-r", src, cp).Run()
		exec.Command("sh", "-c", fmt.Sprintf("sed -i 's#=> /repo#=> %s#' %s/go.mod", repo, cp)).Run()
		src = cp
	}
	bin := filepath.Join(tmp, "replay.bin")
	a := []string{"build", "-o", bin}
	if race {
		a = append(a, "-race")
	}
	c := exec.Command("go", append(a, ".")...)
	c.Dir = src
	c.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
	if out, err := c.CombinedOutput(); err != nil {
		d.err = "does not build: " + string(out)
		return d
	}
	os.Chmod(bin, 0o755)
	scratch := filepath.Join(tmp, "scratch")
	os.Mkdir(scratch, 0o777)
	os.Chmod(scratch, 0o777)
	run := func(unpriv bool) (string, string, int) {
		c = exec.Command(bin, prop, "-seed", strconv.Itoa(seed), "-budget", strconv.Itoa(budget), "-out", filepath.Join(scratch, "out.json"))
		c.Dir = scratch
		c.Env = []string{"HOME=" + scratch, "TMPDIR=" + scratch, "PATH=" + os.Getenv("PATH"), "GORACE=halt_on_error=1 exitcode=66"}
		c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if unpriv && os.Getuid() == 0 {
			c.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
		}
		var so, se strings.Builder
		c.Stdout, c.Stderr = &so, &se
		if err := c.Start(); err != nil {
			return "", err.Error(), -2
		}
		done := make(chan error, 1)
		go func() { done <- c.Wait() }()
		select {
		case err = <-done:
		case <-time.After(time.Duration(budget+90) * time.Second):
			syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			<-done
			return so.String(), se.String(), -1
		}
		return so.String(), se.String(), c.ProcessState.ExitCode()
	}
	so, se, rc := run(true)
	if rc == -2 {
		d.err = "cannot run as an unprivileged user: " + se
		return d
	}
	if b, err := os.ReadFile(filepath.Join(scratch, "out.json")); err == nil {
		json.Unmarshal(b, d)
	}
	tail := func(s string) string {
		if len(s) > 6000 {
			s = s[:6000]
		}
		return s
	}
	switch rc {
	case 0:
	case 3:
		if d.Failure == "" {
			d.Failure = tail(so)
		}
	case -1:
		d.err = "stopped after its time limit"
	case 66:
		d.Failure = "data race reported by the race detector:\n" + tail(se)
	default:
		// the process died: a fatal error of the runtime (deadlock, concurrent map access, stack overflow) or a panic outside the driver's reach
		if strings.Contains(se, "fatal error:") || strings.Contains(se, "panic:") {
			if strings.Contains(se, "out of memory") || strings.Contains(se, "cannot allocate memory") {
				d.err = tail(se)
			} else {
				d.Failure = tail(so) + tail(se)
			}
		} else {
			d.err = fmt.Sprintf("exit %d %s %s", rc, tail(so), tail(se))
		}
	}
	return d
}
