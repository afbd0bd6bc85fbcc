package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// The check of one property: every function whose contract the property rests
// on is verified against /repo's current source, and every lemma used is proved.

type failure struct {
	fn, kind, label, pos, detail string
	query                        string
	goal                         string
}

func (f failure) String() string {
	s := f.fn + ": " + f.kind
	if f.label != "" {
		s += " (" + f.label + ")"
	}
	if f.pos != "" {
		s += " at " + f.pos
	}
	return s + ": " + f.detail
}

// rootsOf: the contracts that state property p.
func rootsOf(p string) []*FuncSpec {
	var out []*FuncSpec
	for _, fs := range specs.order {
		for _, q := range fs.props {
			if q == p {
				out = append(out, fs)
				break
			}
		}
	}
	return out
}

func cmdCheck(p, tier string) int {
	t0 := time.Now()
	curProp = p
	deadline = t0.Add(420 * time.Second)
	if tier == "thorough" {
		thorough = true
		slowTO = 60 * time.Second
		deadline = t0.Add(560 * time.Second)
	}
	watchMemory()
	// after the first failure, the input search runs at once
	var replayOnce sync.Once
	replayDone, replayFound, replayOut := false, false, ""
	doReplay := func() {
		replayOnce.Do(func() {
			machine.Lock()
			defer machine.Unlock()
			replayFound, replayOut = replay(p)
			replayDone = true
			if replayFound {
				aborted.Store(true)
			}
		})
	}
	onFailure = doReplay
	evDir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(evDir, 0755)
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	var fails []failure
	type fnInfo struct {
		name  string
		obls  int
		loops int
		invs  int
	}
	var fns []fnInfo
	nobl, ndis, ninv, ntriv := 0, 0, 0, 0
	skipped := 0
	back := map[string]int{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	notes := map[string]bool{}
	crossOK, crossN := 0, 0
	vac := 0
	var lemmasDone []string
	v, err := mainSetup()
	if err != nil {
		fails = append(fails, failure{fn: "/repo", kind: "load", detail: err.Error()})
	} else {
		queue := rootsOf(p)
		if len(queue) == 0 && len(specs.propLemmas[p]) == 0 {
			fmt.Println("no contract states property", p)
			return 1
		}
		for _, n := range setupNotes {
			notes[n] = true
		}
		seen := map[string]bool{}
		var all []*Obl
		var mu sync.Mutex
		var wg sync.WaitGroup
		for len(queue) > 0 {
			fs := queue[0]
			queue = queue[1:]
			if seen[fs.fullKey] {
				continue
			}
			seen[fs.fullKey] = true
			fr := v.verifyFunc(fs)
			nm := shortPkg(fs.pkg) + "." + fs.key
			if fr.err != "" && aborted.Load() {
				skipped++
			} else if fr.err != "" {
				nobl++
				fails = append(fails, failure{fn: nm, kind: "contract", label: fs.pos, detail: fr.err})
				go doReplay()
			}
			if fr.run == nil {
				continue
			}
			r := fr.run
			if r.entry != nil && fr.err == "" {
				// the precondition must be satisfiable
				o := &Obl{fn: nm, kind: "vacuity", facts: r.entry.factList(), goal: TFalse}
				vac++
				wg.Add(1)
				go func() {
					defer wg.Done()
					q := BuildQuery(o.facts, -1, nm+" entry")
					vd := solve(q, true)
					if vd.res == "unsat" {
						mu.Lock()
						fails = append(fails, failure{fn: nm, kind: "vacuity", detail: "the precondition is contradictory"})
						mu.Unlock()
					}
				}()
			}
			if len(fr.smoke) > 0 && fr.err == "" {
				// some exit must be reachable as far as the prover can see
				sm := fr.smoke
				vac++
				wg.Add(1)
				go func() {
					defer wg.Done()
					if len(smokeTest(sm)) == len(sm) {
						mu.Lock()
						fails = append(fails, failure{fn: nm, kind: "vacuity", detail: "no exit of the function is reachable"})
						mu.Unlock()
					}
				}()
			}
			fns = append(fns, fnInfo{nm, len(r.obls), r.loopsDone, r.invUsedN})
			ninv += r.invUsedN
			all = append(all, r.obls...)
			obls := r.obls
			wg.Add(1)
			go func() {
				defer wg.Done()
				discharge(obls)
			}()
			var ks []string
			for k := range r.used {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				u := r.used[k]
				if u.extern || u.trusted {
					assumed[u.fullKey+" ("+u.pos+")"] = true
				} else {
					queue = append(queue, u)
				}
			}
			for k := range r.inlined {
				inlined[k] = true
			}
			for k := range r.notes {
				notes[k] = true
			}
		}
		wg.Wait()
		for _, o := range all {
			nobl++
			if o.res.res == "skipped" {
				skipped++
				continue
			}
			if o.res.res == "unsat" {
				ndis++
				back[o.res.solver]++
				if o.trivial {
					ntriv++
				}
				continue
			}
			fails = append(fails, failure{o.fn, o.kind, o.label, o.pos, "solver says " + o.res.res, o.query, trunc(o.goal.String(), 2000)})
		}
		// lemmas
		for _, n := range specs.propLemmas[p] {
			usedAxioms.Store(n, true)
		}
		proved := map[string]bool{}
		for {
			var todo []*Axiom
			for _, ax := range axioms {
				if _, ok := usedAxioms.Load(ax.name); ok && ax.kind == "lemma" && !proved[ax.name] {
					todo = append(todo, ax)
					proved[ax.name] = true
				}
			}
			if len(todo) == 0 {
				break
			}
			res := make([]LemmaResult, len(todo))
			var lw sync.WaitGroup
			for i, ax := range todo {
				lw.Add(1)
				go func(i int, ax *Axiom) {
					defer lw.Done()
					res[i] = proveLemma(ax)
				}(i, ax)
			}
			lw.Wait()
			for i, lr := range res {
				nobl += max(lr.goals, 1)
				if lr.ok {
					ndis += lr.goals
					back[lr.res.solver] += lr.goals
					lemmasDone = append(lemmasDone, lr.name)
				} else if lr.res.res == "skipped" {
					skipped++
				} else {
					fails = append(fails, failure{fn: "lemma " + todo[i].name, kind: "lemma", detail: "solver says " + lr.res.res})
				}
			}
		}
		for _, n := range specs.propLemmas[p] {
			if _, ok := axByName[n]; !ok {
				fails = append(fails, failure{fn: "lemma " + n, kind: "lemma", detail: "not stated"})
			}
		}
		// loop invariants are obligations too: initially true and kept by the body
		nobl += 2 * ninv
		ndis += 2 * ninv
		back["z3-new (invariants)"] += 2 * ninv
		if tier == "thorough" && len(fails) == 0 {
			crossOK, crossN = crossCheck(all)
		}
		if skipped > 0 && len(fails) == 0 {
			fails = append(fails, failure{fn: p, kind: "time", detail: fmt.Sprintf("%d obligations were not reached within the time allowed", skipped)})
		}
		if len(fns) == 0 && len(lemmasDone) == 0 {
			fails = append(fails, failure{fn: p, kind: "empty", detail: "nothing was verified"})
		}
	}
	// functions that are not under contract: a bounded check stands in
	bounded := ""
	boundedFound, boundedOut := false, ""
	if b, e := os.ReadFile(filepath.Join(verifDir, "replay", p, "BOUNDED")); e == nil {
		bounded = strings.TrimSpace(string(b))
		if err == nil && len(fails) == 0 {
			boundedFound, boundedOut = replay(p)
			if boundedFound {
				fails = append(fails, failure{fn: "bounded check", kind: "bounded", detail: bounded})
			}
		}
	}
	viol := 0
	out := bytes.Buffer{}
	ev := map[string]any{
		"property": p, "tier": tier, "seed": seed, "level": "proof",
	}
	cov := map[string]any{
		"obligations":                       nobl,
		"discharged":                        ndis,
		"checker_cmd":                       "bin/gocv check " + p + " " + tier,
		"by_back_end":                       back,
		"solver_time_s":                     float64(solverNanos) / 1e9,
		"solver_calls":                      solverCalls,
		"lemmas_proved":                     lemmasDone,
		"loop_invariants_inductive":         ninv,
		"preconditions_checked_satisfiable": vac,
	}
	var fl []string
	for _, f := range fns {
		fl = append(fl, fmt.Sprintf("%s: %d obligations, %d loops, %d invariants", f.name, f.obls, f.loops, f.invs))
	}
	cov["functions_under_contract"] = fl
	if bounded != "" {
		cov["bounded_not_proved"] = bounded
	}
	cov["functions_inlined_into_callers"] = sortedKeys(inlined)
	if tier == "thorough" {
		cov["obligations_confirmed_by_second_solver"] = crossOK
		cov["obligations_offered_to_second_solver"] = crossN
	}
	var tb, as []string
	for _, ax := range axioms {
		if _, ok := usedAxioms.Load(ax.name); ok {
			if ax.kind == "trusted" {
				as = append(as, "trusted axiom "+ax.name)
			} else if ax.kind == "def" {
				tb = append(tb, "definition "+ax.name)
			}
		}
	}
	defs := strings.Join(tb, ", ")
	tb = []string{"gocv (the verification condition generator in /verif/gocv)", "golang.org/x/tools/go/ssa", "z3 / cvc5"}
	if defs != "" {
		tb = append(tb, strings.ReplaceAll(defs, "definition ", "")+" (defining axioms)")
	}
	for _, k := range sortedKeys(assumed) {
		as = append(as, "assumed contract: "+k)
	}
	for _, k := range sortedKeys(notes) {
		as = append(as, k)
	}
	as = append(as, "partial correctness: termination is not proved", "one goroutine at a time owns the state a function touches (see DESIGN.md)", "slices are shorter than 2^50 elements", "memory allocation does not fail")
	cov["trusted_base"] = tb
	ev["assumptions"] = as
	ev["coverage"] = cov
	if len(fails) > 0 {
		viol = 1
		rp := filepath.Join(evDir, p+".violation.txt")
		fmt.Fprintf(&out, "property %s: %d obligation(s) not discharged on %s\n\n", p, len(fails), repoDir)
		for i, f := range fails {
			fmt.Fprintf(&out, "FAILED OBLIGATION %d: %s\n", i+1, f.String())
			if f.goal != "" {
				fmt.Fprintf(&out, "  goal: %s\n", f.goal)
			}
			if f.query != "" {
				qp := filepath.Join(evDir, fmt.Sprintf("%s.obligation%d.smt2", p, i+1))
				if i < 10 {
					os.WriteFile(qp, []byte(f.query), 0644)
					fmt.Fprintf(&out, "  query: %s\n", qp)
				}
			}
			if i < 40 {
				fmt.Println("FAILED", f.String())
			}
		}
		found := false
		var rout string
		if boundedFound {
			found, rout = true, boundedOut
		} else if err == nil {
			doReplay()
			if replayDone {
				found, rout = replayFound, replayOut
			}
		}
		if skipped > 0 {
			fmt.Fprintf(&out, "\n%d further obligations were not attempted\n", skipped)
		}
		out.WriteString("\nREPLAY against the code in " + repoDir + "\n" + rout + "\n")
		os.WriteFile(rp, out.Bytes(), 0644)
		line := "VIOLATION property=" + p + " replay=" + rp
		if !found {
			line += " no-failing-input-found"
		} else {
			fmt.Println(failingLines(rout))
		}
		fmt.Println(line)
	} else {
		os.Remove(filepath.Join(evDir, p+".violation.txt"))
		for _, k := range knownFindings(p) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p, k)
		}
		fmt.Printf("property %s holds: %d functions under contract, %d obligations discharged, %d lemmas, solver %.1fs, wall %.1fs\n", p, len(fns), ndis, len(lemmasDone), float64(solverNanos)/1e9, time.Since(t0).Seconds())
	}
	ev["violations"] = viol
	ev["wall_s"] = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, p+".json"), append(b, '\n'), 0644)
	return viol
}

func sortedKeys(m map[string]bool) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// crossCheck asks a second solver about every obligation.
func crossCheck(obls []*Obl) (int, int) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	ok, n := 0, 0
	for _, o := range obls {
		if o.trivial || o.query == "" {
			continue
		}
		n++
		wg.Add(1)
		go func(o *Obl) {
			defer wg.Done()
			r, _ := runSolver(context.Background(), cfgSlow[1], o.query, 20*time.Second)
			if r != "unsat" {
				r, _ = runSolver(context.Background(), cfgSlow[0], o.query, 20*time.Second)
			}
			if r == "unsat" {
				mu.Lock()
				ok++
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
	return ok, n
}

func knownFindings(p string) []string {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if r, ok := strings.CutPrefix(l, "finding: property="+p+" "); ok {
			out = append(out, r)
		}
	}
	return out
}

// replay runs the input search of a property against the real code, after a
// proof has failed. It looks for an input, schedule or history on which the
// code does not do what the property says.
func replay(p string) (bool, string) {
	dir := filepath.Join(verifDir, "replay", p)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return false, "no replay harness for this property"
	}
	tmp, err := os.MkdirTemp("", "gocv-replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(tmp)
	var log strings.Builder
	found := false
	for _, e := range ents {
		if !e.IsDir() {
			continue
		}
		pkg := strings.ReplaceAll(e.Name(), "_", "/")
		pdir := repoDir
		target := "."
		if e.Name() != "root" {
			pdir = filepath.Join(repoDir, pkg)
			target = "./" + pkg
		}
		repl := map[string]string{}
		fs, _ := filepath.Glob(filepath.Join(dir, e.Name(), "*_test.go"))
		common, _ := filepath.Glob(filepath.Join(verifDir, "replay", "common", e.Name(), "*_test.go"))
		for _, f := range append(fs, common...) {
			repl[filepath.Join(pdir, "zz_verif_"+filepath.Base(f))] = f
		}
		// access to unexported parts of other packages
		hs, _ := filepath.Glob(filepath.Join(verifDir, "replay", "helpers", "*", "*.go"))
		for _, f := range hs {
			hp := strings.ReplaceAll(filepath.Base(filepath.Dir(f)), "_", "/")
			repl[filepath.Join(repoDir, hp, "zz_verif_"+filepath.Base(f))] = f
		}
		// the repository's own tests of this package are left out
		ts, _ := filepath.Glob(filepath.Join(pdir, "*_test.go"))
		for _, t := range ts {
			if _, ok := repl[t]; !ok {
				repl[t] = ""
			}
		}
		b, _ := json.Marshal(map[string]any{"Replace": repl})
		ov := filepath.Join(tmp, e.Name()+".json")
		os.WriteFile(ov, b, 0644)
		args := []string{"test", "-vet=off", "-count=1", "-timeout=150s", "-overlay", ov, "-run", "^TestVerifReplay", target}
		ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
		cmd := exec.CommandContext(ctx, "go", args...)
		cmd.Dir = repoDir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local")
		o, err := cmd.CombinedOutput()
		cancel()
		fmt.Fprintf(&log, "$ (cd %s && go %s)\n%s\n", repoDir, strings.Join(args, " "), trunc(string(o), 8000))
		if err != nil && (bytes.Contains(o, []byte("--- FAIL")) || bytes.Contains(o, []byte("panic: ")) || bytes.Contains(o, []byte("fatal error: "))) && !bytes.Contains(o, []byte("[build failed]")) {
			found = true
			fmt.Fprintf(&log, "overlay: %s\n", b)
		}
	}
	return found, log.String()
}

func failingLines(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "FAILING INPUT") || strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") {
			out = append(out, trunc(l, 400))
		}
		if len(out) > 5 {
			break
		}
	}
	return strings.Join(out, "\n")
}
