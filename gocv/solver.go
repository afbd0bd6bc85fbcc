package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Symbols, axioms and queries.

type FunDecl struct {
	name string
	args []Sort
	ret  Sort
}

type Axiom struct {
	name   string
	kind   string // "def" (definition / model of a type), "lemma" (proved on every run), "trusted"
	body   *Term
	pats   [][]string // symbol sets, one per alternative pattern
	syms   map[string]bool
	proof  *LemmaProof
	file   string
	always bool
	aside  bool // only for lemmas
}

var (
	funs           = map[string]*FunDecl{}
	sortsDecl      []string           // uninterpreted sorts
	dtypes         []string           // raw datatype declarations, in order
	dtypeSorts     = map[string]int{} // sort -> index into dtypes
	sortIsUninterp = map[string]bool{}
	axioms         []*Axiom
	axByName       = map[string]*Axiom{}
)

// Declarations are made by the goroutine that executes the functions, while
// others build queries.
var declMu sync.RWMutex
var declDepth int

func lockDecl() {
	if declDepth == 0 {
		declMu.Lock()
	}
	declDepth++
}

func unlockDecl() {
	declDepth--
	if declDepth == 0 {
		declMu.Unlock()
	}
}

func declFun(name string, ret Sort, args ...Sort) {
	if old, ok := funs[name]; ok {
		if old.ret != ret || strings.Join(old.args, ",") != strings.Join(args, ",") {
			panic("redeclared " + name)
		}
		return
	}
	lockDecl()
	defer unlockDecl()
	funs[name] = &FunDecl{name, args, ret}
}

type symset struct {
	consts map[string]Sort
	strs   map[string]bool
	funs   map[string]bool // incl. box!/unbox!
	boxes  map[string][2]Sort
	sorts  map[Sort]bool
	seen   map[*Term]bool
}

func newSymset() *symset {
	return &symset{map[string]Sort{}, map[string]bool{}, map[string]bool{}, map[string][2]Sort{}, map[Sort]bool{}, map[*Term]bool{}}
}
func (s *symset) add(t *Term) {
	if s.seen[t] {
		return
	}
	s.seen[t] = true
	s.sorts[t.sort] = true
	switch t.op {
	case "#const":
		s.consts[t.lit] = t.sort
	case "#str":
		s.strs[t.lit] = true
	case "#bv", "#int":
	case "box":
		n := "box!" + t.lit
		s.funs[n] = true
		s.funs["box"] = true
		s.boxes[t.lit] = [2]Sort{t.args[0].sort, SInt}
	case "unbox":
		s.funs["unbox!"+t.lit] = true
		s.boxes[t.lit] = [2]Sort{t.sort, SInt}
	default:
		s.funs[t.op] = true
	}
	for _, v := range t.vars {
		s.sorts[v.sort] = true
	}
	for _, p := range t.pats {
		for _, x := range p {
			s.add(x)
		}
	}
	for _, a := range t.args {
		s.add(a)
	}
}

var builtinOps = map[string]bool{"not": true, "and": true, "or": true, "=>": true, "ite": true, "=": true, "<=": true, "+": true, "*": true, "select": true, "store": true, "true": true, "false": true, "forall": true, "exists": true, "constarr": true, "div": true, "mod": true, "distinct": true, "box": true}

func baseSorts(s Sort, f func(Sort)) {
	if a, b, ok := arrParts(s); ok {
		baseSorts(a, f)
		baseSorts(b, f)
		return
	}
	f(s)
}

// BuildQuery renders the satisfiability query for the conjunction of asserts.
// exclude: names of lemmas that may not be used (and all later ones).
func BuildQuery(asserts []*Term, axLimit int, comment string) string {
	declMu.RLock()
	defer declMu.RUnlock()
	ss := newSymset()
	for _, a := range asserts {
		ss.add(a)
	}
	included := map[int]bool{}
	n := len(axioms)
	if axLimit >= 0 && axLimit < n {
		n = axLimit
	}
	for {
		ch := false
		for i := 0; i < n; i++ {
			if included[i] {
				continue
			}
			ax := axioms[i]
			if ax.aside && axLimit < 0 {
				continue
			}
			ok := ax.always
			for _, p := range ax.pats {
				all := true
				for _, f := range p {
					if !ss.funs[f] {
						all = false
						break
					}
				}
				if all {
					ok = true
					break
				}
			}
			if ok {
				if _, done := usedAxioms.Load(ax.name); !done {
					usedAxioms.Store(ax.name, true)
				}
				included[i] = true
				ss.add(ax.body)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	var b strings.Builder
	b.WriteString("; " + strings.ReplaceAll(comment, "\n", "\n; ") + "\n")
	// sorts
	needDT := map[int]bool{}
	needU := map[string]bool{}
	var needSort func(s Sort)
	needSort = func(s Sort) {
		baseSorts(s, func(x Sort) {
			if i, ok := dtypeSorts[x]; ok {
				if !needDT[i] {
					needDT[i] = true
					for c, cs := range ctorSort {
						if cs == x {
							if d, ok := funs[c]; ok {
								for _, y := range d.args {
									needSort(y)
								}
							}
						}
					}
				}
				return
			}
			if x != "Int" && x != "Bool" && x != "Real" {
				needU[x] = true
			}
		})
	}
	for s := range ss.sorts {
		needSort(s)
	}
	var fnames []string
	for f := range ss.funs {
		if d, ok := funs[f]; ok {
			for _, a := range d.args {
				needSort(a)
			}
			needSort(d.ret)
			fnames = append(fnames, f)
		} else if !builtinOps[f] && !strings.HasPrefix(f, "is-") && !strings.HasPrefix(f, "box!") && !strings.HasPrefix(f, "unbox!") && !distinctCtors[f] {
			if _, ok := selOf[f]; !ok {
				panic("undeclared function " + f)
			}
		}
	}
	if len(ss.strs) > 0 {
		needSort(SStr)
	}
	for _, s := range ss.consts {
		needSort(s)
	}
	for _, bx := range ss.boxes {
		needSort(bx[0])
	}
	var us []string
	for u := range needU {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", u)
	}
	for i, d := range dtypes {
		if needDT[i] {
			b.WriteString(d + "\n")
		}
	}
	sort.Strings(fnames)
	for _, f := range fnames {
		d := funs[f]
		if distinctCtors[f] {
			continue
		}
		if _, ok := selOf[f]; ok {
			continue
		}
		fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", symq(f), strings.Join(d.args, " "), d.ret)
	}
	var bxs []string
	for k := range ss.boxes {
		bxs = append(bxs, k)
	}
	sort.Strings(bxs)
	for _, k := range bxs {
		s := ss.boxes[k][0]
		fmt.Fprintf(&b, "(declare-fun %s (%s) Int)\n(declare-fun %s (Int) %s)\n", symq("box!"+k), s, symq("unbox!"+k), s)
		fmt.Fprintf(&b, "(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))\n", s, symq("unbox!"+k), symq("box!"+k), symq("box!"+k))
	}
	var cs []string
	for c := range ss.consts {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		fmt.Fprintf(&b, "(declare-const %s %s)\n", symq(c), ss.consts[c])
	}
	var fns []string
	for _, c := range cs {
		if strings.HasPrefix(c, "fn!") {
			fns = append(fns, symq(c))
		}
	}
	if len(fns) > 0 {
		fmt.Fprintf(&b, "(assert (distinct 0 %s))\n", strings.Join(fns, " "))
	}
	var strs []string
	for s := range ss.strs {
		strs = append(strs, s)
	}
	sort.Strings(strs)
	for _, s := range strs {
		fmt.Fprintf(&b, "(declare-const %s Str)\n", strName(s))
		if ss.funs["slen"] {
			fmt.Fprintf(&b, "(assert (= (slen %s) %d))\n", strName(s), len(s))
		}
		if ss.funs["sat"] {
			for i := 0; i < len(s) && i < 40; i++ {
				fmt.Fprintf(&b, "(assert (= (sat %s %d) %d))\n", strName(s), i, s[i])
			}
		}
		for _, lf := range litFuns {
			if ss.funs[lf.name] {
				b.WriteString(lf.emit(s, strs))
			}
		}
	}
	if len(strs) > 1 {
		b.WriteString("(assert (distinct")
		for _, s := range strs {
			b.WriteString(" " + strName(s))
		}
		b.WriteString("))\n")
	}
	for i := 0; i < n; i++ {
		if included[i] {
			b.WriteString("(assert " + axioms[i].body.String() + ") ; " + axioms[i].name + "\n")
		}
	}
	// asserts with sharing
	refs := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	names := map[*Term]string{}
	for _, t := range order {
		if refs[t] > 1 && len(t.args) > 0 && !t.bound && t.size > 4 {
			var d strings.Builder
			wr1(&d, t, names)
			nm := fmt.Sprintf("t$%d", t.id)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", nm, t.sort, d.String())
			names[t] = nm
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		wr(&b, a, names)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

type litFun struct {
	name string
	emit func(s string, all []string) string
}

var litFuns []litFun

// ---- running solvers

type solverCfg struct {
	name string
	args []string
	pre  string
}

const z3pre = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

var cfgFast = solverCfg{"z3-new", []string{"z3-new", "-in"}, z3pre}
var cfgSlow = []solverCfg{
	{"z3-4.8", []string{"z3", "-in"}, z3pre},
	{"cvc5", []string{"cvc5", "--lang", "smt2", "-q"}, "(set-logic ALL)\n"},
	{"z3-4.8/mbqi", []string{"z3", "-in"}, ""},
	{"z3-new/mbqi", []string{"z3-new", "-in"}, ""},
	{"z3-new/seed", []string{"z3-new", "-in"}, z3pre + "(set-option :smt.random_seed 7)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 50)\n"},
}
var cfgModel = solverCfg{"z3-new/mbqi", []string{"z3-new", "-in"}, "(set-option :model.completion true)\n"}

var solverSem = make(chan struct{}, 9)
var solverNanos int64
var solverCalls int64

// no solver runs while the replay harness runs: it watches the clock
var machine sync.RWMutex

// aborted: the outcome is known, nothing more has to be proved
var aborted atomic.Bool
var deadline time.Time

// failedFull: obligations that were given up with full effort
var failedFull atomic.Int64
var maxFull = int64(6)

// tooBig: the verification conditions no longer fit
var tooBig atomic.Bool

func watchMemory() {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 9<<30 {
				tooBig.Store(true)
			}
		}
	}()
}

func giveUp() bool {
	return aborted.Load() || (!deadline.IsZero() && time.Now().After(deadline))
}

func runSolver(ctx context.Context, cfg solverCfg, q string, to time.Duration) (string, string) {
	machine.RLock()
	defer machine.RUnlock()
	if giveUp() {
		return "skipped", ""
	}
	select {
	case solverSem <- struct{}{}:
	case <-ctx.Done():
		return "unknown", "cancelled"
	}
	defer func() { <-solverSem }()
	cctx, cancel := context.WithTimeout(ctx, to)
	defer cancel()
	cmd := exec.CommandContext(cctx, cfg.args[0], cfg.args[1:]...)
	cmd.Stdin = strings.NewReader(cfg.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	err := cmd.Run()
	atomic.AddInt64(&solverNanos, int64(time.Since(t0)))
	atomic.AddInt64(&solverCalls, 1)
	s := strings.TrimSpace(out.String())
	first := s
	for _, l := range strings.Split(s, "\n") {
		if l == "unsat" || l == "sat" || l == "unknown" {
			first = l
			break
		}
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, s
	}
	if cctx.Err() != nil {
		return "timeout", s
	}
	if strings.Contains(s, "error") || err != nil {
		return "error", s
	}
	return "unknown", s
}

type Verdict struct {
	res    string // unsat / sat / unknown / timeout / error
	solver string
	out    string
}

var vcache sync.Map
var thorough bool

var fastTO = 2 * time.Second
var slowTO = 10 * time.Second

// Prove checks that asserts are unsatisfiable. quick: only the fast solver.
func solve(q string, quick bool) Verdict {
	key := q
	if v, ok := vcache.Load(key); ok {
		vv := v.(Verdict)
		if vv.res == "unsat" || quick {
			return vv
		}
	}
	r, out := runSolver(context.Background(), cfgFast, q, fastTO)
	v := Verdict{r, cfgFast.name, out}
	if r == "error" {
		dumpBad(q, out)
	}
	if r == "skipped" {
		return v
	}
	if r == "unsat" || quick {
		vcache.Store(key, v)
		return v
	}
	if failedFull.Load() >= maxFull && !thorough {
		// the property is not proved anyway
		return v
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan Verdict, len(cfgSlow))
	for _, c := range cfgSlow {
		go func(c solverCfg) {
			r, o := runSolver(ctx, c, q, slowTO)
			ch <- Verdict{r, c.name, o}
		}(c)
	}
	for range cfgSlow {
		w := <-ch
		if w.res == "unsat" {
			vcache.Store(key, w)
			return w
		}
		if v.res != "sat" && w.res == "sat" {
			v = w
		}
	}
	return v
}

var dumpN int64

func dumpBad(q, out string) {
	n := atomic.AddInt64(&dumpN, 1)
	if n > 5 {
		return
	}
	p := filepath.Join(os.TempDir(), fmt.Sprintf("gocv-bad-%d-%d.smt2", os.Getpid(), n))
	os.WriteFile(p, []byte(q), 0644)
	if len(out) > 600 {
		out = out[:600]
	}
	fmt.Fprintf(os.Stderr, "solver error (%s): %s\n", p, out)
}
