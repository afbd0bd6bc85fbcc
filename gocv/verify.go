package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Verifier: the loaded program.
type Verifier struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*types.Package
	repoPkgs  []*ssa.Package
	fnByKey   map[string]*ssa.Function
	gIdx      map[string][]*GhostField
	viewNames []string
	escaped   map[string]bool // globals whose address is taken
	mutable   map[string]bool // globals stored to outside init
	inits     map[*ssa.Package]*State
	allocs    map[*ssa.Function]map[string]bool // what a function may allocate
}

var curProp string // property being checked ("" = all)

func (c *Clause) relevant() bool {
	if len(c.tags) == 0 || curProp == "" {
		return true
	}
	for _, t := range c.tags {
		if t == curProp {
			return true
		}
	}
	return false
}

func sortStrings(s []string) { sort.Strings(s) }

func LoadProgram(dir string) (*Verifier, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Fset: fset, Tests: false,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	v := &Verifier{fset: fset, prog: prog, pkgs: map[string]*types.Package{}, fnByKey: map[string]*ssa.Function{}, escaped: map[string]bool{}, mutable: map[string]bool{}, inits: map[*ssa.Package]*State{}}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if v.pkgs[p.Path()] != nil {
			return
		}
		v.pkgs[p.Path()] = p
		for _, q := range p.Imports() {
			walk(q)
		}
	}
	for _, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("package without SSA")
		}
		p.Build()
		v.repoPkgs = append(v.repoPkgs, p)
		walk(p.Pkg)
	}
	for n := range specs.views {
		v.viewNames = append(v.viewNames, n)
	}
	sort.Strings(v.viewNames)
	v.scanFuncs()
	return v, nil
}

func (v *Verifier) scanFuncs() {
	all := ssautil.AllFunctions(v.prog)
	// functions stored in fields of package variables are known by that name
	for _, p := range v.repoPkgs {
		init := p.Func("init")
		var scan func(fn *ssa.Function)
		seen := map[*ssa.Function]bool{}
		scan = func(fn *ssa.Function) {
			if fn == nil || seen[fn] {
				return
			}
			seen[fn] = true
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Store:
						fa, ok := x.Addr.(*ssa.FieldAddr)
						if !ok {
							continue
						}
						g, ok := fa.X.(*ssa.Global)
						if !ok {
							continue
						}
						f := structOf(g.Type().(*types.Pointer).Elem()).Field(fa.Field)
						var fv *ssa.Function
						switch y := x.Val.(type) {
						case *ssa.Function:
							fv = y
						case *ssa.MakeClosure:
							fv = y.Fn.(*ssa.Function)
						}
						if fv != nil {
							fnAlias[fv] = p.Pkg.Path() + "." + g.Name() + "." + f.Name()
						}
					case *ssa.Call:
						if c := x.Call.StaticCallee(); c != nil && c.Pkg == p && strings.HasPrefix(c.Name(), "init#") {
							scan(c)
						}
					}
				}
			}
		}
		scan(init)
	}
	for fn := range all {
		if fn.Pkg == nil || !isRepoPkg(fn.Pkg.Pkg) {
			continue
		}
		if fn.Synthetic != "" && fn.Synthetic != "package initializer" {
			continue
		}
		v.fnByKey[fnKey(fn)] = fn
	}
	v.matchRenamed()
	for fn := range all {
		if fn.Pkg == nil || !isRepoPkg(fn.Pkg.Pkg) {
			continue
		}
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range in.Operands(ops) {
					g, ok := (*o).(*ssa.Global)
					if !ok {
						continue
					}
					k := g.Pkg.Pkg.Path() + "." + g.Name()
					switch x := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if x.Addr == ssa.Value(g) && x.Val != ssa.Value(g) {
							if !isInit {
								v.mutable[k] = true
							}
							continue
						}
					case *ssa.FieldAddr:
						ok := true
						for _, u := range *x.Referrers() {
							switch y := u.(type) {
							case *ssa.UnOp:
							case *ssa.Store:
								if y.Addr != ssa.Value(x) || !isInit {
									ok = false
								}
							default:
								ok = false
							}
						}
						if ok {
							continue
						}
						v.mutable[k] = true
						continue
					case *ssa.DebugRef:
						continue
					}
					v.escaped[k] = true
					v.mutable[k] = true
				}
			}
		}
	}
}

// initGlobals executes the package initializer, so that package variables that
// are never assigned again have their initial values.
func (r *Run) initGlobals(st *State) {
	var p *ssa.Package
	if r.fn != nil {
		p = r.fn.Pkg
	}
	if p == nil {
		return
	}
	init := p.Func("init")
	if init == nil || init.Blocks == nil {
		return
	}
	r.mute++
	savedSpec := r.spec
	r.spec = nil
	defer func() { r.mute--; r.spec = savedSpec }()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if u, ok := e.(unsupportedErr); ok {
					r.notes["package initializer not executed: "+u.msg] = true
					return
				}
				panic(e)
			}
		}()
		s := st.clone()
		if g, ok := p.Members["init$guard"].(*ssa.Global); ok {
			s.assume(Not(r.hget(s, globalHeap(g).name)))
		}
		ex := r.execFn(init, nil, nil, s)
		r.stack = nil
		var best *State
		for _, e := range ex {
			if best == nil || e.st.facts.n > best.facts.n {
				best = e.st
			}
		}
		if best != nil {
			r.initState = best
			*st = *best.clone()
		}
	}()
	r.visitedBlocks = map[*ssa.BasicBlock]bool{}
}

func (r *Run) entryGlobals(st *State) {
	init := r.initState
	st.heap = map[string]*Term{}
	st.hown = true
	if init == nil {
		return
	}
	p := r.fn.Pkg
	for _, m := range p.Members {
		g, ok := m.(*ssa.Global)
		if !ok || g.Name() == "init$guard" {
			continue
		}
		k := p.Pkg.Path() + "." + g.Name()
		if r.v.mutable[k] {
			continue
		}
		t := g.Type().(*types.Pointer).Elem()
		if isStruct(t) && !isOpaqueStruct(t) {
			ref := globalRef(g)
			u := structOf(t)
			for i := 0; i < u.NumFields(); i++ {
				h := fieldHeap(t, u.Field(i))
				val := Select(r.hget(init, h.name), ref)
				r.hset(st, h.name, Store(r.hget(st, h.name), ref, val))
			}
			continue
		}
		h := globalHeap(g)
		val := r.hget(init, h.name)
		r.hset(st, h.name, val)
		if isByteSlice(t) {
			b := slcBase(val)
			B := elemHeap(types.Typ[types.Uint8]).name
			st.assume(Eq(Select(r.hget(st, B), b), Select(r.hget(init, B), b)))
		}
	}
	for n, t := range init.heap {
		if !strings.HasPrefix(n, "H:") {
			continue
		}
		for t.op == "store" {
			st.assume(Eq(Select(r.hget(st, n), t.args[1]), t.args[2]))
			t = t.args[0]
		}
	}
}

// ---- axioms and lemmas

func (v *Verifier) installAxioms() {
	for _, ra := range rawAxioms {
		r := v.newRun(nil, nil, ra.pkg)
		c := &specCtx{r: r, pkg: ra.pkg, env: map[string]SVal{}}
		noSimp = true
		body := c.boolT(ra.n)
		noSimp = false
		addAxiom(&Axiom{name: ra.name, kind: ra.kind, body: body, proof: ra.proof, file: ra.file, aside: ra.aside})
	}
}

type LemmaResult struct {
	name  string
	ok    bool
	res   Verdict
	goals int
}

func axIndex(ax *Axiom) int {
	for i, a := range axioms {
		if a == ax {
			return i
		}
	}
	return -1
}

func proveLemma(ax *Axiom) LemmaResult {
	lr := LemmaResult{name: ax.name, ok: true}
	lim := axIndex(ax)
	body := ax.body
	var qs []string
	if ax.proof.method == "native" {
		qs = append(qs, nativeQuery(ax))
		r, out := runSolver(bgctx, cfgNative, qs[0], slowTO*3)
		lr.goals = 1
		lr.res = Verdict{r, cfgNative.name, out}
		lr.ok = r == "unsat"
		return lr
	}
	var vars []*Term
	var pats [][]*Term
	if body.op == "forall" {
		vars = body.vars
		pats = body.pats
		body = body.args[0]
	}
	skolem := func(except *Term, b *Term) *Term {
		m := map[*Term]*Term{}
		for _, x := range vars {
			if x != except {
				m[x] = Const("sk!"+x.lit, x.sort)
			}
		}
		return Subst(b, m)
	}
	add := func(hyps []*Term, goal *Term) {
		qs = append(qs, BuildQuery(append(hyps, Not(goal)), lim, "lemma "+ax.name))
	}
	switch ax.proof.method {
	case "direct":
		add(nil, skolem(nil, body))
	case "induction":
		var x *Term
		for _, y := range vars {
			if strings.HasPrefix(y.lit, ax.proof.vars[0]+"$") {
				x = y
			}
		}
		if x == nil {
			lr.ok = false
			lr.res = Verdict{"error", "", "no variable " + ax.proof.vars[0]}
			return lr
		}
		ih := func(val *Term, guard *Term) *Term {
			m := map[*Term]*Term{x: val}
			var ovars []*Term
			for _, y := range vars {
				if y != x {
					ovars = append(ovars, y)
				}
			}
			b := Imp(guard, Subst(body, m))
			if len(ovars) == 0 {
				return b
			}
			var ps [][]*Term
			for _, p := range pats {
				var q []*Term
				for _, t := range p {
					q = append(q, Subst(t, m))
				}
				ps = append(ps, q)
			}
			return Forall(ovars, ps, b)
		}
		if x.sort == SInt {
			n0 := Const("sk!"+x.lit, SInt)
			m := BVar("ih", SInt)
			var ovars []*Term
			for _, y := range vars {
				if y != x {
					ovars = append(ovars, y)
				}
			}
			sub := map[*Term]*Term{x: m}
			var ps [][]*Term
			for _, p := range pats {
				var q []*Term
				for _, t := range p {
					q = append(q, Subst(t, sub))
				}
				ps = append(ps, q)
			}
			h := Forall(append([]*Term{m}, ovars...), ps, Imp(And(Le(TZero, m), Lt(m, n0)), Subst(body, sub)))
			add([]*Term{h}, Subst(skolem(x, body), map[*Term]*Term{x: n0}))
		} else if x.sort == SStr {
			// texts are finite sequences of bytes: "" or a byte followed by a shorter text
			add(nil, Subst(skolem(x, body), map[*Term]*Term{x: StrLit("")}))
			c, t := Const("sk!"+x.lit+".c", SInt), Const("sk!"+x.lit+".t", SStr)
			v := Cat(App("schr", SStr, c), t)
			add([]*Term{Le(TZero, c), Lt(c, IntLit(256)), ih(t, TTrue)}, Subst(skolem(x, body), map[*Term]*Term{x: v}))
		} else {
			var ctors []string
			for c, s := range ctorSort {
				if s == x.sort {
					ctors = append(ctors, c)
				}
			}
			sort.Strings(ctors)
			if len(ctors) == 0 {
				lr.ok = false
				lr.res = Verdict{"error", "", "induction over " + x.sort}
				return lr
			}
			for _, c := range ctors {
				var as, hyps []*Term
				for i, s := range funs[c].args {
					a := Const(fmt.Sprintf("sk!%s.%d", c, i), s)
					as = append(as, a)
					if s == x.sort {
						hyps = append(hyps, ih(a, TTrue))
					}
				}
				add(hyps, Subst(skolem(x, body), map[*Term]*Term{x: App(c, x.sort, as...)}))
			}
		}
	}
	lr.goals = len(qs)
	for _, q := range qs {
		v := solve(q, false)
		lr.res = v
		if v.res != "unsat" {
			lr.ok = false
			if os.Getenv("GOCV_DUMP") != "" {
				os.WriteFile("/tmp/lemma-"+ax.name+".smt2", []byte(q), 0644)
			}
			return lr
		}
	}
	return lr
}

// nativeQuery states a lemma about strings in the solver's own theory of strings.
func nativeQuery(ax *Axiom) string {
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString("(define-fun slen ((s String)) Int (str.len s))\n(define-fun scat ((a String) (b String)) String (str.++ a b))\n(define-fun ssub ((s String) (o Int) (n Int)) String (str.substr s o n))\n(define-fun sat ((s String) (i Int)) Int (str.to_code (str.at s i)))\n")
	b.WriteString("(define-fun schr ((c Int)) String (str.from_code c))\n(define-fun snone ((s String) (c Int)) Bool (not (str.contains s (str.from_code c))))\n(define-fun sidx ((s String) (c Int)) Int (str.indexof s (str.from_code c) 0))\n")
	body := ax.body
	m := map[*Term]*Term{}
	if body.op == "forall" {
		for _, x := range body.vars {
			s := x.sort
			if s == SStr {
				s = "String"
			}
			fmt.Fprintf(&b, "(declare-const %s %s)\n", symq("n!"+x.lit), s)
			m[x] = Const("n!"+x.lit, x.sort)
		}
		body = Subst(body.args[0], m)
	}
	ss := newSymset()
	ss.add(body)
	var lits []string
	for s := range ss.strs {
		lits = append(lits, s)
	}
	sort.Strings(lits)
	for _, s := range lits {
		var e strings.Builder
		for i := 0; i < len(s); i++ {
			fmt.Fprintf(&e, "\\u{%x}", s[i])
		}
		fmt.Fprintf(&b, "(define-fun %s () String \"%s\")\n", strName(s), e.String())
	}
	b.WriteString("(assert (not " + body.String() + "))\n(check-sat)\n")
	return b.String()
}

// ---- discharge

func splitGoal(g *Term, out *[]*Term) {
	switch g.op {
	case "and":
		for _, a := range g.args {
			splitGoal(a, out)
		}
		return
	case "=>":
		var in []*Term
		splitGoal(g.args[1], &in)
		if len(in) > 1 {
			for _, x := range in {
				*out = append(*out, Imp(g.args[0], x))
			}
			return
		}
	}
	*out = append(*out, g)
}

// onFailure is told when an obligation could not be discharged
var onFailure func()

func discharge(obls []*Obl) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 10)
	for _, o := range obls {
		if o.trivial {
			o.res = Verdict{"unsat", "simplifier", ""}
			continue
		}
		q := BuildQuery(append(append([]*Term(nil), o.facts...), Not(o.goal)), -1, o.fn+" "+o.kind+" "+o.label+" "+o.pos)
		wg.Add(1)
		go func(o *Obl, q string) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			o.query = q
			o.res = solve(q, o.goal == TFalse)
			if o.res.res != "unsat" {
				var parts []*Term
				splitGoal(o.goal, &parts)
				if len(parts) > 1 {
					all := true
					for _, p := range parts {
						pq := BuildQuery(append(append([]*Term(nil), o.facts...), Not(p)), -1, o.fn+" "+o.kind+" "+o.label+" (part)")
						v := solve(pq, false)
						if v.res != "unsat" {
							o.res = v
							o.query = pq
							o.goal = p
							all = false
							break
						}
						o.res = v
					}
					if all {
						return
					}
				}
				if o.res.res != "skipped" {
					failedFull.Add(1)
					if onFailure != nil {
						onFailure()
					}
				}
			}
		}(o, q)
	}
	wg.Wait()
}

// sigOf: the types of a function's parameters and results.
func sigOf(fn *ssa.Function) string {
	var b strings.Builder
	for _, tu := range []*types.Tuple{fn.Signature.Params(), fn.Signature.Results()} {
		b.WriteString("(")
		for i := 0; i < tu.Len(); i++ {
			b.WriteString(types.TypeString(types.Unalias(tu.At(i).Type()), nil) + ";")
		}
		b.WriteString(")")
	}
	if fn.Signature.Variadic() {
		b.WriteString("...")
	}
	return b.String()
}

var setupNotes []string

// matchRenamed: contracts/functions.lst lists the functions that the contracts
// were written for. A function with a contract that is gone, where exactly one
// function with its receiver and signature is new, was renamed: the contract
// is that of the new one. Where there is none, an unexported function was
// inlined or merged, and its callers are verified without the contract.
func (v *Verifier) matchRenamed() {
	data, err := os.ReadFile(filepath.Join(verifDir, "contracts", "functions.lst"))
	if err != nil {
		return
	}
	known := map[string]string{}
	for _, l := range strings.Split(string(data), "\n") {
		if k, s, ok := strings.Cut(l, "\t"); ok {
			known[k] = s
		}
	}
	owner := func(k string) string { return k[:strings.LastIndexByte(k, '.')+1] }
	isNew := map[string][]string{} // owner and signature to the new functions
	for k, fn := range v.fnByKey {
		if _, ok := known[k]; !ok && fn.Parent() == nil && specs.funcs[k] == nil {
			isNew[owner(k)+sigOf(fn)] = append(isNew[owner(k)+sigOf(fn)], k)
		}
	}
	gone := map[string][]string{}
	for k, s := range known {
		if v.fnByKey[k] == nil {
			gone[owner(k)+s] = append(gone[owner(k)+s], k)
		}
	}
	for os, ks := range gone {
		if len(ks) == 1 && len(isNew[os]) == 1 {
			n := isNew[os][0]
			fn := v.fnByKey[n]
			fnAlias[fn] = ks[0]
			setupNotes = append(setupNotes, n+" is taken to be the renamed "+ks[0])
		}
	}
	if len(fnAlias) > 0 {
		old := v.fnByKey
		v.fnByKey = map[string]*ssa.Function{}
		for _, fn := range old {
			v.fnByKey[fnKey(fn)] = fn
		}
	}
	drop := map[*FuncSpec]bool{}
	for k, fs := range specs.funcs {
		if fs.extern || fs.trusted || v.fnByKey[k] != nil || known[k] == "" {
			continue
		}
		name := k[strings.LastIndexByte(k, '.')+1:]
		if ast.IsExported(name) || fs.self != "" {
			continue
		}
		loops := false
		for _, kw := range []string{"step", "leave", "end", "wait", "oncall", "onsend", "mark"} {
			loops = loops || len(fs.get(kw)) > 0
		}
		if loops {
			continue
		}
		drop[fs] = true
		delete(specs.funcs, k)
		setupNotes = append(setupNotes, "the contract of "+k+" is not used: there is no such function; its callers are verified without it")
	}
	if len(drop) > 0 {
		var order []*FuncSpec
		for _, fs := range specs.order {
			if !drop[fs] {
				order = append(order, fs)
			}
		}
		specs.order = order
	}
}

func (v *Verifier) listFunctions() {
	var ls []string
	for k, fn := range v.fnByKey {
		if fn.Parent() == nil {
			ls = append(ls, k+"\t"+sigOf(fn))
		}
	}
	sort.Strings(ls)
	fmt.Println(strings.Join(ls, "\n"))
}
