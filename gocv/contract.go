package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Using and establishing contracts.

func userSimp(f string, s Sort, as []*Term) *Term {
	if h, ok := simpHooks[f]; ok {
		return h(s, as)
	}
	return nil
}

var simpHooks = map[string]func(s Sort, as []*Term) *Term{}

// fnKey: the name under which a function is known in the contracts.
func fnKey(fn *ssa.Function) string {
	if k, ok := fnAlias[fn]; ok {
		return k
	}
	if p := fn.Parent(); p != nil {
		n := fn.Name()
		if i := strings.LastIndexByte(n, '$'); i >= 0 {
			n = n[i+1:]
		}
		return fnKey(p) + "$" + n
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if fn.Synthetic != "" && fn.Object() == nil {
		return pkg + "." + fn.Name()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		st := ""
		if p, ok := types.Unalias(t).(*types.Pointer); ok {
			st = "*"
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + ".(" + st + n.Obj().Name() + ")." + fn.Name()
		}
	}
	return pkg + "." + fn.Name()
}

var fnAlias = map[*ssa.Function]string{}

func (r *Run) typeInvs() []*TypeInv {
	var out []*TypeInv
	for _, ti := range specs.typeinvs {
		if ti.pkg == r.pkg {
			out = append(out, ti)
		}
	}
	return out
}

// typeInvGoal is what has to be shown of a type invariant: that it holds of
// the objects that exist. (It is assumed of all objects: what the memory
// holds for an object that does not exist yet is what its constructor is
// going to put there.)
func (r *Run) typeInvGoal(st *State, ti *TypeInv) *Term {
	c := *ti
	for _, b := range ti.params {
		if strings.HasPrefix(b.typ, "*") {
			g := &Node{k: "bin", s: "<", pos: ti.pos, kids: []*Node{{k: "id", s: b.name, pos: ti.pos}, {k: "call", s: "wm", pos: ti.pos}}}
			c.body = &Node{k: "bin", s: "==>", pos: ti.pos, kids: []*Node{g, c.body}}
		}
	}
	return r.typeInvTerm(st, &c)
}

func (r *Run) typeInvTerm(st *State, ti *TypeInv) *Term {
	c := &specCtx{r: r, st: st, sink: st, old: r.entry, pkg: ti.pkg, env: map[string]SVal{}}
	return c.boolT(&Node{k: "quant", s: "forall", bvs: ti.params, pats: ti.pats, kids: []*Node{ti.body}, pos: ti.pos})
}

func (r *Run) assumeTypeInvs(st *State) {
	for _, ti := range r.typeInvs() {
		st.assumeInst(r.typeInvTerm(st, ti))
	}
	r.assumeLibInvs(st, false)
}

// assumeAllocInvs assumes that the objects that exist point to objects that
// exist.
func (r *Run) assumeAllocInvs(st *State) {
	imp := map[string]bool{}
	if p := r.v.findPkg(r.pkg); p != nil {
		for _, i := range p.Imports() {
			imp[i.Path()] = true
		}
	}
	for _, ti := range specs.typeinvs {
		if !ti.alloc {
			continue
		}
		if ti.pkg != r.pkg {
			c := &specCtx{r: r, pkg: ti.pkg}
			lp := r.v.findPkg(ti.pkg)
			if lp == nil || !imp[ti.pkg] || isRepoPkg(lp) && (c.hidden(ti.body) || c.unexported(ti.body)) {
				continue
			}
		}
		st.assumeInst(r.typeInvTerm(st, ti))
	}
}

// gapEmpty: a call of fn makes no containers of the invariant ti.
func (r *Run) gapEmpty(ti *TypeInv, fn *ssa.Function, repo bool) bool {
	if len(ti.conts) != 1 || ti.pkg != r.pkg {
		return false
	}
	if !repo {
		return true
	}
	if fn == nil {
		return false
	}
	for _, b := range ti.params {
		if strings.HasPrefix(b.typ, "*") {
			t := r.v.resolveType(ti.pkg, b.typ)
			if pt, ok := t.typ.(*types.Pointer); ok && r.v.mayAllocate(fn, pt.Elem()) {
				return false
			}
		}
	}
	return true
}

// allocUnaffected: where the call allocated no objects of a type, the places
// it used hold nothing that its results could be taken for.
func (r *Run) allocUnaffected(st, pre *State, fn *ssa.Function, repo bool) {
	for _, ti := range specs.typeinvs {
		if !ti.alloc || !r.gapEmpty(ti, fn, repo) {
			continue
		}
		h := pre.clone()
		h.wmIdx = st.wmIdx // wmx() is that of the new state
		h.wm = r.wmTerm(pre.wmIdx)
		if r.entry != nil {
			h.wm = r.entry.wm
		}
		c := *ti
		c.body = &Node{k: "bin", s: "==>", pos: ti.pos, kids: []*Node{{k: "bin", s: "<=", pos: ti.pos, kids: []*Node{{k: "call", s: "wmend", pos: ti.pos}, {k: "id", s: ti.conts[0], pos: ti.pos}}}, c.body}}
		r.preEnd = pre.wm
		st.assumeInst(r.typeInvTerm(h, &c))
	}
}

// mayAllocate: can fn, or what it calls, make an object of the type?
func (v *Verifier) mayAllocate(fn *ssa.Function, t types.Type) bool {
	if v.allocs == nil {
		v.allocs = map[*ssa.Function]map[string]bool{}
	}
	m := v.allocs[fn]
	if m == nil {
		m = map[string]bool{}
		seen := map[*ssa.Function]bool{}
		var walk func(f *ssa.Function)
		walk = func(f *ssa.Function) {
			if f == nil || seen[f] {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Alloc:
						m[x.Type().Underlying().(*types.Pointer).Elem().String()] = true
					case *ssa.MakeClosure:
						walk(x.Fn.(*ssa.Function))
					}
					if c, ok := in.(ssa.CallInstruction); ok {
						cc := c.Common()
						if g := cc.StaticCallee(); g != nil {
							walk(g)
						} else if _, bi := cc.Value.(*ssa.Builtin); !bi {
							m["?"] = true
						}
					}
				}
			}
		}
		walk(fn)
		v.allocs[fn] = m
	}
	return m["?"] || m[t.String()]
}

// assumeLibInvs assumes the invariants of library types, which only the
// library's own functions can touch.
func (r *Run) assumeLibInvs(st *State, alloc bool) {
	p := r.v.findPkg(r.pkg)
	if p == nil {
		return
	}
	for _, ti := range specs.typeinvs {
		lp := r.v.findPkg(ti.pkg)
		if lp == nil || ti.pkg == r.pkg || alloc && !ti.alloc {
			continue
		}
		if isRepoPkg(lp) {
			// what is invariant outside that package's functions
			c := &specCtx{r: r, pkg: ti.pkg}
			if c.hidden(ti.body) || ti.alloc && c.unexported(ti.body) {
				continue
			}
		}
		for _, i := range p.Imports() {
			if i == lp {
				st.assumeInst(r.typeInvTerm(st, ti))
			}
		}
	}
}

// assumeInst assumes t; a quantified t is also instantiated at the objects written so far.
func (st *State) assumeInst(t *Term) {
	{
		if t.op != "forall" {
			st.assume(t)
			return
		}
		st.assumeQ(t)
		// the modified objects
		var idx []*Term
		for _, p := range t.pats {
			for _, x := range p {
				storeIdx(x, &idx, map[*Term]bool{})
			}
		}
		for _, v := range t.vars {
			for _, i := range idx {
				if i.bound || i.sort != v.sort || i.size > 3000 || i.size < 0 {
					continue
				}
				b := Subst(t.args[0], map[*Term]*Term{v: i})
				var rest []*Term
				for _, w := range t.vars {
					if w != v {
						rest = append(rest, w)
					}
				}
				if len(rest) == 0 {
					st.assume(b)
					continue
				}
				var ps [][]*Term
				for _, p := range t.pats {
					var q []*Term
					for _, x := range p {
						if y := Subst(x, map[*Term]*Term{v: i}); y.bound {
							q = append(q, y)
						}
					}
					ps = append(ps, q)
				}
				st.assumeQ(Forall(rest, ps, b))
			}
		}
	}
}

// storeIdx: the indices at which the arrays in t were written.
func storeIdx(t *Term, out *[]*Term, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "store" {
		for _, o := range *out {
			if o == t.args[1] {
				t = t.args[0]
				storeIdx(t, out, seen)
				return
			}
		}
		*out = append(*out, t.args[1])
	}
	for _, a := range t.args {
		storeIdx(a, out, seen)
	}
}

// assumeQ assumes a quantified fact, with patterns free of stores and conditionals.
func (st *State) assumeQ(t *Term) {
	if t.op == "forall" {
		var ps [][]*Term
		for _, p := range t.pats {
			alts := [][]*Term{nil}
			for _, x := range p {
				var n [][]*Term
				for _, y := range patAlts(x) {
					for _, a := range alts {
						n = append(n, append(append([]*Term{}, a...), y))
					}
				}
				alts = n
			}
			if len(alts) <= 8 {
				ps = append(ps, alts...)
			}
		}
		t = Forall(t.vars, ps, t.args[0])
	}
	st.assume(t)
}

func patAlts(t *Term) []*Term {
	switch {
	case !t.bound:
		return []*Term{t}
	case t.op == "ite":
		var out []*Term
		for _, a := range t.args[1:] {
			if a.bound {
				out = append(out, patAlts(a)...)
			}
		}
		return out
	case t.op == "select":
		a := t.args[0]
		for a.op == "store" && !a.bound {
			a = a.args[0]
		}
		if a.op == "ite" {
			return append(patAlts(mkRaw("select", "", t.sort, a.args[1], t.args[1])), patAlts(mkRaw("select", "", t.sort, a.args[2], t.args[1]))...)
		}
		ixs := []*Term{t.args[1]}
		if t.args[1].bound && len(t.args[1].args) > 0 {
			ixs = patAlts(t.args[1])
		}
		if a != t.args[0] || len(ixs) > 1 || ixs[0] != t.args[1] || a.bound && a.op == "select" {
			as := []*Term{a}
			if a.bound && a.op == "select" {
				as = patAlts(a)
			}
			var out []*Term
			for _, x := range as {
				for _, i := range ixs {
					out = append(out, mkRaw("select", "", t.sort, x, i))
				}
			}
			// as it was, too
			old := mkRaw("select", "", t.sort, a, t.args[1])
			for _, x := range out {
				if x == old {
					return out
				}
			}
			return append(out, old)
		}
	case len(t.args) == 1:
		var out []*Term
		for _, x := range patAlts(t.args[0]) {
			out = append(out, mkRaw(t.op, t.lit, t.sort, x))
		}
		return out
	}
	return []*Term{t}
}

// ---- channels

func (r *Run) chanInvsFor(et types.Type) []*ChanInv {
	var out []*ChanInv
	for _, ci := range specs.chaninvs {
		if r.v.findPkg(ci.pkg) == nil {
			continue
		}
		if ci.local && (r.spec == nil || r.spec.pkg != ci.pkg) {
			continue
		}
		if types.Identical(types.Unalias(r.v.goType(ci.pkg, ci.typ)), types.Unalias(et)) {
			out = append(out, ci)
		}
	}
	return out
}

// closesElem: a function of the repository that closes a channel of et.
func (v *Verifier) closesElem(et types.Type) string {
	for k, fn := range v.fnByKey {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := c.Common().Value.(*ssa.Builtin)
				if ok && bi.Name() == "close" && types.Identical(c.Common().Args[0].Type().Underlying().(*types.Chan).Elem(), et) {
					return k
				}
			}
		}
	}
	return ""
}

func (r *Run) chanInvT(st *State, ci *ChanInv, et types.Type, ch, v *Term) *Term {
	c := &specCtx{r: r, st: st, sink: st, pkg: ci.pkg, env: map[string]SVal{ci.name: {t: v, typ: et, sort: v.sort}}}
	if ci.ch != "" {
		c.env[ci.ch] = SVal{t: ch, sort: SInt}
	}
	return c.boolT(ci.body)
}

func (r *Run) chanFacts(st *State, ch *Term, et types.Type, v, ok *Term) {
	for _, ci := range r.chanInvsFor(et) {
		if ci.open {
			if w := r.v.closesElem(et); w != "" {
				panic(specErr{ci.pos + ": a channel of " + ci.typ + " is closed in " + w})
			}
			st.assume(ok)
		}
		if ci.replies && r.entry != nil {
			st.assume(Or(Lt(ch, r.entry.wm), ok))
			r.notes["assumed: a channel made for a reply delivers one before it is closed ("+ci.pos+")"] = true
		}
		st.assume(Imp(ok, r.chanInvT(st, ci, et, ch, v)))
	}
}

func (r *Run) onSend(st *State, ch *Term, et types.Type, v *Term, p token.Pos) {
	r.onSend0(st, ch, et, v, p)
	r.marks(st, func(c *Clause, ctx *specCtx) *Term {
		if c.extra != "send" {
			return nil
		}
		o := ctx.eval(c.on)
		if ct, ok := o.typ.Underlying().(*types.Chan); !ok || !types.Identical(ct.Elem(), et) {
			return nil
		}
		if len(c.vars) > 0 {
			ctx.env[c.vars[0].name] = SVal{t: v, typ: et, sort: v.sort}
		}
		return st.simp(Eq(o.t, ch))
	})
}

func (r *Run) onSend0(st *State, ch *Term, et types.Type, v *Term, p token.Pos) {
	for _, ci := range r.chanInvsFor(et) {
		r.oblige(st, "chaninv", "channel invariant of "+ci.typ, nil, r.pos(p), r.chanInvT(st, ci, et, ch, v))
	}
	if r.spec == nil {
		return
	}
	for _, c := range r.spec.get("onsend") {
		ctx := r.specCtx(st, r.spec.pkg)
		cond := TTrue
		if c.on != nil {
			o := ctx.eval(c.on)
			cond = st.simp(Eq(o.t, ch))
			if cond == TFalse {
				continue
			}
			if ct, ok := o.typ.Underlying().(*types.Chan); !ok || !types.Identical(ct.Elem(), et) {
				continue
			}
		}
		if len(c.vars) > 0 {
			ctx.env[c.vars[0].name] = SVal{t: v, typ: et, sort: v.sort}
		}
		r.stepSeen[c] = true
		r.oblige(st, "onsend", c.label, c.tags, r.pos(p), Imp(cond, ctx.boolT(c.expr)))
	}
}

// calleeIs: does the name in an oncall or mark clause stand for the function?
func calleeIs(fullKey, name string) bool {
	return fullKey == name || strings.HasSuffix(fullKey, "/"+name)
}

func (r *Run) onCall(st *State, fullKey string, args []SVal, p token.Pos) {
	if r.spec == nil || r.inDefer > 0 {
		return
	}
	for _, c := range r.spec.get("oncall") {
		if calleeIs(fullKey, c.extra) {
			r.stepSeen[c] = true
			ctx := r.specCtx(st, r.spec.pkg)
			for i, a := range args {
				ctx.env[fmt.Sprintf("arg%d", i)] = a
			}
			r.oblige(st, "oncall", c.label, c.tags, r.pos(p), ctx.boolT(c.expr))
		}
	}
}

// onWait: a select waits, with the timer channel tch among its cases (or 0)
func (r *Run) onWait(st *State, tch *Term, tt types.Type, p token.Pos) {
	if r.spec == nil || r.inDefer > 0 {
		return
	}
	bind := func(ctx *specCtx) { ctx.env["timerch"] = SVal{t: tch, typ: tt, sort: SInt} }
	for _, c := range r.spec.get("wait") {
		ctx := r.specCtx(st, r.spec.pkg)
		bind(ctx)
		r.stepSeen[c] = true
		r.oblige(st, "wait", c.label, c.tags, r.pos(p), ctx.boolT(c.expr))
	}
	r.marks(st, func(c *Clause, ctx *specCtx) *Term {
		bind(ctx)
		if c.extra != "wait" {
			return nil
		}
		return TTrue
	})
}

// marks makes the ghost assignments of the mark clauses that apply.
func (r *Run) marks(st *State, when func(*Clause, *specCtx) *Term) {
	if r.spec == nil || r.inDefer > 0 {
		return
	}
	for _, c := range r.spec.get("mark") {
		ctx := r.specCtx(st, r.spec.pkg)
		cond := when(c, ctx)
		if cond == nil || cond == TFalse {
			continue
		}
		g := ghostVar(c.label)
		r.logStore(g.name, nil)
		r.hset(st, g.name, Ite(cond, ctx.eval(c.expr).t, r.hget(st, g.name)))
	}
}

func (r *Run) onClose(st *State, ch *Term, p token.Pos) {}

func (r *Run) onStore(st *State, p Val, pos token.Pos) {}

// ---- calls

func (r *Run) applyContract(st *State, fs *FuncSpec, sig *types.Signature, args []Val, p token.Pos, recvType types.Type) []Exit {
	return r.applyContractFn(st, fs, sig, args, p, recvType, nil)
}

func (r *Run) applyContractFn(st *State, fs *FuncSpec, sig *types.Signature, args []Val, p token.Pos, recvType types.Type, fnTerm *Term) []Exit {
	es := r.applyContractFn0(st, fs, sig, args, p, recvType, fnTerm)
	for _, e := range es {
		r.marks(e.st, func(c *Clause, _ *specCtx) *Term {
			if strings.HasPrefix(c.extra, "call ") && calleeIs(fs.fullKey, c.extra[5:]) {
				return TTrue
			}
			return nil
		})
	}
	return es
}

// goContract checks that a function may be started in a goroutine: what its
// contract requires holds when it is started.
func (r *Run) goContract(st *State, fs *FuncSpec, sig *types.Signature, args []Val, p token.Pos) {
	env := map[string]SVal{}
	var ts []types.Type
	if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
		ts = append(ts, sig.Recv().Type())
	}
	for j := 0; j < sig.Params().Len(); j++ {
		ts = append(ts, sig.Params().At(j).Type())
	}
	if len(ts) != len(args) || len(ts) != len(fs.params) {
		return
	}
	for i, t := range ts {
		if fv, ok := args[i].(*FuncVal); ok {
			r.closures[fv.term] = fv
		}
		x := r.term(st, args[i])
		env[fs.params[i]] = SVal{t: x, typ: t, sort: x.sort}
	}
	r.used[fs.fullKey] = fs
	for _, c := range fs.get("requires") {
		g := (&specCtx{r: r, st: st, sink: st, old: st, pkg: fs.pkg, env: env}).boolT(c.expr)
		r.oblige(st, "pre", fs.key+", started here, requires "+c.label, c.tags, r.pos(p), g)
	}
	if fs.pkg == r.pkg && !fs.extern {
		for n, ti := range r.typeInvs() {
			if !ti.alloc {
				r.oblige(st, "typeinv", fmt.Sprintf("type invariant %d when %s is started", n, fs.key), nil, r.pos(p), r.typeInvGoal(st, ti))
			}
		}
	}
}

func (r *Run) applyContractFn0(st *State, fs *FuncSpec, sig *types.Signature, args []Val, p token.Pos, recvType types.Type, fnTerm *Term) []Exit {
	r.used[fs.fullKey] = fs
	env := map[string]SVal{}
	k := 0
	bind := func(t types.Type, v Val) {
		if k >= len(fs.params) {
			panic(specErr{fs.pos + ": too few parameters in the contract of " + fs.fullKey})
		}
		if fv, ok := v.(*FuncVal); ok {
			r.closures[fv.term] = fv
		}
		x := r.term(st, v)
		sv := SVal{t: x, typ: t, sort: x.sort}
		if a, ok := v.(*Addr); ok {
			sv.addr = a
		}
		env[fs.params[k]] = sv
		k++
	}
	i := 0
	if recvType != nil {
		bind(recvType, args[0])
		i = 1
	} else if sig.Recv() != nil && len(args) == sig.Params().Len()+1 {
		bind(sig.Recv().Type(), args[0])
		i = 1
		if _, isP := sig.Recv().Type().Underlying().(*types.Pointer); isP && !fs.flags["nilrecv"] && !isAddr(args[0]) {
			r.nonNil(st, r.term(st, args[0]), "receiver of "+fs.key, p)
		}
	}
	if fs.self != "" {
		fnTerm = Const(fs.self, SInt)
	}
	if fs.flags["fn"] && fnTerm != nil {
		env["self"] = SVal{t: fnTerm, sort: SInt}
	}
	for j := 0; j < sig.Params().Len(); j++ {
		bind(sig.Params().At(j).Type(), args[i+j])
	}
	if k != len(fs.params) {
		panic(specErr{fs.pos + ": too many parameters in the contract of " + fs.fullKey})
	}
	if st.dead {
		return nil
	}
	var as []SVal
	for i := 0; i < k; i++ {
		as = append(as, env[fs.params[i]])
	}
	r.onCall(st, fs.fullKey, as, p)
	pos := r.pos(p)
	ctx := func(s *State, old *State) *specCtx {
		return &specCtx{r: r, st: s, sink: s, old: old, pkg: fs.pkg, env: env}
	}
	for _, c := range fs.get("requires") {
		g := ctx(st, st).boolT(c.expr)
		r.oblige(st, "pre", fs.key+" requires "+c.label, c.tags, pos, g)
		st.assume(g)
	}
	if len(fs.impl) > 0 && fs.self == "" && fnTerm != nil {
		// the function called is one of those the contract was verified for
		var is []*Term
		for _, k := range fs.impl {
			is = append(is, Eq(fnTerm, Const("fn!"+fs.pkg+"."+k, SInt)))
		}
		r.oblige(st, "pre", "the function called implements "+fs.key, nil, pos, Or(is...))
	}
	if fs.flags["noreturn"] {
		st.dead = true
		return nil
	}
	own := fs.pkg == r.pkg && !fs.extern
	if own {
		for n, ti := range r.typeInvs() {
			if ti.alloc {
				continue
			}
			r.oblige(st, "typeinv", fmt.Sprintf("type invariant %d before call of %s", n, fs.key), nil, pos, r.typeInvGoal(st, ti))
		}
	}
	st.wm = r.wmEnd(st)
	pre := st.clone()
	r.newEpoch(st)
	changed := false
	for _, m := range fs.get("modifies") {
		for _, n := range m.locs {
			for _, l := range ctx(pre, pre).loc(n) {
				if l.hidden || l.view != nil && l.view.pkg == r.pkg {
					continue
				}
				changed = true
				hv := heapVars[l.heap]
				if l.idx == nil {
					r.logStore(l.heap, nil)
					r.havocVar(st, l.heap)
					continue
				}
				_, es, _ := arrParts(hv.sort)
				v := r.fresh("mod_"+sanitize(l.heap), es)
				if hv.ref {
					r.setRank(st, v)
				}
				r.logStore(l.heap, l.idx)
				if l.view == nil && l.idx.op == "ite" {
					// nothing is ever written at nil
					st.assume(Imp(Eq(l.idx, TZero), Eq(v, Select(r.hget(st, l.heap), TZero))))
				}
				r.hset(st, l.heap, Store(r.hget(st, l.heap), l.idx, v))
				if hv.typ != nil && es == sortOf(hv.typ) {
					r.wellFormed(st, hv.typ, v)
				}
			}
		}
	}
	var rets []Val
	res := sig.Results()
	for j := 0; j < res.Len(); j++ {
		nm := fmt.Sprintf("result%d", j)
		if j < len(fs.results) {
			nm = fs.results[j]
		}
		v := r.freshOf(st, res.At(j).Type(), "ret_"+nm)
		rets = append(rets, v)
		env[nm] = SVal{t: v, typ: res.At(j).Type(), sort: v.sort}
		if res.Len() == 1 {
			env["result"] = env[nm]
		}
	}
	for _, c := range fs.get("ensures") {
		x := ctx(st, pre)
		if fs.pkg != r.pkg && x.hidden(c.expr) {
			continue // about state only the views of that package show
		}
		st.assume(x.boolT(c.expr))
	}
	if own && changed {
		r.assumeTypeInvs(st)
	} else if changed {
		r.assumeLibInvs(st, false)
	}
	r.assumeAllocInvs(st)
	r.allocUnaffected(st, pre, r.v.fnByKey[fs.fullKey], !fs.extern)
	for j, v := range rets {
		// resolved results
		if x, ok := st.eqs[v.(*Term)]; ok {
			rets[j] = x
			if cl, ok := r.closures[x]; ok {
				rets[j] = cl
			}
		}
	}
	if fs.flags["once"] {
		// (*sync.Once).Do: its argument runs unless the ghost oncewas is set
		w := r.hget(st, ghostVar("oncewas").name)
		o := st.clone()
		st.assume(w)
		o.assume(Not(w))
		var ex []Exit
		if !st.dead {
			ex = append(ex, Exit{st, rets})
		}
		if !o.dead {
			f, ok := args[len(args)-1].(*FuncVal)
			if !ok {
				panic(unsupported("Once.Do of an unknown function"))
			}
			for _, e := range r.callFn(o, f.fn, nil, f.binds, p) {
				ex = append(ex, Exit{e.st, nil})
			}
		}
		return ex
	}
	return []Exit{{st, rets}}
}

// ---- verification of one function

var runN int

func (v *Verifier) newRun(fs *FuncSpec, fn *ssa.Function, pkg string) *Run {
	r := &Run{v: v, spec: fs, fn: fn, pkg: pkg, used: map[string]*FuncSpec{}, inlined: map[string]bool{}, closures: map[*Term]*FuncVal{}, params: map[string]SVal{}, notes: map[string]bool{}, invUsed: map[string]int{}, visitedBlocks: map[*ssa.BasicBlock]bool{}, stepSeen: map[*Clause]bool{}}
	runN++
	r.id = runN
	if fs != nil {
		r.name = shortPkg(fs.pkg) + "." + fs.key
		if fs.variant != "" {
			r.name += " as " + fs.variant
		}
	}
	return r
}

func (r *Run) initialState() *State {
	st := &State{known: map[*Term]bool{}, eqs: map[*Term]*Term{}, own: true, heap: map[string]*Term{}, hown: true}
	st.wm = r.wmTerm(0)
	st.assume(Lt(TZero, st.wm))
	return st
}

var checkAnte = os.Getenv("GOCV_ANTE") != ""

type FuncResult struct {
	fs                 *FuncSpec
	fn                 *ssa.Function
	run                *Run
	err                string
	blocks, seenBlocks int
	smoke              []*Obl // the exits; false must not follow at all of them
	ante               map[string][]*Obl // per implication among the ensures: its antecedent at each exit
}

func (v *Verifier) verifyFunc(fs *FuncSpec) (res *FuncResult) {
	res = &FuncResult{fs: fs}
	fn := v.fnByKey[fs.fullKey]
	if fn == nil {
		res.err = "function not found in /repo: " + fs.fullKey
		return
	}
	res.fn = fn
	r := v.newRun(fs, fn, fs.pkg)
	res.run = r
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case specErr:
				res.err = "contract error: " + x.msg
			case unsupportedErr:
				res.err = "outside the verifier's reach: " + x.msg
				if os.Getenv("GOCV_PANIC") != "" {
					panic(e)
				}
			default:
				if os.Getenv("GOCV_PANIC") != "" {
					panic(e)
				}
				res.err = fmt.Sprintf("the verifier failed: %v", e)
			}
		}
	}()
	st := r.initialState()
	r.initGlobals(st)
	// state at entry: an arbitrary heap
	r.epochN++
	w := r.wmTerm(r.epochN)
	st.assume(Le(st.wm, w))
	st.wm, st.wmIdx = w, r.epochN
	st.base = r.epochN
	r.entryGlobals(st)
	if fs.self != "" {
		r.params["self"] = SVal{t: Const(fs.self, SInt), sort: SInt}
	}
	var args []Val
	bind := func(i int, nm string, t types.Type) {
		x := Const(fmt.Sprintf("p!%s", nm), sortOf(t))
		if isRefType(t) {
			x = r.freshRef(st, "p_"+nm)
		} else {
			x = r.fresh("p_"+nm, sortOf(t))
		}
		r.wellFormed(st, t, x)
		args = append(args, x)
		if i < len(fs.params) {
			r.params[fs.params[i]] = SVal{t: x, typ: t, sort: x.sort}
		}
	}
	for i, p := range fn.Params {
		bind(i, p.Name(), p.Type())
	}
	np := len(fn.Params)
	var binds []Val
	for i, f := range fn.FreeVars {
		// captured variables are named by their own names
		x := r.freshRef(st, "fv_"+f.Name())
		if !isRefType(f.Type()) {
			x = r.fresh("fv_"+f.Name(), sortOf(f.Type()))
		} else {
			st.assume(Lt(TZero, x))
		}
		r.wellFormed(st, f.Type(), x)
		binds = append(binds, x)
		r.params["$"+f.Name()] = SVal{t: x, typ: f.Type(), sort: x.sort}
		for _, y := range binds[:i] {
			if y.(*Term).sort == SInt && x.sort == SInt {
				st.assume(Not(Eq(x, y.(*Term))))
			}
		}
	}
	if len(fs.params) != np {
		panic(specErr{fmt.Sprintf("%s: contract of %s names %d parameters, the function has %d", fs.pos, fs.key, len(fs.params), np)})
	}
	if fn.Signature.Recv() != nil && len(args) > 0 && !fs.flags["nilrecv"] {
		if _, isP := fn.Signature.Recv().Type().Underlying().(*types.Pointer); isP {
			st.assume(Lt(TZero, args[0].(*Term)))
		}
	}
	r.assumeTypeInvs(st)
	r.entry = nil
	for _, k := range []string{"requires", "assumes"} {
		for _, c := range fs.get(k) {
			ctx := r.specCtx(st, fs.pkg)
			ctx.old = st
			st.assume(ctx.boolT(c.expr))
			if k == "assumes" {
				r.notes[fmt.Sprintf("assumed on entry of %s, not checked at its callers (%s)", r.name, c.label)] = true
			}
		}
	}
	r.entry = st.clone()
	r.preState = r.entry
	st.own, st.hown = false, false
	ghostSet := func(st *State, ctx *specCtx, entry bool) {
		for _, c := range fs.get("ghostset") {
			v := strings.TrimPrefix(c.extra, "entry ")
			if (v != c.extra) != entry {
				continue
			}
			g := ghostVar(v)
			r.logStore(g.name, nil)
			r.hset(st, g.name, ctx.eval(c.expr).t)
		}
	}
	if len(fs.get("ghostset")) > 0 {
		st = r.entry.clone()
		ghostSet(st, r.specCtx(st, fs.pkg), true)
	}
	exits := r.execFn(fn, args, binds, st)
	nres := fn.Signature.Results().Len()
	for ei, e := range exits {
		if len(fs.get("ghostset")) > 0 {
			ctx := r.specCtx(e.st, fs.pkg)
			for j := 0; j < nres && j < len(fs.results); j++ {
				t := fn.Signature.Results().At(j).Type()
				x := r.term(e.st, e.rets[j])
				ctx.env[fs.results[j]] = SVal{t: x, typ: t, sort: x.sort}
			}
			ghostSet(e.st, ctx, false)
		}
		for _, c := range fs.get("ensures") {
			ctx := r.specCtx(e.st, fs.pkg)
			for j := 0; j < nres; j++ {
				nm := fmt.Sprintf("result%d", j)
				if j < len(fs.results) {
					nm = fs.results[j]
				}
				t := fn.Signature.Results().At(j).Type()
				x := r.term(e.st, e.rets[j])
				sv := SVal{t: x, typ: t, sort: x.sort}
				ctx.env[nm] = sv
				if nres == 1 {
					ctx.env["result"] = sv
				}
			}
			if checkAnte && c.expr.k == "bin" && c.expr.s == "==>" && !e.st.dead {
				a := ctx.boolT(c.expr.kids[0])
				if res.ante == nil {
					res.ante = map[string][]*Obl{}
				}
				n := fmt.Sprintf("%s at %s", c.label, c.pos)
				res.ante[n] = append(res.ante[n], &Obl{fn: r.name, kind: "smoke", label: n, facts: e.st.factList(), goal: Not(a)})
			}
			g := ctx.boolT(c.expr)
			r.oblige(e.st, "post", c.label, c.tags, c.pos, g)
		}
		for n, ti := range r.typeInvs() {
			if ti.alloc {
				continue
			}
			r.oblige(e.st, "typeinv", fmt.Sprintf("type invariant %d (%s) at exit", n, ti.pos), nil, r.pos(fn.Pos()), r.typeInvGoal(e.st, ti))
		}
		r.frameCheck(e.st)
		if !e.st.dead {
			res.smoke = append(res.smoke, &Obl{fn: r.name, kind: "smoke", label: fmt.Sprintf("exit %d", ei), facts: e.st.factList(), goal: TFalse})
		}
	}
	inf := infoOf(fn)
	res.blocks = len(inf.rpo)
	for b := range inf.rpo {
		if r.visitedBlocks[b] {
			res.seenBlocks++
		}
	}
	// every clause about loop steps or sends must have been met
	for _, k := range []string{"step", "onsend", "wait", "oncall"} {
		for _, c := range fs.get(k) {
			if !r.stepSeen[c] {
				o := &Obl{fn: r.name, kind: "reach", label: k + " clause " + c.label + " applies somewhere", tags: c.tags, pos: c.pos, goal: TFalse}
				r.obls = append(r.obls, o)
			}
		}
	}
	return
}

func (r *Run) frameCheck(st *State) {
	fs := r.spec
	en := r.entry
	ms := map[string][]*Term{}
	whole := map[string]bool{}
	views := map[string][]*Term{}
	wholeView := map[string]bool{}
	ectx := r.specCtx(en, fs.pkg)
	ectx.old = en
	ectx.sink = nil
	for _, m := range fs.get("modifies") {
		for _, n := range m.locs {
			for _, l := range ectx.loc(n) {
				if l.view != nil && l.view.pkg == r.pkg {
					if l.idx == nil {
						wholeView[l.view.name] = true
					}
					views[l.view.name] = append(views[l.view.name], l.idx)
					continue
				}
				if l.idx == nil {
					whole[l.heap] = true
				} else {
					ms[l.heap] = append(ms[l.heap], l.idx)
				}
			}
		}
	}
	if fs.flags["noframe"] {
		return
	}
	var names []string
	for n := range st.heap {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		if whole[n] || strings.HasPrefix(n, "V:iter") {
			continue
		}
		a, b := r.hget(en, n), r.hget(st, n)
		if a == b {
			continue
		}
		is, _, isArr := arrParts(heapVars[n].sort)
		if !isArr || is != SInt || strings.HasPrefix(n, "G:") {
			r.oblige(st, "frame", "does not change "+n, nil, r.pos(r.fn.Pos()), Eq(a, b))
			continue
		}
		q := Const(fmt.Sprintf("fr!p%d!%d", en.wmIdx, r.id), SInt)
		p := q
		if p.rank < 0 {
			p.rank = en.wmIdx
		}
		cs := []*Term{Lt(p, en.wm), Not(Eq(p, TZero))}
		for _, ix := range ms[n] {
			cs = append(cs, Not(Eq(p, ix)))
		}
		r.oblige(st, "frame", "changes "+n+" only where the contract says", nil, r.pos(r.fn.Pos()), Imp(And(cs...), Eq(Select(b, p), Select(a, p))))
	}
	for _, vn := range r.v.viewNames {
		w := specs.views[vn]
		if w.pkg != r.pkg || wholeView[vn] {
			continue
		}
		p := Const(fmt.Sprintf("fr!p%d!%d", en.wmIdx, r.id), SInt)
		if p.rank < 0 {
			p.rank = en.wmIdx
		}
		ca := r.specCtx(en, w.pkg)
		ca.sink = st
		cb := r.specCtx(st, w.pkg)
		rt := r.v.resolveType(w.pkg, w.param.typ)
		pv := SVal{t: p, typ: rt.typ, sort: rt.sort}
		nd := &Node{pos: r.name}
		va, vb := ca.view(w, pv, nd), cb.view(w, pv, nd)
		if va.t == vb.t {
			continue
		}
		cs := []*Term{Lt(TZero, p), Lt(p, en.wm)}
		for _, ix := range views[vn] {
			cs = append(cs, Not(Eq(p, ix)))
		}
		r.oblige(st, "frame", "changes "+vn+" only where the contract says", nil, r.pos(r.fn.Pos()), Imp(And(cs...), Eq(va.t, vb.t)))
	}
}

// hasOn reports whether the step or leave clauses speak about channel events
func (f *FuncSpec) hasOn() bool {
	for _, k := range []string{"step", "leave", "end"} {
		for _, c := range f.get(k) {
			if c.on != nil {
				return true
			}
		}
	}
	return false
}

func isAddr(v Val) bool { _, ok := v.(*Addr); return ok }
