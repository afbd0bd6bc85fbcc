package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Symbolic execution of SSA functions.

type Val interface{}

type Tuple []Val

type Addr struct {
	heap string     // heap variable
	idx  []*Term    // 0 (global scalar), 1 (field/cell) or 2 (slice element) indices
	typ  types.Type // type of the addressed variable
	path []pathSel
}
type pathSel struct {
	st  types.Type // struct type
	idx int
}

type FuncVal struct {
	fn    *ssa.Function
	binds []Val
	term  *Term
	bound bool // method value etc
}

type Fact struct {
	t    *Term
	prev *Fact
	n    int
}

type State struct {
	facts   *Fact
	known   map[*Term]bool
	eqs     map[*Term]*Term
	own     bool // known/eqs maps are owned
	heap    map[string]*Term
	hown    bool
	base    int
	wm      *Term
	wmIdx   int
	event   *Event
	leaving *leaving
	ending  *leaving
	left    bool // the outermost loop with the step clauses has been left
	dead    bool
}
type Event struct {
	ch   *Term
	val  Val
	typ  types.Type
	ok   *Term
	kind string
}

func (s *State) clone() *State {
	c := *s
	c.own = false
	c.hown = false
	s.own = false
	s.hown = false
	return &c
}
func (s *State) ownMaps() {
	if !s.own {
		k := make(map[*Term]bool, len(s.known)+4)
		for a, b := range s.known {
			k[a] = b
		}
		e := make(map[*Term]*Term, len(s.eqs)+4)
		for a, b := range s.eqs {
			e[a] = b
		}
		s.known, s.eqs, s.own = k, e, true
	}
}

func (s *State) assume(t *Term) {
	switch t.op {
	case "true":
		return
	case "false":
		s.dead = true
	case "and":
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.known[t] {
		return
	}
	if t.op == "not" && s.known[t.args[0]] || s.known[Not(t)] {
		s.dead = true
	}
	s.ownMaps()
	s.known[t] = true
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if isLitLike(a) || isCtor(a) && len(a.args) == 0 {
			a, b = b, a
		}
		if isLitLike(b) {
			if o, ok := s.eqs[a]; ok && cmpTerms(o, b) == -1 {
				s.dead = true
			}
			s.eqs[a] = b
		}
	}
	n := 1
	if s.facts != nil {
		n = s.facts.n + 1
	}
	s.facts = &Fact{t, s.facts, n}
}

func (s *State) factList() []*Term {
	var r []*Term
	for f := s.facts; f != nil; f = f.prev {
		r = append(r, f.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// decide a condition by what is syntactically known
func (s *State) simp(t *Term) *Term {
	switch t.op {
	case "true", "false":
		return t
	case "not":
		return Not(s.simp(t.args[0]))
	case "and", "or":
		var as []*Term
		for _, a := range t.args {
			as = append(as, s.simp(a))
		}
		if t.op == "and" {
			return And(as...)
		}
		return Or(as...)
	}
	if s.known[t] {
		return TTrue
	}
	if s.known[Not(t)] {
		return TFalse
	}
	if t.op == "=" {
		a, b := t.args[0], t.args[1]
		if x, ok := s.eqs[a]; ok {
			a = x
		}
		if x, ok := s.eqs[b]; ok {
			b = x
		}
		if a != t.args[0] || b != t.args[1] {
			return Eq(a, b)
		}
	}
	return t
}

type Obl struct {
	fn      string
	kind    string
	label   string
	tags    []string
	pos     string
	facts   []*Term
	goal    *Term
	res     Verdict
	query   string
	trivial bool
}

// Run is the verification of one function.
type Run struct {
	preEnd *Term // where the addresses of the last call's objects start
	v             *Verifier
	spec          *FuncSpec
	fn            *ssa.Function
	name          string
	pkg           string
	obls          []*Obl
	mute          int  // >0: obligations are not recorded
	noEvents      bool // executing the start of an iteration only
	nsym          int
	epochN        int
	stack         []*ssa.Function
	used          map[string]*FuncSpec // contracts relied upon
	inlined       map[string]bool
	closures      map[*Term]*FuncVal
	entry         *State
	params        map[string]SVal
	iter          *State
	iterPre       *State
	loopDepth     int
	inDefer       int
	nameMerged    bool
	storeLogs     []*storeLog
	preState      *State
	notes         map[string]bool
	trivialN      int
	invUsed       map[string]int
	rawStores     int
	paths         int
	visitedBlocks map[*ssa.BasicBlock]bool
	loopStack     int
	loopsDone     int
	invUsedN      int
	backEdges     int
	stepSeen      map[*Clause]bool
	initState     *State
	id            int
}

type storeLog struct {
	whole map[string]bool
	idx   map[string]map[*Term]bool
}

func (r *Run) logStore(h string, idx *Term) {
	for _, l := range r.storeLogs {
		if idx == nil {
			l.whole[h] = true
		} else {
			if l.idx[h] == nil {
				l.idx[h] = map[*Term]bool{}
			}
			l.idx[h][idx] = true
		}
	}
}

func (r *Run) fresh(hint string, s Sort) *Term {
	r.nsym++
	return Const(fmt.Sprintf("%s~%d!%d", hint, r.id, r.nsym), s)
}

// The addresses up to wmEnd are kept for what the function itself allocates
// before the next call or loop; a function that is called allocates above it.
func (r *Run) wmEnd(st *State) *Term {
	return Add(r.wmTerm(st.wmIdx), IntLit(1<<20))
}

// wmOffset: how much was allocated since the last call or loop
func (r *Run) wmOffset(st *State) (int64, bool) {
	b := r.wmTerm(st.wmIdx)
	if st.wm == b {
		return 0, true
	}
	for n := int64(1); n < 200; n++ {
		if st.wm == Add(b, IntLit(n)) {
			return n, true
		}
	}
	return 0, false
}

func (r *Run) newEpoch(st *State) {
	st.wm = r.wmEnd(st)
	r.epochN++
	n := r.epochN
	w := r.wmTerm(n)
	st.assume(Le(st.wm, w))
	st.wm = w
	st.wmIdx = n
}

func (r *Run) freshRef(st *State, hint string) *Term {
	t := r.fresh(hint, SInt)
	r.setRank(st, t)
	return t
}
func (r *Run) setRank(st *State, t *Term) {
	if t.rank < 0 && t.op != "#int" {
		t.rank = curRank(st)
	}
	st.assume(Lt(t, st.wm))
}

// curRank: index of the first watermark that is at or above the current one.
func curRank(st *State) int {
	if st.wm.op == "#const" {
		return st.wmIdx
	}
	return st.wmIdx + 1
}

// ---- heap variables

type HeapVar struct {
	name string
	sort Sort
	ref  bool       // values are refs
	typ  types.Type // value type (may be nil for ghost)
	dims int
}

var heapVars = map[string]*HeapVar{}

func heapVar(name string, s Sort, typ types.Type, ref bool) *HeapVar {
	if h, ok := heapVars[name]; ok {
		if h.sort != s {
			panic(fmt.Sprintf("heap var %s: sort %s vs %s", name, h.sort, s))
		}
		return h
	}
	h := &HeapVar{name: name, sort: s, typ: typ, ref: ref}
	heapVars[name] = h
	return h
}

func (r *Run) hget(st *State, name string) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	h := heapVars[name]
	if h == nil {
		panic("unknown heap var " + name)
	}
	nm := fmt.Sprintf("%s~%d@%d", name, r.id, st.base)
	t := Const(nm, h.sort)
	wm := st.base
	if _, ok := arrMetaTab.Load(nm); !ok {
		arrMetaTab.Store(nm, &ArrMeta{ref: h.ref, wm: wm})
	}
	if h.ref && h.sort == SInt { // scalar ref
		t.rank = wm
	}
	if !st.hown {
		r.ownHeap(st)
	}
	st.heap[name] = t
	if h.ref && h.sort == SInt {
		st.assume(Lt(t, r.wmTerm(wm)))
	}
	return t
}
func (r *Run) wmTerm(i int) *Term { return Const(fmt.Sprintf("wm!%d!%d", i, r.id), SInt) }

func (r *Run) ownHeap(st *State) {
	if !st.hown {
		h := make(map[string]*Term, len(st.heap)+4)
		for a, b := range st.heap {
			h[a] = b
		}
		st.heap, st.hown = h, true
	}
}
func (r *Run) hset(st *State, name string, t *Term) {
	r.ownHeap(st)
	st.heap[name] = t
}

func (r *Run) havocVar(st *State, name string) *Term {
	h := heapVars[name]
	r.nsym++
	nm := fmt.Sprintf("%s~%d@h%d.%d", name, r.id, st.wmIdx, r.nsym)
	t := Const(nm, h.sort)
	arrMetaTab.Store(nm, &ArrMeta{ref: h.ref, wm: curRank(st)})
	if h.ref && h.sort == SInt && t.rank < 0 {
		t.rank = curRank(st)
		st.assume(Lt(t, st.wm))
	}
	r.hset(st, name, t)
	return t
}

func fieldHeap(t types.Type, f *types.Var) *HeapVar {
	return heapVar("F:"+typeKey(t)+"."+f.Name(), SArr(SInt, sortOf(f.Type())), f.Type(), isRefType(f.Type()))
}
func cellHeap(t types.Type) *HeapVar {
	return heapVar("C:"+typeKey(t), SArr(SInt, sortOf(t)), t, isRefType(t))
}
func elemHeap(t types.Type) *HeapVar {
	if isByte(t) {
		return heapVar("B", SArr(SInt, SStr), nil, false)
	}
	return heapVar("E:"+typeKey(t), SArr(SInt, SArr(SInt, sortOf(t))), t, false)
}
func mapDomHeap(t types.Type) *HeapVar {
	m := t.Underlying().(*types.Map)
	return heapVar("M:"+typeKey(m)+".dom", SArr(SInt, SArr(sortOf(m.Key()), SBool)), nil, false)
}
func mapValHeap(t types.Type) *HeapVar {
	m := t.Underlying().(*types.Map)
	return heapVar("M:"+typeKey(m)+".val", SArr(SInt, SArr(sortOf(m.Key()), sortOf(m.Elem()))), m.Elem(), false)
}
func globalHeap(g *ssa.Global) *HeapVar {
	t := g.Type().(*types.Pointer).Elem()
	return heapVar("G:"+shortPkg(g.Pkg.Pkg.Path())+"."+g.Name(), sortOf(t), t, isRefType(t))
}

// globalRef: the constant address of a struct-typed global
var globalRefs = map[string]int64{}

func globalRef(g *ssa.Global) *Term { return globalRefK(g.Pkg.Pkg.Path() + "." + g.Name()) }
func globalRefK(k string) *Term {
	if _, ok := globalRefs[k]; !ok {
		globalRefs[k] = -int64(1000000 + len(globalRefs))
	}
	return IntLit(globalRefs[k])
}

func isStruct(t types.Type) bool          { _, ok := t.Underlying().(*types.Struct); return ok }
func structOf(t types.Type) *types.Struct { return t.Underlying().(*types.Struct) }

// wellFormed: facts about a value of Go type t read from memory
func (r *Run) wellFormed(st *State, t types.Type, v *Term) {
	if v.bound {
		return
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		if sortOf(t) == SInt && v.op != "#int" {
			st.assume(inRange(t, v))
		}
	case *types.Slice:
		if v.op == "mk-slc" && v.args[0].op == "#int" {
			return
		}
		st.assume(And(Le(TZero, slcOff(v)), Le(TZero, slcLen(v)), Le(slcLen(v), slcCap(v)), Le(slcCap(v), IntLit(1<<50)),
			Le(slcOff(v), IntLit(1<<50)), Imp(Eq(slcBase(v), TZero), Eq(slcCap(v), TZero))))
		if b := slcBase(v); rankOf(b) < 0 && b.op != "ite" {
			b.rank = curRank(st)
		}
		st.assume(Lt(slcBase(v), st.wm))
		if isByteSlice(t) && !strings.HasPrefix(v.op, "mk-") {
			B := r.hget(st, elemHeap(types.Typ[types.Uint8]).name)
			st.assume(Le(Add(slcOff(v), slcCap(v)), App("slen", SInt, Select(B, slcBase(v)))))
		}
	case *types.Interface:
		// a value of an interface type implements it
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && t.Underlying().(*types.Interface).NumMethods() > 0 && v.op != "mk-ifc" {
			tag := App("ifc-tag", SInt, v)
			if im := r.implements(tag, t); im.op == "and" {
				st.assume(Or(Eq(tag, TZero), im))
			}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if v.op != "#int" {
			if rk := rankOf(v); rk >= 0 {
				if _, ok := wmOf(v); !ok && v.op != "ite" {
					if rk <= st.wmIdx {
						st.assume(Lt(v, r.wmTerm(st.wmIdx)))
					} else {
						st.assume(Lt(v, st.wm))
					}
				}
			} else {
				st.assume(Lt(v, st.wm))
				if v.op != "ite" {
					v.rank = curRank(st)
				}
			}
		}
	}
}

// ---- loads and stores

func (r *Run) loadAddr(st *State, a *Addr) *Term {
	if f := specs.immut[a.heap]; f != "" && len(a.idx) == 1 && len(a.path) == 0 {
		v := App(f, sortOf(a.typ), a.idx[0])
		r.wellFormed(st, a.typ, v)
		return v
	}
	h := r.hget(st, a.heap)
	var v *Term
	switch len(a.idx) {
	case 0:
		v = h
	case 1:
		v = Select(h, a.idx[0])
	case 2:
		if a.heap == "B" {
			v = App("sat", SInt, Select(h, a.idx[0]), a.idx[1])
			if !v.bound {
				st.assume(And(Le(TZero, v), Le(v, IntLit(255))))
			}
			return v
		}
		v = Select(Select(h, a.idx[0]), a.idx[1])
	}
	for _, p := range a.path {
		v = fieldOfVal(p.st, p.idx, v)
	}
	r.wellFormed(st, a.typ, v)
	return v
}

func fieldOfVal(t types.Type, i int, v *Term) *Term {
	s := sortOf(t)
	f := structOf(t).Field(i)
	if isOpaqueStruct(t) {
		fn := s + "." + f.Name()
		declFun(fn, sortOf(f.Type()), s)
		return App(fn, sortOf(f.Type()), v)
	}
	return App(s+"."+f.Name(), sortOf(f.Type()), v)
}

func updField(t types.Type, i int, v, nv *Term) *Term {
	s := sortOf(t)
	u := structOf(t)
	var as []*Term
	for j := 0; j < u.NumFields(); j++ {
		if j == i {
			as = append(as, nv)
		} else {
			as = append(as, fieldOfVal(t, j, v))
		}
	}
	return App("mk-"+s, s, as...)
}
func updPath(path []pathSel, v, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	return updField(p.st, p.idx, v, updPath(path[1:], fieldOfVal(p.st, p.idx, v), nv))
}

func (r *Run) storeAddr(st *State, a *Addr, v *Term) {
	if specs.immut[a.heap] != "" {
		r.oblige(st, "immutable", a.heap[2:]+" is never assigned", nil, r.pos(r.fn.Pos()), TFalse)
	}
	h := r.hget(st, a.heap)
	switch len(a.idx) {
	case 0:
		if len(a.path) > 0 {
			v = updPath(a.path, h, v)
		}
		r.logStore(a.heap, nil)
		r.hset(st, a.heap, v)
	case 1:
		if len(a.path) > 0 {
			v = updPath(a.path, Select(h, a.idx[0]), v)
		}
		r.logStore(a.heap, a.idx[0])
		r.hset(st, a.heap, Store(h, a.idx[0], v))
	case 2:
		r.logStore(a.heap, a.idx[0])
		if a.heap == "B" {
			x := Select(h, a.idx[0])
			declFun("supd1", SStr, SStr, SInt, SInt)
			r.hset(st, a.heap, Store(h, a.idx[0], App("supd1", SStr, x, a.idx[1], v)))
			return
		}
		in := Select(h, a.idx[0])
		if len(a.path) > 0 {
			v = updPath(a.path, Select(in, a.idx[1]), v)
		}
		r.hset(st, a.heap, Store(h, a.idx[0], Store(in, a.idx[1], v)))
	}
}

// loadPtr loads *p where p is a pointer to t
func (r *Run) loadPtr(st *State, p Val, t types.Type) *Term {
	if a, ok := p.(*Addr); ok {
		if isByteSlice(a.typ) && sortOf(t) == SStr { // string view of a byte slice (unsafe)
			return r.bytesOf(st, r.loadAddr(st, a))
		}
		return r.loadAddr(st, a)
	}
	ref := p.(*Term)
	if isStruct(t) && !isOpaqueStruct(t) {
		u := structOf(t)
		s := sortOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			v := Select(r.hget(st, fieldHeap(t, u.Field(i)).name), ref)
			r.wellFormed(st, u.Field(i).Type(), v)
			as = append(as, v)
		}
		return App("mk-"+s, s, as...)
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		return Select(r.hget(st, elemHeap(at.Elem()).name), ref)
	}
	v := Select(r.hget(st, cellHeap(t).name), ref)
	r.wellFormed(st, t, v)
	return v
}

func (r *Run) storePtr(st *State, p Val, t types.Type, v *Term) {
	if a, ok := p.(*Addr); ok {
		r.storeAddr(st, a, v)
		return
	}
	ref := p.(*Term)
	if isStruct(t) && !isOpaqueStruct(t) {
		u := structOf(t)
		for i := 0; i < u.NumFields(); i++ {
			hv := fieldHeap(t, u.Field(i))
			r.logStore(hv.name, ref)
			r.hset(st, hv.name, Store(r.hget(st, hv.name), ref, fieldOfVal(t, i, v)))
		}
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		hv := elemHeap(at.Elem())
		r.logStore(hv.name, ref)
		r.hset(st, hv.name, Store(r.hget(st, hv.name), ref, v))
		return
	}
	hv := cellHeap(t)
	r.logStore(hv.name, ref)
	r.hset(st, hv.name, Store(r.hget(st, hv.name), ref, v))
}

func (r *Run) bytesOf(st *State, s *Term) *Term {
	B := r.hget(st, elemHeap(types.Typ[types.Uint8]).name)
	if s == TNilSlc || slcLen(s) == TZero {
		return StrLit("")
	}
	return App("ssub", SStr, Select(B, slcBase(s)), slcOff(s), slcLen(s))
}

// newBytes allocates a byte slice with the given contents
func (r *Run) newBytes(st *State, content *Term) *Term {
	ref := r.alloc(st)
	hv := elemHeap(types.Typ[types.Uint8])
	r.logStore(hv.name, ref)
	r.hset(st, hv.name, Store(r.hget(st, hv.name), ref, content))
	n := App("slen", SInt, content)
	st.assume(Le(TZero, n))
	st.assume(Le(n, IntLit(1<<50)))
	return mkSlc(ref, TZero, n, n)
}

func (r *Run) alloc(st *State) *Term {
	ref := st.wm
	st.wm = Add(st.wm, TOne)
	return ref
}

// initialise a fresh struct object
func (r *Run) zeroStruct(st *State, t types.Type, ref *Term) {
	u := structOf(t)
	if !isOpaqueStruct(t) {
		for i := 0; i < u.NumFields(); i++ {
			hv := fieldHeap(t, u.Field(i))
			r.hset(st, hv.name, Store(r.hget(st, hv.name), ref, zeroOf(u.Field(i).Type())))
		}
	}
	r.zeroGhost(st, t, ref)
}

func (r *Run) zeroGhost(st *State, t types.Type, ref *Term) {
	for _, g := range r.v.ghostsOf(t) {
		if g.zero != nil {
			sv := r.v.evalClosed(r, st, g.pkg, g.zero, g.sort)
			r.hset(st, g.heapName(), Store(r.hget(st, g.heapName()), ref, sv))
		}
	}
	for _, w := range r.v.viewsOf(t) {
		if w.pkg != r.pkg && w.zero != nil {
			sv := r.v.evalClosed(r, st, w.pkg, w.zero, w.sort)
			hn := viewHeap(w)
			r.hset(st, hn, Store(r.hget(st, hn), ref, sv))
		}
	}
}

// term for a value (pointers into objects become address terms)
func (r *Run) term(st *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *FuncVal:
		return x.term
	case *Addr:
		if len(x.idx) == 0 {
			return Const("addr!"+x.heap, SInt)
		}
		f := "addr!" + x.heap
		for _, p := range x.path {
			f += fmt.Sprintf(".%d", p.idx)
		}
		if len(x.idx) == 1 {
			declFun(f, SInt, SInt)
			t := App(f, SInt, x.idx[0])
			return t
		}
		declFun(f, SInt, SInt, SInt)
		return App(f, SInt, x.idx[0], x.idx[1])
	case Tuple:
		panic("tuple as term")
	}
	panic(fmt.Sprintf("no term for %T", v))
}

// ---- obligations

func (r *Run) oblige(st *State, kind, label string, tags []string, pos string, goal *Term) {
	if st.dead {
		return
	}
	if r.mute > 0 {
		return
	}
	g := st.simp(goal)
	o := &Obl{fn: r.name, kind: kind, label: label, tags: tags, pos: pos, goal: g}
	if g == TTrue {
		o.trivial = true
	} else {
		o.facts = st.factList()
	}
	r.obls = append(r.obls, o)
}

func (r *Run) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := r.v.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (r *Run) nonNil(st *State, t *Term, what string, p token.Pos) {
	if t.op == "#int" && t.lit != "0" {
		return
	}
	if _, ok := wmOf(t); ok {
		return
	}
	g := Not(Eq(t, TZero))
	if st.simp(g) == TTrue {
		return
	}
	r.oblige(st, "nil", "nil dereference: "+what, nil, r.pos(p), g)
	st.assume(g)
}

// ---- blocks

type Item struct {
	blk    *ssa.BasicBlock
	idx    int
	env    map[ssa.Value]Val
	eown   bool
	st     *State
	defers []deferred
	from   *ssa.BasicBlock
}
type deferred struct {
	call *ssa.CallCommon
	fv   Val
	args []Val
	pos  token.Pos
}
type Exit struct {
	st   *State
	rets []Val
}

func (it *Item) clone() *Item {
	c := *it
	c.st = it.st.clone()
	c.eown = false
	it.eown = false
	c.defers = append([]deferred(nil), it.defers...)
	return &c
}
func (it *Item) set(v ssa.Value, x Val) {
	if !it.eown {
		e := make(map[ssa.Value]Val, len(it.env)+8)
		for a, b := range it.env {
			e[a] = b
		}
		it.env, it.eown = e, true
	}
	it.env[v] = x
}

type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	inf := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := range post {
		inf.rpo[post[len(post)-1-i]] = i
	}
	for b := range seen {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := inf.loops[s]
				if l == nil {
					l = map[*ssa.BasicBlock]bool{s: true}
					inf.loops[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l[x] {
						return
					}
					l[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	fnInfos[fn] = inf
	return inf
}

// execFn runs fn to its exits.
func (r *Run) execFn(fn *ssa.Function, args []Val, binds []Val, st *State) []Exit {
	if fn.Blocks == nil {
		panic(unsupported("no body for " + fn.String()))
	}
	for _, f := range r.stack {
		if f == fn {
			panic(unsupported("recursive inlining of " + fn.String()))
		}
	}
	if len(r.stack) > 12 {
		panic(unsupported("inlining too deep at " + fn.String()))
	}
	r.stack = append(r.stack, fn)
	defer func() { r.stack = r.stack[:len(r.stack)-1] }()
	it := &Item{blk: fn.Blocks[0], env: map[ssa.Value]Val{}, eown: true, st: st}
	for i, p := range fn.Params {
		it.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		it.env[f] = binds[i]
	}
	_, exits, rets := r.region(fn, []*Item{it}, nil, nil)
	if len(exits) > 0 {
		panic("region exits from function")
	}
	return rets
}

const mergeLimit = 6

func (r *Run) region(fn *ssa.Function, start []*Item, blocks map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) (backs, exits []*Item, rets []Exit) {
	inf := infoOf(fn)
	pend := map[*ssa.BasicBlock][]*Item{}
	first := true
	put := func(it *Item) {
		if it.st.dead {
			return
		}
		if blocks != nil && !blocks[it.blk] {
			exits = append(exits, it)
			return
		}
		if !first && it.blk == header {
			backs = append(backs, it)
			return
		}
		pend[it.blk] = append(pend[it.blk], it)
	}
	for _, it := range start {
		put(it)
	}
	first = false
	for {
		var b *ssa.BasicBlock
		for x := range pend {
			if b == nil || inf.rpo[x] < inf.rpo[b] {
				b = x
			}
		}
		if b == nil {
			return
		}
		items := pend[b]
		delete(pend, b)
		if l := inf.loops[b]; l != nil && b != header {
			for _, it := range items {
				r.atLoopLeave(it.st, true)
			}
			if len(items) > 1 {
				r.nameMerged = true
				items = r.mergeGroups(items, 1)
				r.nameMerged = false
			}
			for _, it := range items {
				ex, rs := r.loop(fn, b, l, it)
				for _, e := range ex {
					put(e)
				}
				rets = append(rets, rs...)
			}
			continue
		}
		if hasRange(b) {
			for _, it := range items {
				r.atLoopLeave(it.st, true)
			}
		}
		if len(items) > mergeLimit || len(items) > 1 && callsLoop(b) {
			items = r.mergeGroups(items, 1)
		}
		for _, it := range items {
			if giveUp() || tooBig.Load() {
				panic(unsupported("not attempted: out of time or memory, or the outcome is known"))
			}
			r.visitedBlocks[b] = true
			outs, rs := r.runBlock(fn, it)
			for _, o := range outs {
				put(o)
			}
			rets = append(rets, rs...)
		}
	}
}

// hasRange: does b begin to range over a map?
func hasRange(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Range); ok {
			return true
		}
	}
	return false
}

// callsLoop: does b call a function without a contract that has a loop?
func callsLoop(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Range); ok {
			return true
		}
		if c, ok := in.(*ssa.Call); ok {
			if fn := c.Call.StaticCallee(); fn != nil && hasLoop(fn, map[*ssa.Function]bool{}) {
				return true
			}
		}
	}
	return false
}

var hasLoops = map[*ssa.Function]bool{}
var hasLoopMu sync.Mutex

func hasLoop(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if fn.Blocks == nil || seen[fn] {
		return false
	}
	if fs := specs.funcs[fnKey(fn)]; fs != nil && !fs.flags["inline"] {
		return false
	}
	seen[fn] = true
	hasLoopMu.Lock()
	l, ok := hasLoops[fn]
	hasLoopMu.Unlock()
	if ok {
		return l
	}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l = true
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && !l {
				if f := c.Call.StaticCallee(); f != nil && hasLoop(f, seen) {
					l = true
				}
			}
		}
	}
	hasLoopMu.Lock()
	hasLoops[fn] = l
	hasLoopMu.Unlock()
	return l
}

// edge moves it along the edge to block `to`, evaluating phis.
func (r *Run) edge(it *Item, to *ssa.BasicBlock) *Item {
	from := it.blk
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, r.val(it, ph.Edges[pi]))
	}
	for i, ph := range phis {
		it.set(ph, vals[i])
	}
	it.blk = to
	it.from = from
	it.idx = len(phis)
	return it
}

func (r *Run) runBlock(fn *ssa.Function, it *Item) (outs []*Item, rets []Exit) {
	work := []*Item{it}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
	instrs:
		for it.idx < len(it.blk.Instrs) {
			if it.st.dead {
				break
			}
			in := it.blk.Instrs[it.idx]
			it.idx++
			switch x := in.(type) {
			case *ssa.Jump:
				outs = append(outs, r.edge(it, it.blk.Succs[0]))
				break instrs
			case *ssa.If:
				c := it.st.simp(r.val(it, x.Cond).(*Term))
				s0, s1 := it.blk.Succs[0], it.blk.Succs[1]
				if c == TTrue {
					outs = append(outs, r.edge(it, s0))
				} else if c == TFalse {
					outs = append(outs, r.edge(it, s1))
				} else {
					o := it.clone()
					it.st.assume(c)
					o.st.assume(Not(c))
					if !it.st.dead {
						outs = append(outs, r.edge(it, s0))
					}
					if !o.st.dead {
						outs = append(outs, r.edge(o, s1))
					}
				}
				break instrs
			case *ssa.Return:
				var vs []Val
				for _, v := range x.Results {
					vs = append(vs, r.val(it, v))
				}
				r.atLoopLeave(it.st, false)
				rets = append(rets, Exit{it.st, vs})
				break instrs
			case *ssa.Panic:
				r.oblige(it.st, "panic", "panic is unreachable", nil, r.pos(x.Pos()), TFalse)
				it.st.dead = true
				break instrs
			default:
				more := r.instr(fn, it, in)
				work = append(work, more...)
			}
		}
	}
	return
}

// mergeGroups merges items that carry the same event and deferred calls.
func (r *Run) mergeGroups(items []*Item, limit int) []*Item {
	var keys []string
	groups := map[string][]*Item{}
	for _, it := range items {
		k := fmt.Sprintf("%p %d %p %p %t", it.st.event, len(it.defers), it.st.leaving, it.st.ending, it.st.left)
		for v, x := range it.env {
			if f, ok := x.(*FuncVal); ok {
				if _, isPhi := v.(*ssa.Phi); isPhi {
					k += " " + f.term.lit
				}
			}
		}
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], it)
	}
	var out []*Item
	for _, k := range keys {
		if len(groups[k]) > limit {
			out = append(out, r.merge(groups[k]))
		} else {
			out = append(out, groups[k]...)
		}
	}
	return out
}

// merge joins states at a control-flow join.
func (r *Run) merge(items []*Item) *Item {
	if len(items) == 1 {
		return items[0]
	}
	// common fact ancestor
	anc := items[0].st.facts
	for _, it := range items[1:] {
		a, b := anc, it.st.facts
		for a != b {
			if a == nil || b == nil {
				a = nil
				break
			}
			if a.n > b.n {
				a = a.prev
			} else if b.n > a.n {
				b = b.prev
			} else {
				a, b = a.prev, b.prev
			}
		}
		anc = a
	}
	res := &Item{blk: items[0].blk, idx: items[0].idx, env: map[ssa.Value]Val{}, eown: true, from: items[0].from}
	st := &State{facts: anc, known: map[*Term]bool{}, eqs: map[*Term]*Term{}, own: true, heap: map[string]*Term{}, hown: true}
	res.st = st
	// known facts of the ancestor
	for f := anc; f != nil; f = f.prev {
		st.known[f.t] = true
		if f.t.op == "=" {
			a, b := f.t.args[0], f.t.args[1]
			if isLitLike(a) {
				a, b = b, a
			}
			if isLitLike(b) {
				st.eqs[a] = b
			}
		}
	}
	var sel []*Term
	var all []*Term
	for i, it := range items {
		c := r.fresh("path", SBool)
		sel = append(sel, c)
		var ds []*Term
		for f := it.st.facts; f != anc; f = f.prev {
			ds = append(ds, f.t)
		}
		all = append(all, c)
		d := And(ds...)
		st.assume(Imp(c, d))
		_ = i
	}
	// facts common to all items
	cnt := map[*Term]int{}
	for _, it := range items {
		for f := it.st.facts; f != anc; f = f.prev {
			cnt[f.t]++
		}
	}
	for t, n := range cnt {
		if n >= len(items) {
			st.assume(t)
		}
	}
	st.assume(Or(all...))
	// watermark
	same := true
	maxIdx := 0
	for _, it := range items {
		if it.st.wm != items[0].st.wm {
			same = false
		}
		if it.st.wmIdx > maxIdx {
			maxIdx = it.st.wmIdx
		}
	}
	sameIdx := true
	maxOff := int64(0)
	for _, it := range items {
		off, ok := r.wmOffset(it.st)
		if !ok || it.st.wmIdx != items[0].st.wmIdx {
			sameIdx = false
			break
		}
		if off > maxOff {
			maxOff = off
		}
	}
	newW := false
	if same {
		st.wm, st.wmIdx = items[0].st.wm, items[0].st.wmIdx
	} else if sameIdx {
		// some addresses are skipped on the paths that allocated less
		st.wmIdx = items[0].st.wmIdx
		st.wm = r.wmTerm(st.wmIdx)
		if maxOff > 0 {
			st.wm = Add(st.wm, IntLit(maxOff))
		}
	} else {
		r.epochN++
		w := r.wmTerm(r.epochN)
		for _, it := range items {
			st.assume(Le(r.wmEnd(it.st), w))
		}
		st.wm, st.wmIdx = w, r.epochN
		newW = true
	}
	st.base = items[0].st.base
	st.event = items[0].st.event
	st.leaving = items[0].st.leaving
	st.ending = items[0].st.ending
	st.left = items[0].st.left
	for _, it := range items {
		if it.st.event != st.event {
			st.event = nil
		}
	}
	mix := func(ts []*Term) *Term {
		v := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			v = Ite(sel[i], ts[i], v)
		}
		if r.nameMerged && v.op == "ite" && (v.sort == SSlc || strings.HasPrefix(string(v.sort), "(Array")) {
			// before a loop: a name instead of the alternatives
			c := r.fresh("join", v.sort)
			for i := range ts {
				st.assume(Imp(sel[i], Eq(c, ts[i])))
			}
			return c
		}
		return v
	}
	names := map[string]bool{}
	for _, it := range items {
		for n := range it.st.heap {
			names[n] = true
		}
		if it.st.base != st.base {
			for n := range heapVars {
				names[n] = true
			}
			st.base = -1
		}
	}
	if st.base == -1 {
		for _, it := range items {
			if it.st.base > st.base {
				st.base = it.st.base
			}
		}
	}
	var nl []string
	for n := range names {
		nl = append(nl, n)
	}
	sort.Strings(nl)
	for _, n := range nl {
		var ts []*Term
		for _, it := range items {
			ts = append(ts, r.hget(it.st, n))
		}
		st.heap[n] = mix(ts)
	}
	for v, x := range items[0].env {
		vs := []Val{x}
		ok := true
		for _, it := range items[1:] {
			y, has := it.env[v]
			if !has {
				ok = false
				break
			}
			vs = append(vs, y)
		}
		if !ok {
			continue
		}
		if m, ok := r.mergeVals(st, items, vs, mix, v); ok {
			res.env[v] = m
		}
	}
	// defers must agree
	res.defers = items[0].defers
	for _, it := range items {
		if len(it.defers) != len(res.defers) {
			panic(unsupported("conditional defer"))
		}
	}
	if newW {
		r.assumeAllocInvs(st)
	}
	return res
}

func (r *Run) mergeVals(st *State, items []*Item, vs []Val, mix func([]*Term) *Term, v ssa.Value) (Val, bool) {
	same := true
	for _, y := range vs[1:] {
		if !sameVal(vs[0], y) {
			same = false
		}
	}
	if same {
		return vs[0], true
	}
	if tu, ok := vs[0].(Tuple); ok {
		var out Tuple
		for i := range tu {
			var es []Val
			for _, y := range vs {
				es = append(es, y.(Tuple)[i])
			}
			m, ok := r.mergeVals(st, items, es, mix, v)
			if !ok {
				return nil, false
			}
			out = append(out, m)
		}
		return out, true
	}
	var ts []*Term
	for i, y := range vs {
		switch z := y.(type) {
		case *Term:
			ts = append(ts, z)
		case *FuncVal:
			ts = append(ts, z.term)
		case *Addr:
			if b, ok := vs[0].(*Addr); ok && b.heap == z.heap && len(b.idx) == len(z.idx) {
				continue
			}
			ts = append(ts, r.term(items[i].st, z))
		default:
			return nil, false
		}
	}
	if b, ok := vs[0].(*Addr); ok && len(ts) == 0 {
		n := *b
		n.idx = nil
		for j := range b.idx {
			var xs []*Term
			for _, y := range vs {
				xs = append(xs, y.(*Addr).idx[j])
			}
			n.idx = append(n.idx, mix(xs))
		}
		return &n, true
	}
	if len(ts) != len(vs) {
		return nil, false
	}
	for _, t := range ts {
		if t.sort != ts[0].sort {
			return nil, false
		}
	}
	m := mix(ts)
	return m, true
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *FuncVal:
		y, ok := b.(*FuncVal)
		return ok && x.term == y.term
	case *Addr:
		y, ok := b.(*Addr)
		if !ok || x.heap != y.heap || len(x.idx) != len(y.idx) || len(x.path) != len(y.path) {
			return false
		}
		for i := range x.idx {
			if x.idx[i] != y.idx[i] {
				return false
			}
		}
		for i := range x.path {
			if x.path[i].idx != y.path[i].idx {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case *iterVal:
		y, ok := b.(*iterVal)
		return ok && x == y
	}
	return a == nil && b == nil
}

type iterVal struct {
	m    *Term
	typ  types.Type
	name string // heap var of the visited set
}

func (r *Run) val(it *Item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zeroOf(x.Type())
		}
		return constTerm(x.Value, x.Type())
	case *ssa.Function:
		return r.funcVal(x, nil)
	case *ssa.Global:
		t := x.Type().(*types.Pointer).Elem()
		if isStruct(t) && !isOpaqueStruct(t) || r.v.escaped[x.Pkg.Pkg.Path()+"."+x.Name()] {
			return globalRef(x)
		}
		return &Addr{heap: globalHeap(x).name, typ: t}
	case *ssa.Builtin:
		return x
	}
	if y, ok := it.env[v]; ok {
		return y
	}
	panic(unsupported(fmt.Sprintf("value %s = %s not available in %s", v.Name(), v, v.Parent())))
}

func (r *Run) funcVal(fn *ssa.Function, binds []Val) *FuncVal {
	if len(binds) == 0 {
		t := Const("fn!"+fnKey(fn), SInt)
		fv := &FuncVal{fn: fn, term: t}
		r.closures[t] = fv
		return fv
	}
	t := r.fresh("clo", SInt)
	fv := &FuncVal{fn: fn, binds: binds, term: t}
	r.closures[t] = fv
	return fv
}

func (r *Run) tv(it *Item, v ssa.Value) *Term { return r.term(it.st, r.val(it, v)) }
