package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Loops: the modified state is havocked, candidate invariants (templates from
// the contracts plus automatic ones) are pruned to an inductive set, and the
// body is executed once from an arbitrary state satisfying that set.

type modset struct {
	whole map[string]bool
	fresh map[string]bool           // written at objects allocated in the loop
	idx   map[string]map[*Term]bool // written at loop-invariant places
}

type cand struct {
	name string
	eval func(it *Item, pre *State) *Term
	user bool
}

var symNum = regexp.MustCompile(`!([0-9]+)$`)
var havNum = regexp.MustCompile(`@h[0-9]+\.([0-9]+)$`)

// newerThan: does t mention a symbol created after the given counters?
func newerThan(t *Term, nsym, epoch int) (newer, onlyAlloc bool) {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == "#const" {
			if strings.HasPrefix(t.lit, "wm!") {
				s := t.lit[3:]
				if j := strings.IndexByte(s, '!'); j >= 0 {
					s = s[:j]
				}
				n, _ := strconv.Atoi(s)
				return n > epoch
			}
			if m := havNum.FindStringSubmatch(t.lit); m != nil {
				n, _ := strconv.Atoi(m[1])
				return n > nsym
			}
			if m := symNum.FindStringSubmatch(t.lit); m != nil {
				n, _ := strconv.Atoi(m[1])
				return n > nsym
			}
			return false
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	newer = rec(t)
	if newer {
		if k, ok := wmOf(t); ok && k > epoch {
			return true, true
		}
	}
	return newer, false
}

func (r *Run) loop(fn *ssa.Function, h *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool, it *Item) ([]*Item, []Exit) {
	outer := r.loopDepth == 0
	r.atLoopLeave(it.st, true)
	r.loopDepth++
	defer func() { r.loopDepth-- }()
	savedIter, savedPre, savedStack := r.iter, r.iterPre, r.loopStack
	if outer {
		r.loopStack = len(r.stack)
		defer func() { r.iter, r.iterPre, r.loopStack = savedIter, savedPre, savedStack }()
	}
	pre := it.st.clone()
	nsym0, epoch0 := r.nsym, r.epochN
	ms := &modset{map[string]bool{}, map[string]bool{}, map[string]map[*Term]bool{}}

	var phis []*ssa.Phi
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
	}
	if outer && r.spec != nil {
		for _, b := range r.spec.locals {
			var found []SVal
			for _, m := range r.metaVals(it, phis, b.typ, r.spec.pkg) {
				if v := m.get(it); m.name[0] != '*' && v.t != nil {
					found = append(found, v)
				}
			}
			if len(found) == 1 {
				r.params[b.name] = found[0]
			}
		}
	}
	start := func() *Item {
		o := it.clone()
		r.newEpoch(o.st)
		o.st.event = nil
		for _, ph := range phis {
			if _, isAddr := it.env[ph].(*Addr); isAddr {
				panic(unsupported("interior pointer changes in a loop"))
			}
			v := r.freshOf(o.st, ph.Type(), "phi")
			o.set(ph, v)
		}
		var names []string
		for n := range ms.whole {
			names = append(names, n)
		}
		for n := range ms.idx {
			if !ms.whole[n] {
				names = append(names, n)
			}
		}
		for n := range ms.fresh {
			if !ms.whole[n] && ms.idx[n] == nil {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			if ms.whole[n] || !strings.HasPrefix(heapVars[n].sort, "(Array Int") {
				t := r.havocVar(o.st, n)
				if t.sort != heapVars[n].sort {
					panic("sort")
				}
				continue
			}
			old := r.hget(pre, n)
			_, es, _ := arrParts(old.sort)
			if !ms.fresh[n] {
				cur := old
				for _, ix := range sortedTerms(ms.idx[n]) {
					v := r.fresh("hv", es)
					if heapVars[n].ref {
						r.setRank(o.st, v)
					}
					if heapVars[n].typ != nil && es == sortOf(heapVars[n].typ) {
						r.wellFormed(o.st, heapVars[n].typ, v)
					}
					cur = Store(cur, ix, v)
				}
				r.hset(o.st, n, cur)
				continue
			}
			nw := r.havocVar(o.st, n)
			p := BVar("p", SInt)
			cs := []*Term{Lt(p, pre.wm)}
			for _, ix := range sortedTerms(ms.idx[n]) {
				cs = append(cs, Not(Eq(p, ix)))
			}
			o.st.assume(Forall([]*Term{p}, [][]*Term{{Select(nw, p)}}, Imp(And(cs...), Eq(Select(nw, p), Select(old, p)))))
		}
		return o
	}
	run := func(o *Item) ([]*Item, []*Item, []Exit) {
		return r.region(fn, []*Item{o}, blocks, h)
	}
	// what does the loop modify?
	for pass := 0; ; pass++ {
		if pass > 12 {
			panic(unsupported("loop modifications do not stabilise"))
		}
		log := &storeLog{map[string]bool{}, map[string]map[*Term]bool{}}
		r.storeLogs = append(r.storeLogs, log)
		ns, ep := r.nsym, r.epochN
		_ = ns
		r.mute++
		o := start()
		run(o)
		r.mute--
		r.storeLogs = r.storeLogs[:len(r.storeLogs)-1]
		ch := false
		for n := range log.whole {
			if !ms.whole[n] {
				ms.whole[n] = true
				ch = true
			}
		}
		for n, is := range log.idx {
			if ms.whole[n] {
				continue
			}
			for ix := range is {
				newer, al := newerThan(ix, nsym0, epoch0)
				switch {
				case !newer && (len(ms.idx[n]) >= 8 && !ms.idx[n][ix] || ix.size > 400):
					ms.whole[n] = true
					ch = true
				case !newer:
					if ms.idx[n] == nil {
						ms.idx[n] = map[*Term]bool{}
					}
					if !ms.idx[n][ix] {
						ms.idx[n][ix] = true
						ch = true
					}
				case al:
					if !ms.fresh[n] {
						ms.fresh[n] = true
						ch = true
					}
				default:
					if r.provableFresh(ix, pre) {
						if !ms.fresh[n] {
							ms.fresh[n] = true
							ch = true
						}
					} else {
						ms.whole[n] = true
						ch = true
					}
				}
			}
		}
		_ = ep
		if !ch {
			break
		}
	}
	// propagate to enclosing logs
	for n := range ms.whole {
		r.logStore(n, nil)
	}
	for n, is := range ms.idx {
		for ix := range is {
			r.logStore(n, ix)
		}
	}
	// candidates
	cands := r.candidates(it, phis, ms, pre)
	var live []cand
	{
		goals := make([]*Term, len(cands))
		for i, c := range cands {
			goals[i] = r.evalCand(c, it, pre)
		}
		ok := r.checkAll(it.st, goals)
		for i, c := range cands {
			if os.Getenv("GOCV_INV") == "2" && !(goals[i] != nil && ok[i]) {
				fmt.Fprintf(os.Stderr, "  %s: not initial %s\n", r.name, c.name)
			}
			if goals[i] != nil && ok[i] {
				live = append(live, c)
			}
		}
	}
	for pass := 0; ; pass++ {
		if pass > 40 {
			panic(unsupported("invariants do not stabilise"))
		}
		mark := len(r.obls)
		o := start()
		for _, c := range live {
			if t := r.evalCand(c, o, pre); t != nil {
				o.st.assumeInst(t)
			}
		}
		r.assumeLibInvs(o.st, false)
		r.assumeAllocInvs(o.st)
		if outer {
			r.iter, r.iterPre = o.st.clone(), pre
		}
		backs, exits, rets := run(o)
		bad := map[int]bool{}
		for _, b := range backs {
			goals := make([]*Term, len(live))
			for i, c := range live {
				if !bad[i] {
					goals[i] = r.evalCand(c, b, pre)
				}
			}
			ok := r.checkAll(b.st, goals)
			for i := range live {
				if !ok[i] && !bad[i] {
					bad[i] = true
					if debugInv && (live[i].user || os.Getenv("GOCV_INV") == "2") {
						fmt.Fprintf(os.Stderr, "  %s: drop %s at %s\n", r.name, live[i].name, r.pos(h.Instrs[0].Pos()))
					}
				}
			}
		}
		if len(bad) == 0 {
			if debugInv {
				for _, c := range live {
					if c.user {
						fmt.Fprintf(os.Stderr, "  %s: keep %s\n", r.name, c.name)
					}
				}
			}
			if outer {
				for _, b := range backs {
					r.stepClauses(b.st, "step")
				}
				if r.mute == 0 && !pre.left && r.spec != nil && len(r.spec.get("leave"))+len(r.spec.get("end")) > 0 {
					var ex []*Item
					silent := false
					for _, e := range exits {
						if e.st.event == nil && r.spec.hasOn() {
							silent = true
							continue
						}
						e.st.leaving = &leaving{r.iter, r.iterPre, e.st.event, r.loopStack, false}
						e.st.left = true
						ex = append(ex, e)
					}
					if silent {
						// the loop is left before anything happens in an iteration: what counts is the iteration before it
						pr := func(o *Item, l *leaving) {
							if os.Getenv("GOCV_INV") == "2" {
								fmt.Fprintf(os.Stderr, "  %s: leaving after an iteration\n", r.name)
							}
							r.mute++
							r.noEvents = true
							_, es, _ := run(o)
							r.noEvents = false
							r.mute--
							for _, e := range es {
								if !e.st.dead {
									e.st.leaving = l
									e.st.left = true
									ex = append(ex, e)
								}
							}
						}
						for _, b := range backs {
							pr(b.clone(), &leaving{r.iter, r.iterPre, b.st.event, r.loopStack, false})
						}
						pr(it.clone(), &leaving{r.iter, r.iterPre, nil, r.loopStack, true})
					}
					exits = ex
				}
			}
			for _, e := range exits {
				e.st.event = pre.event
			}
			if r.mute == 0 {
				r.loopsDone++
				r.invUsedN += len(live)
			}
			if outer && len(backs) > 0 {
				r.backEdges++
			}
			return exits, rets
		}
		r.obls = r.obls[:mark]
		var nl []cand
		for i, c := range live {
			if !bad[i] {
				nl = append(nl, c)
			}
		}
		live = nl
	}
}

var debugInv = os.Getenv("GOCV_INV") != ""

// provableFresh: index terms such as ite(c, alloc, alloc')
func (r *Run) provableFresh(ix *Term, pre *State) bool {
	if ix.op == "ite" {
		return r.provableFresh(ix.args[1], pre) && r.provableFresh(ix.args[2], pre)
	}
	if _, ok := wmOf(ix); ok {
		_, al := newerThan(ix, 1<<60, pre.wmIdx)
		return al
	}
	return false
}

// modIdx: the objects whose component n the contract allows to change.
func (r *Run) modIdx(n string) []*Term {
	if r.spec == nil || r.entry == nil {
		return nil
	}
	ctx := r.specCtx(r.entry, r.spec.pkg)
	ctx.old = r.entry
	ctx.sink = nil
	var out []*Term
	for _, m := range r.spec.get("modifies") {
		for _, nd := range m.locs {
			for _, l := range ctx.loc(nd) {
				if l.heap == n && l.idx != nil && l.view == nil {
					out = append(out, l.idx)
				}
			}
		}
	}
	return out
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func (r *Run) evalCand(c cand, it *Item, pre *State) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case specErr, unsupportedErr:
				t = nil
			default:
				panic(e)
			}
		}
	}()
	return c.eval(it, pre)
}

// checkAll proves goals in parallel; nil goals count as failed.
func (r *Run) checkAll(st *State, goals []*Term) []bool {
	ok := make([]bool, len(goals))
	if st.dead {
		for i := range ok {
			ok[i] = true
		}
		return ok
	}
	facts := st.factList()
	var wg sync.WaitGroup
	for i, g := range goals {
		if g == nil {
			continue
		}
		g := st.simp(g)
		if g == TTrue {
			ok[i] = true
			continue
		}
		if g == TFalse && len(facts) == 0 {
			continue
		}
		q := BuildQuery(append(append([]*Term(nil), facts...), Not(g)), -1, "invariant candidate")
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			v := solve(q, true)
			ok[i] = v.res == "unsat"
			if d := os.Getenv("GOCV_DUMPINV"); d != "" && !ok[i] && strings.Contains(g.String(), d) {
				os.WriteFile(fmt.Sprintf("/tmp/inv-%d-%d.smt2", len(facts), i), []byte("; "+v.res+"\n"+q), 0644)
			}
		}(i)
	}
	wg.Wait()
	return ok
}

type metaVal struct {
	name string
	get  func(it *Item) SVal
}

// values a metavariable of the given type can stand for
func (r *Run) metaVals(it *Item, phis []*ssa.Phi, typ string, pkg string) []metaVal {
	rt := r.v.resolveType(pkg, typ)
	isPhi := map[ssa.Value]bool{}
	var out []metaVal
	for _, ph := range phis {
		ph := ph
		isPhi[ph] = true
		if rt.typ == nil || !types.Identical(types.Unalias(ph.Type()), rt.typ) {
			continue
		}
		out = append(out, metaVal{ph.Name(), func(i *Item) SVal { return SVal{t: r.tv(i, ph), typ: ph.Type()} }})
		if sortOf(ph.Type()) == SInt && !isRefType(ph.Type()) {
			out = append(out, metaVal{ph.Name() + "+1", func(i *Item) SVal { return SVal{t: Add(r.tv(i, ph), TOne), typ: ph.Type()} }})
		}
	}
	var vs []ssa.Value
	for v := range it.env {
		if v != nil {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	seen := map[*Term]bool{}
	for _, v := range vs {
		v := v
		x := it.env[v]
		if iv, ok := x.(*iterVal); ok {
			if rt.typ == nil && rt.sort == heapVars[iv.name].sort {
				out = append(out, metaVal{v.Name(), func(i *Item) SVal { return SVal{t: r.hget(i.st, iv.name), sort: rt.sort} }})
			}
			continue
		}
		if rt.typ == nil || isPhi[v] {
			continue
		}
		if al, ok := v.(*ssa.Alloc); ok {
			et := al.Type().(*types.Pointer).Elem()
			if types.Identical(types.Unalias(et), rt.typ) && !isStruct(et) {
				if _, isArr := et.Underlying().(*types.Array); !isArr {
					out = append(out, metaVal{"*" + v.Name(), func(i *Item) SVal { return SVal{t: r.loadPtr(i.st, i.env[al], et), typ: et} }})
				}
			}
		}
		if _, ok := v.(*ssa.FreeVar); ok {
			if p, ok := v.Type().(*types.Pointer); ok && types.Identical(types.Unalias(p.Elem()), rt.typ) && !isStruct(p.Elem()) {
				et := p.Elem()
				out = append(out, metaVal{"*" + v.Name(), func(i *Item) SVal { return SVal{t: r.loadPtr(i.st, i.env[v], et), typ: et} }})
			}
		}
		if !types.Identical(types.Unalias(v.Type()), rt.typ) {
			continue
		}
		t, ok := x.(*Term)
		if !ok || seen[t] || t.op == "#int" {
			continue
		}
		if b, isB := rt.typ.Underlying().(*types.Basic); isB && b.Info()&types.IsBoolean != 0 {
			continue
		}
		seen[t] = true
		out = append(out, metaVal{v.Name(), func(i *Item) SVal { return SVal{t: t, typ: v.Type()} }})
	}
	return out
}

func (r *Run) candidates(it *Item, phis []*ssa.Phi, ms *modset, pre *State) []cand {
	var cs []cand
	// automatic
	for _, ph := range phis {
		ph := ph
		init, ok := it.env[ph].(*Term)
		if !ok {
			if fv, isF := it.env[ph].(*FuncVal); isF {
				init = fv.term
			} else {
				continue
			}
		}
		if sortOf(ph.Type()) == SInt && !isRefType(ph.Type()) {
			if _, isF := ph.Type().Underlying().(*types.Signature); !isF {
				cs = append(cs, cand{name: ph.Name() + ">=init", eval: func(i *Item, _ *State) *Term { return Le(init, r.tv(i, ph)) }})
				cs = append(cs, cand{name: ph.Name() + "<=init", eval: func(i *Item, _ *State) *Term { return Le(r.tv(i, ph), init) }})
				continue
			}
		}
		cs = append(cs, cand{name: ph.Name() + "==init", eval: func(i *Item, _ *State) *Term { return Eq(r.tv(i, ph), init) }})
		if isRefType(ph.Type()) {
			cs = append(cs, cand{name: ph.Name() + "!=nil", eval: func(i *Item, _ *State) *Term { return Not(Eq(r.tv(i, ph), TZero)) }})
		}
	}
	// type invariants of the package
	for k, ti := range r.typeInvs() {
		ti := ti
		if ti.alloc {
			continue
		}
		cs = append(cs, cand{name: fmt.Sprintf("typeinv%d", k), eval: func(i *Item, _ *State) *Term { return r.typeInvTerm(i.st, ti) }})
	}
	// automatic: objects that exist before the loop keep their contents
	var wn []string
	for n := range ms.whole {
		wn = append(wn, n)
	}
	sort.Strings(wn)
	for _, n := range wn {
		n := n
		if is, _, ok := arrParts(heapVars[n].sort); !ok || is != SInt || strings.HasPrefix(n, "G:") {
			continue
		}
		for _, entry := range []bool{false, true} {
			entry := entry
			if entry && (r.entry == nil || r.entry.wm == pre.wm) {
				continue
			}
			nm := "old objects keep "
			if entry {
				nm = "objects from before the call keep "
			}
			cs = append(cs, cand{name: nm + n, eval: func(i *Item, pre *State) *Term {
				p := BVar("p", SInt)
				wm := pre.wm
				if entry {
					wm = r.entry.wm
				}
				a, b := r.hget(pre, n), r.hget(i.st, n)
				cs := []*Term{Lt(p, wm), Not(Eq(p, TZero))}
				for _, ix := range r.modIdx(n) {
					cs = append(cs, Not(Eq(p, ix)))
				}
				return Forall([]*Term{p}, [][]*Term{{mkRaw("select", "", Select(b, p).sort, b, p)}}, Imp(And(cs...), Eq(Select(b, p), Select(a, p))))
			}})
		}
	}
	// automatic: cells and fields written at loop-invariant places keep their value
	var names []string
	for n := range ms.idx {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		n := n
		if ms.whole[n] {
			continue
		}
		for _, ix := range sortedTerms(ms.idx[n]) {
			ix := ix
			if strings.HasPrefix(n, "V:") {
				continue
			}
			init := Select(r.hget(pre, n), ix)
			cs = append(cs, cand{name: "same " + n, eval: func(i *Item, _ *State) *Term { return Eq(Select(r.hget(i.st, n), ix), init) }})
			if n == "B" {
				cs = append(cs, cand{name: "same length " + n, eval: func(i *Item, _ *State) *Term {
					return Eq(App("slen", SInt, Select(r.hget(i.st, n), ix)), App("slen", SInt, init))
				}})
			}
			if heapVars[n].ref {
				cs = append(cs, cand{name: "nonnil " + n, eval: func(i *Item, _ *State) *Term { return Not(Eq(Select(r.hget(i.st, n), ix), TZero)) }})
			}
		}
	}
	var cl []*Clause
	var pkgOf []string
	if r.spec != nil {
		for _, c := range r.spec.get("inv") {
			cl = append(cl, c)
			pkgOf = append(pkgOf, r.spec.pkg)
		}
	}
	for _, c := range specs.pool[r.pkg] {
		cl = append(cl, c)
		pkgOf = append(pkgOf, r.pkg)
	}
	for ci, c := range cl {
		c := c
		pkg := pkgOf[ci]
		combos := [][]metaVal{{}}
		for _, b := range c.vars {
			var vals []metaVal
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(specErr); !ok {
							panic(e)
						}
					}
				}()
				vals = r.metaVals(it, phis, b.typ, pkg)
			}()
			var nc [][]metaVal
			for _, co := range combos {
				for _, v := range vals {
					nc = append(nc, append(append([]metaVal(nil), co...), v))
				}
			}
			combos = nc
			if len(combos) > 300 {
				combos = combos[:300]
			}
		}
		for _, co := range combos {
			co := co
			nm := c.pos
			for i, b := range c.vars {
				nm += " " + b.name + "=" + co[i].name
			}
			cs = append(cs, cand{name: nm, user: true, eval: func(i *Item, pre *State) *Term {
				ctx := r.specCtx(i.st, pkg)
				ctx.pre = pre
				for k, b := range c.vars {
					ctx.env[b.name] = co[k].get(i)
				}
				return ctx.boolT(c.expr)
			}})
		}
	}
	return cs
}

// leaving: the outermost loop has been left, the leave clauses are not checked
// yet. They are checked before the deferred calls of the function, when it
// returns, or when another loop begins. The end clauses are like that, but no
// later loop matters to them.
type leaving struct {
	iter, pre *State
	event     *Event
	stack     int
	never     bool // the loop was not entered
}

func (r *Run) atLoopLeave(st *State, now bool) {
	check := func(l *leaving, kind string) {
		if l.never {
			for _, c := range r.spec.get(kind) {
				r.oblige(st, kind, c.label+": the loop is entered", c.tags, c.pos, TFalse)
				return
			}
		}
		iter, pre, ev := r.iter, r.iterPre, st.event
		r.iter, r.iterPre, st.event = l.iter, l.pre, l.event
		r.stepClauses(st, kind)
		r.iter, r.iterPre, st.event = iter, pre, ev
	}
	l := st.leaving
	if l != nil && r.loopDepth == 0 && r.inDefer == 0 && (now || len(r.stack) == l.stack) {
		st.leaving = nil
		check(l, "leave")
		if len(r.spec.get("end")) > 0 {
			st.ending = l
		}
	}
	l = st.ending
	if l != nil && r.loopDepth == 0 && r.inDefer == 0 && !now && len(r.stack) == l.stack {
		st.ending = nil
		check(l, "end")
	}
}

func (r *Run) stepClauses(st *State, kind string) {
	if r.mute > 0 || r.spec == nil || st.dead {
		return
	}
	for _, c := range r.spec.get(kind) {
		ctx := r.specCtx(st, r.spec.pkg)
		ctx.iter = r.iter
		ctx.pre = r.iterPre
		cond := TTrue
		if c.on != nil {
			e := st.event
			if e == nil {
				continue
			}
			if c.on.k == "id" && c.on.s == "default" {
				if e.kind != "default" {
					continue
				}
			} else if c.on.k == "id" && c.on.s == "timer" {
				if e.kind == "default" || e.typ.String() != "time.Time" {
					continue
				}
			} else {
				if e.kind == "default" {
					continue
				}
				octx := r.specCtx(st, r.spec.pkg)
				octx.env = ctx.env
				octx.iter, octx.pre = r.iter, r.iterPre
				chv := octx.eval(c.on)
				ct, ok := chv.typ.Underlying().(*types.Chan)
				if !ok {
					panic(specErr{c.pos + ": step on something that is not a channel"})
				}
				if !types.Identical(ct.Elem(), e.typ) {
					continue
				}
				cond = st.simp(Eq(e.ch, chv.t))
				if cond == TFalse {
					continue
				}
				if len(c.vars) > 0 {
					ctx.env[c.vars[0].name] = SVal{t: r.term(st, e.val), typ: e.typ}
				}
				if len(c.vars) > 1 {
					ctx.env[c.vars[1].name] = SVal{t: e.ok, typ: types.Typ[types.Bool]}
				}
			}
		}
		g := Imp(cond, ctx.boolT(c.expr))
		r.stepSeen[c] = true
		r.oblige(st, kind, c.label, c.tags, c.pos, g)
	}
}
