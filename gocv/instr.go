package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// All SSA instructions other than control flow.

func (r *Run) instr(fn *ssa.Function, it *Item, in ssa.Instruction) []*Item {
	st := it.st
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		ref := r.alloc(st)
		r.initObj(st, t, ref)
		it.set(x, ref)
	case *ssa.BinOp:
		it.set(x, r.binop(it, x.Op, x.X.Type(), r.tv(it, x.X), r.tv(it, x.Y), x.Pos(), x.Y.Type()))
	case *ssa.UnOp:
		return r.unop(it, x)
	case *ssa.ChangeType:
		it.set(x, r.val(it, x.X))
	case *ssa.ChangeInterface:
		it.set(x, r.val(it, x.X))
	case *ssa.Convert:
		it.set(x, r.convert(it, x.X.Type(), x.Type(), r.val(it, x.X)))
	case *ssa.MakeInterface:
		it.set(x, mkIfc(x.X.Type(), r.tv(it, x.X)))
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, r.val(it, b))
		}
		fv := r.funcVal(x.Fn.(*ssa.Function), bs)
		// which function it is and what it captures
		declFun("closfn", SInt, SInt)
		st.assume(Eq(App("closfn", SInt, fv.term), Const("fn!"+fnKey(fv.fn), SInt)))
		for i, b := range bs {
			if bt, ok := b.(*Term); ok && bt.sort == SInt {
				f := fmt.Sprintf("closbind%d", i)
				declFun(f, SInt, SInt)
				st.assume(Eq(App(f, SInt, fv.term), bt))
			}
		}
		it.set(x, fv)
	case *ssa.MakeMap:
		ref := r.alloc(st)
		d, v := mapDomHeap(x.Type()), mapValHeap(x.Type())
		_, ds, _ := arrParts(d.sort)
		r.logStore(d.name, ref)
		r.hset(st, d.name, Store(r.hget(st, d.name), ref, ConstArr(ds, TFalse)))
		_ = v
		it.set(x, ref)
	case *ssa.MakeChan:
		ref := r.alloc(st)
		n := r.tv(it, x.Size)
		r.oblige(st, "range", "make(chan) size not negative", nil, r.pos(x.Pos()), Le(TZero, n))
		if _, ok := specs.gvars["chcap"]; ok {
			g := ghostVar("chcap")
			r.logStore(g.name, ref)
			r.hset(st, g.name, Store(r.hget(st, g.name), ref, n))
		}
		it.set(x, ref)
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l, c := r.tv(it, x.Len), r.tv(it, x.Cap)
		r.oblige(st, "range", "make([]T) length in range", nil, r.pos(x.Pos()), And(Le(TZero, l), Le(l, c)))
		st.assume(And(Le(TZero, l), Le(l, c), Le(c, IntLit(1<<50))))
		ref := r.alloc(st)
		h := elemHeap(et)
		r.logStore(h.name, ref)
		if isByte(et) {
			z := App("szero", SStr, c)
			st.assume(Eq(App("slen", SInt, z), c))
			r.hset(st, h.name, Store(r.hget(st, h.name), ref, z))
		} else {
			_, es, _ := arrParts(h.sort)
			r.hset(st, h.name, Store(r.hget(st, h.name), ref, ConstArr(es, zeroOf(et))))
		}
		it.set(x, mkSlc(ref, TZero, l, c))
	case *ssa.Extract:
		tu, ok := r.val(it, x.Tuple).(Tuple)
		if !ok {
			panic(unsupported("extract from " + x.Tuple.String()))
		}
		it.set(x, tu[x.Index])
	case *ssa.Field:
		it.set(x, fieldOfVal(x.X.Type(), x.Field, r.tv(it, x.X)))
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		it.set(x, r.fieldAddr(it, r.val(it, x.X), t, x.Field, x.Pos()))
	case *ssa.Index:
		i := r.tv(it, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			r.oblige(st, "bounds", "index in range", nil, r.pos(x.Pos()), And(Le(TZero, i), Lt(i, IntLit(u.Len()))))
			it.set(x, Select(r.tv(it, x.X), i))
		default:
			it.set(x, r.strIndex(it, r.tv(it, x.X), i, x.Pos()))
		}
	case *ssa.IndexAddr:
		i := r.tv(it, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := r.tv(it, x.X)
			r.oblige(st, "bounds", "index in range", nil, r.pos(x.Pos()), And(Le(TZero, i), Lt(i, slcLen(s))))
			st.assume(And(Le(TZero, i), Lt(i, slcLen(s))))
			it.set(x, &Addr{heap: elemHeap(u.Elem()).name, idx: []*Term{slcBase(s), Add(slcOff(s), i)}, typ: u.Elem()})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			r.oblige(st, "bounds", "index in range", nil, r.pos(x.Pos()), And(Le(TZero, i), Lt(i, IntLit(at.Len()))))
			st.assume(And(Le(TZero, i), Lt(i, IntLit(at.Len()))))
			b, ok := r.val(it, x.X).(*Term)
			if !ok {
				panic(unsupported("array inside a struct"))
			}
			r.nonNil(st, b, "array pointer", x.Pos())
			it.set(x, &Addr{heap: elemHeap(at.Elem()).name, idx: []*Term{b, i}, typ: at.Elem()})
		}
	case *ssa.Lookup:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			v, has := r.mapGet(st, x.X.Type(), r.tv(it, x.X), r.tv(it, x.Index))
			r.wellFormed(st, m.Elem(), v)
			if x.CommaOk {
				it.set(x, Tuple{v, has})
			} else {
				it.set(x, v)
			}
		} else {
			it.set(x, r.strIndex(it, r.tv(it, x.X), r.tv(it, x.Index), x.Pos()))
		}
	case *ssa.MapUpdate:
		m := r.tv(it, x.Map)
		r.nonNil(st, m, "assignment to entry in nil map", x.Pos())
		k, v := r.tv(it, x.Key), r.tv(it, x.Value)
		d, vh := mapDomHeap(x.Map.Type()), mapValHeap(x.Map.Type())
		D, V := r.hget(st, d.name), r.hget(st, vh.name)
		r.logStore(d.name, m)
		r.logStore(vh.name, m)
		r.hset(st, d.name, Store(D, m, Store(Select(D, m), k, TTrue)))
		r.hset(st, vh.name, Store(V, m, Store(Select(V, m), k, v)))
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			panic(unsupported("range over string"))
		}
		m := r.tv(it, x.X)
		d := mapDomHeap(x.X.Type())
		_, ds, _ := arrParts(d.sort)
		r.nsym++
		nm := fmt.Sprintf("V:iter%d", r.nsym)
		heapVar(nm, ds, nil, false)
		r.hset(st, nm, ConstArr(ds, TFalse))
		it.set(x, &iterVal{m: m, typ: x.X.Type(), name: nm})
	case *ssa.Next:
		return r.next(it, x)
	case *ssa.Slice:
		r.slice(it, x)
	case *ssa.Store:
		t := x.Addr.Type().Underlying().(*types.Pointer).Elem()
		p := r.val(it, x.Addr)
		if ref, ok := p.(*Term); ok {
			r.nonNil(st, ref, "store", x.Pos())
		}
		v := r.tv(it, x.Val)
		if fv, ok := r.val(it, x.Val).(*FuncVal); ok {
			r.closures[fv.term] = fv
		}
		r.onStore(st, p, x.Pos())
		r.storePtr(st, p, t, v)
	case *ssa.TypeAssert:
		return r.typeAssert(it, x)
	case *ssa.Send:
		r.send(st, r.tv(it, x.Chan), x.Chan.Type(), r.tv(it, x.X), x.Pos())
	case *ssa.Select:
		return r.selectStmt(it, x)
	case *ssa.Go:
		fv, args := r.callee(it, &x.Call)
		r.goEvent(st, fv, args, x)
	case *ssa.Defer:
		fv, args := r.callee(it, &x.Call)
		c := x.Call
		it.defers = append(append([]deferred(nil), it.defers...), deferred{&c, fv, args, x.Pos()})
	case *ssa.RunDefers:
		return r.runDefers(fn, it)
	case *ssa.Call:
		return r.call(it, x)
	case *ssa.MultiConvert, *ssa.SliceToArrayPointer:
		panic(unsupported(x.String()))
	default:
		panic(unsupported(fmt.Sprintf("%T", in)))
	}
	return nil
}

func (r *Run) initObj(st *State, t types.Type, ref *Term) {
	if isStruct(t) {
		r.zeroStruct(st, t, ref)
		return
	}
	if at, ok := t.Underlying().(*types.Array); ok {
		h := elemHeap(at.Elem())
		_, es, _ := arrParts(h.sort)
		if isByte(at.Elem()) {
			z := App("szero", SStr, IntLit(at.Len()))
			st.assume(Eq(App("slen", SInt, z), IntLit(at.Len())))
			r.hset(st, h.name, Store(r.hget(st, h.name), ref, z))
			return
		}
		r.hset(st, h.name, Store(r.hget(st, h.name), ref, ConstArr(es, zeroOf(at.Elem()))))
		return
	}
	h := cellHeap(t)
	r.hset(st, h.name, Store(r.hget(st, h.name), ref, zeroOf(t)))
}

func (r *Run) fieldAddr(it *Item, p Val, t types.Type, i int, pos token.Pos) Val {
	f := structOf(t).Field(i)
	if a, ok := p.(*Addr); ok {
		if isOpaqueStruct(t) {
			panic(unsupported("field of embedded opaque struct"))
		}
		n := *a
		n.path = append(append([]pathSel(nil), a.path...), pathSel{t, i})
		n.typ = f.Type()
		return &n
	}
	ref := p.(*Term)
	r.nonNil(it.st, ref, "field "+f.Name(), pos)
	return &Addr{heap: fieldHeap(t, f).name, idx: []*Term{ref}, typ: f.Type()}
}

func (r *Run) strIndex(it *Item, s, i *Term, p token.Pos) *Term {
	st := it.st
	r.oblige(st, "bounds", "index in range", nil, r.pos(p), And(Le(TZero, i), Lt(i, App("slen", SInt, s))))
	st.assume(And(Le(TZero, i), Lt(i, App("slen", SInt, s))))
	v := App("sat", SInt, s, i)
	st.assume(And(Le(TZero, v), Le(v, IntLit(255))))
	return v
}

func (r *Run) mapGet(st *State, t types.Type, m, k *Term) (v, has *Term) {
	d, vh := mapDomHeap(t), mapValHeap(t)
	D := Select(Select(r.hget(st, d.name), m), k)
	if m.op == "#int" && m.lit == "0" {
		D = TFalse
	} else if _, ok := wmOf(m); !ok {
		D = And(Not(Eq(m, TZero)), D)
	}
	D = st.simp(D)
	V := Select(Select(r.hget(st, vh.name), m), k)
	return Ite(D, V, zeroOf(t.Underlying().(*types.Map).Elem())), D
}

func (r *Run) next(it *Item, x *ssa.Next) []*Item {
	iv, ok := r.val(it, x.Iter).(*iterVal)
	if !ok {
		panic(unsupported("range iterator"))
	}
	m := iv.typ.Underlying().(*types.Map)
	d := mapDomHeap(iv.typ)
	o := it.clone()
	// another entry
	{
		st := it.st
		k := r.fresh("key", sortOf(m.Key()))
		if isRefType(m.Key()) {
			r.setRank(st, k)
		}
		r.wellFormed(st, m.Key(), k)
		dom := Select(r.hget(st, d.name), iv.m)
		st.assume(And(Not(Eq(iv.m, TZero)), Select(dom, k)))
		vis := r.hget(st, iv.name)
		st.assume(Not(Select(vis, k)))
		v := Select(Select(r.hget(st, mapValHeap(iv.typ).name), iv.m), k)
		r.wellFormed(st, m.Elem(), v)
		r.logStore(iv.name, nil)
		r.hset(st, iv.name, Store(vis, k, TTrue))
		it.set(x, Tuple{TTrue, k, v})
	}
	// done
	{
		st := o.st
		k := BVar("k", sortOf(m.Key()))
		dom := Select(r.hget(st, d.name), iv.m)
		vis := r.hget(st, iv.name)
		st.assume(Imp(Not(Eq(iv.m, TZero)), Forall([]*Term{k}, [][]*Term{{Select(dom, k)}, {Select(vis, k)}}, Imp(Select(dom, k), Select(vis, k)))))
		o.set(x, Tuple{TFalse, zeroOf(m.Key()), zeroOf(m.Elem())})
	}
	return []*Item{o}
}

// ---- arithmetic

func (r *Run) provable(st *State, goal *Term) bool {
	g := st.simp(goal)
	if g == TTrue {
		return true
	}
	if g == TFalse {
		return false
	}
	q := BuildQuery(append(st.factList(), Not(g)), -1, "side condition")
	return solve(q, true).res == "unsat"
}

// bounds: cheap interval of an integer term
func (r *Run) bounds(st *State, t *Term, d int) (lo, hi *big.Int) {
	if t.op == "#int" {
		v, _ := new(big.Int).SetString(t.lit, 10)
		return v, v
	}
	switch t.op {
	case "slen", "slc-len", "slc-cap", "slc-off":
		return big.NewInt(0), big.NewInt(1 << 50)
	case "sat":
		return big.NewInt(0), big.NewInt(255)
	}
	if d > 3 {
		return nil, nil
	}
	switch t.op {
	case "+":
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, a := range t.args {
			l, h := r.bounds(st, a, d+1)
			if l == nil || lo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, l)
			}
			if h == nil || hi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, h)
			}
		}
		return
	case "*":
		if t.args[0].op == "#int" {
			c, _ := new(big.Int).SetString(t.args[0].lit, 10)
			l, h := r.bounds(st, t.args[1], d+1)
			if l == nil || h == nil {
				return nil, nil
			}
			a, b := new(big.Int).Mul(c, l), new(big.Int).Mul(c, h)
			if a.Cmp(b) > 0 {
				a, b = b, a
			}
			return a, b
		}
	}
	return nil, nil
}

func (r *Run) wrap(st *State, t types.Type, v *Term, op string, a, b *Term) *Term {
	los, his, ok := intRange(t)
	if !ok {
		return v
	}
	lo, _ := new(big.Int).SetString(los, 10)
	hi, _ := new(big.Int).SetString(his, 10)
	if l, h := r.bounds(st, v, 0); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	in := And(Le(IntLitS(los), v), Le(v, IntLitS(his)))
	if r.provable(st, in) {
		st.assume(in)
		return v
	}
	mod := new(big.Int).Sub(hi, lo)
	mod.Add(mod, big.NewInt(1))
	m := IntLitS(mod.String())
	if op == "+" || op == "-" || op == "neg" {
		return Ite(Lt(IntLitS(his), v), mkSubBig(v, m), Ite(Lt(v, IntLitS(los)), mkAddBig(v, m), v))
	}
	f := "wrap_" + sanitize(typeKey(t.Underlying()))
	declFun(f, SInt, SInt)
	w := App(f, SInt, v)
	st.assume(inRange(t, w))
	st.assume(Imp(in, Eq(w, v)))
	return w
}

func mkSubBig(a, b *Term) *Term { return mkRaw("+", "", SInt, a, mkRaw("*", "", SInt, IntLit(-1), b)) }
func mkAddBig(a, b *Term) *Term { return mkRaw("+", "", SInt, a, b) }

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (r *Run) binop(it *Item, op token.Token, t types.Type, a, b *Term, p token.Pos, ty types.Type) *Term {
	st := it.st
	switch op {
	case token.EQL, token.NEQ:
		e := r.goEq(st, t, ty, a, b)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	s := sortOf(t)
	if s == "Flt" {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			f := "flt_" + sanitizeOp(op)
			declFun(f, SBool, "Flt", "Flt")
			return App(f, SBool, a, b)
		}
		f := "flt_" + sanitizeOp(op)
		declFun(f, "Flt", "Flt", "Flt")
		return App(f, "Flt", a, b)
	}
	if s == SStr {
		switch op {
		case token.ADD:
			return Cat(a, b)
		case token.LSS:
			return App("slt", SBool, a, b)
		case token.GTR:
			return App("slt", SBool, b, a)
		case token.LEQ:
			return Not(App("slt", SBool, b, a))
		case token.GEQ:
			return Not(App("slt", SBool, a, b))
		}
	}
	if s == SBool {
		switch op {
		case token.AND, token.LAND:
			return And(a, b)
		case token.OR, token.LOR:
			return Or(a, b)
		case token.XOR:
			return Not(Eq(a, b))
		}
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	case token.ADD:
		return r.wrap(st, t, Add(a, b), "+", a, b)
	case token.SUB:
		return r.wrap(st, t, Sub(a, b), "-", a, b)
	case token.MUL:
		return r.wrap(st, t, Mul(a, b), "*", a, b)
	case token.QUO, token.REM:
		r.oblige(st, "div", "division by zero", nil, r.pos(p), Not(Eq(b, TZero)))
		st.assume(Not(Eq(b, TZero)))
		bc, isC := b.isInt()
		d := func(x *Term) *Term { return mkRaw("div", "", SInt, x, b) }
		m := func(x *Term) *Term { return mkRaw("mod", "", SInt, x, b) }
		if isC && bc > 0 {
			lo, _ := r.bounds(st, a, 0)
			nonneg := lo != nil && lo.Sign() >= 0 || r.provable(st, Le(TZero, a))
			if op == token.QUO {
				if nonneg {
					return d(a)
				}
				return Ite(Le(TZero, a), d(a), Neg(d(Neg(a))))
			}
			if nonneg {
				return m(a)
			}
			return Ite(Le(TZero, a), m(a), Neg(m(Neg(a))))
		}
		f := "godiv"
		if op == token.REM {
			f = "gorem"
		}
		declFun(f, SInt, SInt, SInt)
		v := App(f, SInt, a, b)
		st.assume(inRange(t, v))
		return v
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if op == token.SHL {
			if c, ok := b.isInt(); ok && c >= 0 && c < 63 {
				return r.wrap(st, t, Mul(a, IntLit(1<<uint(c))), "*", a, b)
			}
		}
		if op == token.SHR {
			if c, ok := b.isInt(); ok && c >= 0 && c < 63 {
				return mkRaw("div", "", SInt, a, IntLit(1<<uint(c)))
			}
		}
		if op == token.AND && b == TOne {
			return mkRaw("mod", "", SInt, a, IntLit(2))
		}
		f := "bit_" + sanitizeOp(op)
		declFun(f, SInt, SInt, SInt)
		v := App(f, SInt, a, b)
		st.assume(inRange(t, v))
		return v
	}
	panic(unsupported("operator " + op.String()))
}

func sanitizeOp(op token.Token) string {
	return map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "quo", token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge", token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[op]
}

func (r *Run) goEq(st *State, t, ty types.Type, a, b *Term) *Term {
	if a.sort == SSlc {
		if b == TNilSlc {
			return Eq(slcBase(a), TZero)
		}
		if a == TNilSlc {
			return Eq(slcBase(b), TZero)
		}
		panic(unsupported("slice comparison"))
	}
	if a.sort != b.sort {
		// interface against concrete value
		if a.sort == SIfc {
			b = mkIfc(ty, b)
		} else if b.sort == SIfc {
			a = mkIfc(t, a)
		}
	}
	return eqIfcNil(a, b)
}

// eqIfcNil: an interface value is nil if it has no dynamic type.
func eqIfcNil(a, b *Term) *Term {
	if a == TNilIfc && b.sort == SIfc {
		a, b = b, a
	}
	if b == TNilIfc {
		return Eq(App("ifc-tag", SInt, a), TZero)
	}
	return Eq(a, b)
}

func (r *Run) unop(it *Item, x *ssa.UnOp) []*Item {
	st := it.st
	switch x.Op {
	case token.MUL:
		p := r.val(it, x.X)
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		if ref, ok := p.(*Term); ok {
			r.nonNil(st, ref, "load", x.Pos())
		}
		v := r.loadPtr(st, p, t)
		if fv, ok := r.closures[v]; ok {
			it.set(x, fv)
			return nil
		}
		it.set(x, v)
	case token.NOT:
		it.set(x, Not(r.tv(it, x.X)))
	case token.SUB:
		if sortOf(x.X.Type()) == "Flt" {
			declFun("flt_neg", "Flt", "Flt")
			it.set(x, App("flt_neg", "Flt", r.tv(it, x.X)))
			return nil
		}
		it.set(x, r.wrap(st, x.X.Type(), Neg(r.tv(it, x.X)), "neg", nil, nil))
	case token.XOR:
		declFun("bit_not", SInt, SInt)
		v := App("bit_not", SInt, r.tv(it, x.X))
		st.assume(inRange(x.Type(), v))
		it.set(x, v)
	case token.ARROW:
		ch := r.tv(it, x.X)
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		r.nonNil(st, ch, "receive from nil channel blocks forever", x.Pos())
		v, ok := r.recv(st, ch, x.X.Type(), et)
		r.event(it.st, &Event{ch: ch, val: v, typ: et, ok: ok, kind: "recv"})
		if x.CommaOk {
			it.set(x, Tuple{v, ok})
		} else {
			it.set(x, v)
		}
	}
	return nil
}

func (r *Run) event(st *State, e *Event) {
	if r.inDefer == 0 {
		st.event = e
		if r.noEvents {
			st.dead = true
		}
	}
}

// recv: a value received from ch (ok=false: closed)
func (r *Run) recv(st *State, ch *Term, cht, et types.Type) (*Term, *Term) {
	v := r.freshOf(st, et, "rcv")
	ok := r.fresh("ok", SBool)
	st.assume(Imp(Not(ok), Eq(v, zeroOf(et))))
	r.chanFacts(st, ch, et, v, ok)
	if r.spec != nil && r.spec.flags["recv"] && r.inDefer == 0 {
		// the ghost variables rcvch, rcvok and rcvval describe the last receive
		b := v
		if v.sort != SInt {
			b = Box(sanitize(v.sort), v)
		}
		for _, g := range []string{"rcvch", "rcvok", "rcvval"} {
			r.logStore(ghostVar(g).name, nil)
		}
		r.hset(st, ghostVar("rcvch").name, ch)
		r.hset(st, ghostVar("rcvok").name, ok)
		r.hset(st, ghostVar("rcvval").name, b)
	}
	return v, ok
}

func (r *Run) freshOf(st *State, t types.Type, hint string) *Term {
	v := r.fresh(hint, sortOf(t))
	if isRefType(t) {
		r.setRank(st, v)
	}
	r.wellFormed(st, t, v)
	if s, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			f := fieldOfVal(t, i, v)
			if isRefType(s.Field(i).Type()) {
				f.rank = curRank(st)
			}
			r.wellFormed(st, s.Field(i).Type(), f)
		}
	}
	return v
}

func (r *Run) convert(it *Item, from, to types.Type, v Val) Val {
	st := it.st
	fu, tu := from.Underlying(), to.Underlying()
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if p, ok := fu.(*types.Pointer); ok {
			r.notes["unsafe.Pointer conversion of a *"+p.Elem().String()+" read through its original memory"] = true
			if ref, ok := v.(*Term); ok && !isStruct(p.Elem()) {
				return &Addr{heap: cellHeap(p.Elem()).name, idx: []*Term{ref}, typ: p.Elem()}
			}
		}
		return v
	}
	if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	t := r.term(st, v)
	sf, stt := sortOf(from), sortOf(to)
	switch {
	case sf == SStr && stt == SStr:
		return t
	case sf == SStr && isByteSlice(to):
		return r.newBytes(st, t)
	case isByteSlice(from) && stt == SStr:
		return r.bytesOf(st, t)
	case sf == SInt && stt == SInt:
		if isRefType(to) || isRefType(from) {
			return t
		}
		lo, hi, ok := intRange(to)
		if !ok {
			return t
		}
		flo, fhi, fok := intRange(from)
		if fok {
			a, _ := new(big.Int).SetString(lo, 10)
			b, _ := new(big.Int).SetString(hi, 10)
			c, _ := new(big.Int).SetString(flo, 10)
			d, _ := new(big.Int).SetString(fhi, 10)
			if a.Cmp(c) <= 0 && d.Cmp(b) <= 0 {
				return t
			}
		}
		return r.wrap(st, to, t, "conv", nil, nil)
	case sf == stt:
		return t
	}
	f := "conv_" + sanitize(typeKey(fu)) + "_" + sanitize(typeKey(tu))
	declFun(f, stt, sf)
	w := App(f, stt, t)
	r.wellFormed(st, to, w)
	return w
}

func (r *Run) slice(it *Item, x *ssa.Slice) {
	st := it.st
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return r.tv(it, v)
	}
	lo := get(x.Low, TZero)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		b, ok := r.val(it, x.X).(*Term)
		if !ok {
			panic(unsupported("slice of embedded array"))
		}
		n := IntLit(at.Len())
		hi := get(x.High, n)
		mx := get(x.Max, n)
		g := And(Le(TZero, lo), Le(lo, hi), Le(hi, mx), Le(mx, n))
		r.oblige(st, "bounds", "slice bounds", nil, r.pos(x.Pos()), g)
		st.assume(g)
		it.set(x, mkSlc(b, lo, Sub(hi, lo), Sub(mx, lo)))
	case *types.Slice:
		s := r.tv(it, x.X)
		hi := get(x.High, slcLen(s))
		mx := get(x.Max, slcCap(s))
		// reslicing beyond the length is outside the model of append
		g := And(Le(TZero, lo), Le(lo, hi), Le(hi, slcLen(s)), Le(hi, mx), Le(mx, slcCap(s)))
		r.oblige(st, "bounds", "slice bounds", nil, r.pos(x.Pos()), g)
		st.assume(g)
		it.set(x, mkSlc(slcBase(s), Add(slcOff(s), lo), Sub(hi, lo), Sub(mx, lo)))
	default: // string
		s := r.tv(it, x.X)
		n := App("slen", SInt, s)
		hi := get(x.High, n)
		g := And(Le(TZero, lo), Le(lo, hi), Le(hi, n))
		r.oblige(st, "bounds", "slice bounds", nil, r.pos(x.Pos()), g)
		st.assume(g)
		it.set(x, App("ssub", SStr, s, lo, Sub(hi, lo)))
	}
}

func (r *Run) typeAssert(it *Item, x *ssa.TypeAssert) []*Item {
	st := it.st
	v := r.tv(it, x.X)
	tag := App("ifc-tag", SInt, v)
	var cond, res *Term
	if types.IsInterface(x.AssertedType) {
		cond = r.implements(tag, x.AssertedType)
		res = v
	} else {
		cond = Eq(tag, typeTag(x.AssertedType))
		res = unboxVal(x.AssertedType, App("ifc-val", SInt, v))
	}
	if !x.CommaOk {
		r.oblige(st, "typeassert", "type assertion to "+typeKey(x.AssertedType), nil, r.pos(x.Pos()), cond)
		st.assume(cond)
		if !types.IsInterface(x.AssertedType) {
			st.assume(mkRaw("=", "", SBool, v, mkRaw("mk-ifc", "", SIfc, typeTag(x.AssertedType), mkRaw("ifc-val", "", SInt, v))))
		}
		r.rankOnRead(st, x.AssertedType, res)
		it.set(x, res)
		return nil
	}
	c := st.simp(cond)
	if c == TTrue {
		r.rankOnRead(st, x.AssertedType, res)
		it.set(x, Tuple{res, TTrue})
		return nil
	}
	if c == TFalse {
		it.set(x, Tuple{zeroOf(x.AssertedType), TFalse})
		return nil
	}
	o := it.clone()
	st.assume(c)
	r.rankOnRead(st, x.AssertedType, res)
	it.set(x, Tuple{res, TTrue})
	o.st.assume(Not(c))
	o.set(x, Tuple{zeroOf(x.AssertedType), TFalse})
	return []*Item{o}
}

func (r *Run) rankOnRead(st *State, t types.Type, v *Term) {
	r.wellFormed(st, t, v)
}

func (r *Run) implements(tag *Term, iface types.Type) *Term {
	if tag == TZero {
		return TFalse
	}
	it := iface.Underlying().(*types.Interface)
	if tag.op == "#int" {
		if t := tagGoType(tag); t != nil {
			return BoolLit(types.Implements(t, it))
		}
	}
	f := "impl_" + sanitize(typeKey(iface))
	declFun(f, SBool, SInt)
	return And(Not(Eq(tag, TZero)), App(f, SBool, tag))
}

// ---- channels

func ghostVar(n string) *HeapVar {
	s, ok := specs.gvars[n]
	if !ok {
		panic(specErr{"no ghost variable " + n})
	}
	return heapVar("V:"+n, s, nil, false)
}

func hasGhost(n string) bool { _, ok := specs.gvars[n]; return ok }

func (r *Run) addEvent(st *State, e *Term) {
	if !hasGhost("ev") {
		return
	}
	g := ghostVar("ev")
	r.logStore(g.name, nil)
	r.hset(st, g.name, App("tsnoc", "Tr", r.hget(st, g.name), e))
}

func (r *Run) send(st *State, ch *Term, cht types.Type, v *Term, p token.Pos) {
	r.nonNil(st, ch, "send on nil channel blocks forever", p)
	et := cht.Underlying().(*types.Chan).Elem()
	r.onSend(st, ch, et, v, p)
	r.addEvent(st, App("Esend", "Ev", ch, boxVal(et, v)))
}

func (r *Run) closeChan(st *State, ch *Term, p token.Pos) {
	r.nonNil(st, ch, "close of nil channel", p)
	r.onClose(st, ch, p)
	r.addEvent(st, App("Eclose", "Ev", ch))
}

func (r *Run) selectStmt(it *Item, x *ssa.Select) []*Item {
	var outs []*Item
	nr := 0
	type rc struct {
		i int
		t types.Type
	}
	var rs []rc
	for i, s := range x.States {
		if s.Dir == types.RecvOnly {
			rs = append(rs, rc{i, s.Chan.Type().Underlying().(*types.Chan).Elem()})
			nr++
		}
	}
	if x.Blocking {
		tch := TZero
		var tt types.Type
		for _, s := range x.States {
			ct := s.Chan.Type().Underlying().(*types.Chan)
			if tt == nil || ct.Elem().String() == "time.Time" && s.Dir == types.RecvOnly {
				tt = ct
			}
			if ct.Elem().String() == "time.Time" && s.Dir == types.RecvOnly {
				tch = r.tv(it, s.Chan)
			}
		}
		if len(x.States) > 0 {
			r.onWait(it.st, tch, tt, x.Pos())
		}
	}
	for i, s := range x.States {
		o := it.clone()
		st := o.st
		ch := r.tv(o, s.Chan)
		st.assume(Not(Eq(ch, TZero)))
		if st.dead {
			continue
		}
		tu := Tuple{IntLit(int64(i)), TFalse}
		for _, c := range rs {
			if c.i == i {
				v, ok := r.recv(st, ch, s.Chan.Type(), c.t)
				tu[1] = ok
				tu = append(tu, v)
				r.event(st, &Event{ch: ch, val: v, typ: c.t, ok: ok, kind: "recv"})
			} else {
				tu = append(tu, zeroOf(c.t))
			}
		}
		if s.Dir == types.SendOnly {
			v := r.tv(o, s.Send)
			r.event(st, &Event{ch: ch, val: v, typ: s.Chan.Type().Underlying().(*types.Chan).Elem(), ok: TTrue, kind: "send"})
			r.send(st, ch, s.Chan.Type(), v, x.Pos())
		}
		o.set(x, tu)
		outs = append(outs, o)
	}
	if !x.Blocking {
		o := it.clone()
		tu := Tuple{IntLit(-1), TFalse}
		for _, c := range rs {
			tu = append(tu, zeroOf(c.t))
		}
		r.event(o.st, &Event{kind: "default", ch: TZero})
		o.set(x, tu)
		outs = append(outs, o)
	}
	// it itself is replaced
	it.st.dead = true
	return outs
}

func (r *Run) goEvent(st *State, fv Val, args []Val, x *ssa.Go) {
	if f, ok := fv.(*FuncVal); ok && f.fn != nil && len(f.binds) == 0 {
		if fs := specs.funcs[fnKey(f.fn)]; fs != nil {
			r.goContract(st, fs, f.fn.Signature, args, x.Pos())
		}
	}
	if !hasGhost("ev") {
		return
	}
	var f *Term
	switch y := fv.(type) {
	case *FuncVal:
		f = y.term
	case *Term:
		f = y
	case *ssa.Builtin:
		f = Const("fn!"+y.Name(), SInt)
	}
	as := []*Term{TZero, TZero}
	for i := 0; i < len(args) && i < 2; i++ {
		t := r.term(st, args[i])
		if t.sort == SIfc {
			t = Box("Ifc", t)
		} else if t.sort != SInt {
			t = Box(sanitize(t.sort), t)
		}
		as[i] = t
	}
	if cl, ok := fv.(*FuncVal); ok && len(cl.binds) > 0 && len(args) == 0 {
		f = Const("fn!"+fnKey(cl.fn), SInt)
	}
	r.addEvent(st, App("Ego", "Ev", f, as[0], as[1]))
}

// ---- calls

func (r *Run) callee(it *Item, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, r.val(it, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, r.val(it, a))
	}
	if c.IsInvoke() {
		return nil, args
	}
	return r.val(it, c.Value), args
}

func (r *Run) call(it *Item, x *ssa.Call) []*Item {
	fv, args := r.callee(it, &x.Call)
	exits := r.doCall(it.st, &x.Call, fv, args, x.Pos())
	if len(exits) == 0 {
		it.st.dead = true
		return nil
	}
	var outs []*Item
	for i, e := range exits {
		o := it
		if i < len(exits)-1 {
			o = &Item{blk: it.blk, idx: it.idx, env: it.env, eown: false, defers: it.defers, from: it.from}
			it.eown = false
		}
		o.st = e.st
		switch n := x.Call.Signature().Results().Len(); n {
		case 0:
		case 1:
			o.set(x, e.rets[0])
		default:
			o.set(x, Tuple(e.rets))
		}
		outs = append(outs, o)
	}
	if len(outs) == 1 {
		return nil
	}
	if len(outs) > mergeLimit {
		m := r.merge(outs)
		*it = *m
		return nil
	}
	return outs[:len(outs)-1]
}

func (r *Run) runDefers(fn *ssa.Function, it *Item) []*Item {
	if len(it.defers) == 0 {
		return nil
	}
	d := it.defers[len(it.defers)-1]
	it.defers = it.defers[:len(it.defers)-1]
	it.idx-- // come back for the remaining ones
	r.atLoopLeave(it.st, false)
	r.inDefer++
	exits := r.doCall(it.st, d.call, d.fv, d.args, d.pos)
	r.inDefer--
	if len(exits) == 0 {
		it.st.dead = true
		return nil
	}
	var outs []*Item
	for _, e := range exits[1:] {
		o := &Item{blk: it.blk, idx: it.idx, env: it.env, defers: append([]deferred(nil), it.defers...), from: it.from, st: e.st}
		outs = append(outs, o)
	}
	it.eown = false
	it.st = exits[0].st
	return outs
}

func (r *Run) doCall(st *State, c *ssa.CallCommon, fv Val, args []Val, p token.Pos) []Exit {
	if c.IsInvoke() {
		return r.invoke(st, c, args, p)
	}
	switch f := fv.(type) {
	case *ssa.Builtin:
		return r.builtin(st, c, f, args, p)
	case *FuncVal:
		return r.callFn(st, f.fn, args, f.binds, p)
	case *Term:
		if cl, ok := r.closures[f]; ok {
			return r.callFn(st, cl.fn, args, cl.binds, p)
		}
		// ite of known functions
		if f.op == "ite" {
			o := st.clone()
			st.assume(f.args[0])
			o.assume(Not(f.args[0]))
			var ex []Exit
			if !st.dead {
				ex = append(ex, r.doCall(st, c, f.args[1], args, p)...)
			}
			if !o.dead {
				ex = append(ex, r.doCall(o, c, f.args[2], args, p)...)
			}
			return ex
		}
		return r.callDyn(st, c, f, args, p)
	}
	panic(unsupported(fmt.Sprintf("call of %T", fv)))
}

func (r *Run) callFn(st *State, fn *ssa.Function, args []Val, binds []Val, p token.Pos) []Exit {
	key := fnKey(fn)
	if fs := specs.funcs[key]; fs != nil && !fs.flags["inline"] && len(binds) == 0 {
		return r.applyContract(st, fs, fn.Signature, args, p, nil)
	}
	if fn.Synthetic == "package initializer" {
		return []Exit{{st, nil}} // other packages are initialized before
	}
	if fn.Blocks == nil {
		return r.unknownCall(st, fn, args, p)
	}
	r.inlined[key] = true
	if fs := specs.funcs[key]; fs != nil {
		r.used[key] = fs
	}
	st2 := st
	ex := r.execFn(fn, args, binds, st2)
	if len(ex) > mergeLimit {
		var items []*Item
		for _, e := range ex {
			items = append(items, &Item{st: e.st, env: map[ssa.Value]Val{nil: Tuple(e.rets)}, eown: true})
		}
		if m, ok := r.tryMerge(items); ok {
			tu, has := m.env[nil]
			if has {
				return []Exit{{m.st, tu.(Tuple)}}
			}
			if len(ex[0].rets) == 0 {
				return []Exit{{m.st, nil}}
			}
		}
	}
	return ex
}

func (r *Run) tryMerge(items []*Item) (m *Item, ok bool) {
	// values that cannot be merged leave the exits separate
	for i := range items[0].env[nil].(Tuple) {
		s := ""
		for j, it := range items {
			t, isT := it.env[nil].(Tuple)[i].(*Term)
			if !isT {
				if f, isF := it.env[nil].(Tuple)[i].(*FuncVal); isF {
					t = f.term
				} else {
					return nil, false
				}
			}
			if j == 0 {
				s = t.sort
			} else if s != t.sort {
				return nil, false
			}
		}
	}
	return r.merge(items), true
}

// a library function without a contract
func (r *Run) unknownCall(st *State, fn *ssa.Function, args []Val, p token.Pos) []Exit {
	sig := fn.Signature
	bad := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Basic:
			return false
		case *types.Struct:
			return !isOpaqueStruct(t)
		}
		return true
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if bad(sig.Params().At(i).Type()) {
			panic(unsupported("call of " + fn.String() + ", which has no contract"))
		}
	}
	if sig.Recv() != nil && bad(sig.Recv().Type()) {
		panic(unsupported("call of " + fn.String() + ", which has no contract"))
	}
	r.notes["library function without contract, arbitrary result: "+fn.String()] = true
	var rets []Val
	st.wm = r.wmEnd(st)
	pre := st.clone()
	r.newEpoch(st)
	r.assumeAllocInvs(st)
	r.allocUnaffected(st, pre, fn, false)
	for i := 0; i < sig.Results().Len(); i++ {
		rets = append(rets, r.freshOf(st, sig.Results().At(i).Type(), "ret_"+fn.Name()))
	}
	return []Exit{{st, rets}}
}

func (r *Run) invoke(st *State, c *ssa.CallCommon, args []Val, p token.Pos) []Exit {
	recv := r.term(st, args[0])
	tag := st.simp2(App("ifc-tag", SInt, recv))
	if tag.op == "#int" {
		if tag == TZero {
			r.oblige(st, "nil", "method call on nil interface", nil, r.pos(p), TFalse)
			return nil
		}
		if t := tagGoType(tag); t != nil {
			if fn := r.v.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); fn != nil {
				as := append([]Val{unboxVal(t, App("ifc-val", SInt, recv))}, args[1:]...)
				return r.callFn(st, fn, as, nil, p)
			}
		}
	}
	r.nonNil(st, tag, "method call on nil interface", p)
	key := ifaceKey(c)
	if fs := specs.funcs[key]; fs != nil {
		return r.applyContract(st, fs, c.Signature(), args, p, c.Value.Type())
	}
	panic(unsupported("interface call " + key + ", which has no contract"))
}

func ifaceKey(c *ssa.CallCommon) string {
	t := types.Unalias(c.Value.Type())
	if n, ok := t.(*types.Named); ok {
		// method may come from an embedded interface; name the static type
		if n.Obj().Pkg() == nil {
			return "errors.(" + n.Obj().Name() + ")." + c.Method.Name()
		}
		return n.Obj().Pkg().Path() + ".(" + n.Obj().Name() + ")." + c.Method.Name()
	}
	return t.String() + "." + c.Method.Name()
}

// simp2 resolves a term through known equalities with literals
func (s *State) simp2(t *Term) *Term {
	if x, ok := s.eqs[t]; ok {
		return x
	}
	return t
}

func (r *Run) callDyn(st *State, c *ssa.CallCommon, f *Term, args []Val, p token.Pos) []Exit {
	r.nonNil(st, f, "call of nil function", p)
	want := sigKey(c.Signature())
	// the variants the caller names come first
	for _, variants := range []bool{true, false} {
		for _, d := range specs.dyns {
			if (d.variant != "") != variants || (variants && (r.spec == nil || !hasStr(r.spec.uses, d.variant))) {
				continue
			}
			if d.key == want && (d.pkg == r.pkg || d.pkg == "") {
				return r.applyContractFn(st, d, c.Signature(), args, p, nil, f)
			}
		}
	}
	panic(unsupported("call of an unknown function value of type " + want))
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(s.Params()), stripNames(s.Results()), s.Variadic()), func(p *types.Package) string { return shortPkg(p.Path()) })
}
func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(token.NoPos, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

func (r *Run) builtin(st *State, c *ssa.CallCommon, b *ssa.Builtin, args []Val, p token.Pos) []Exit {
	one := func(v Val) []Exit { return []Exit{{st, []Val{v}}} }
	none := []Exit{{st, nil}}
	a := func(i int) *Term { return r.term(st, args[i]) }
	at := func(i int) types.Type { return c.Args[i].Type() }
	switch b.Name() {
	case "len":
		return one(r.lenOf(st, at(0), a(0)))
	case "cap":
		if _, ok := at(0).Underlying().(*types.Slice); ok {
			return one(slcCap(a(0)))
		}
		v := r.fresh("cap", SInt)
		st.assume(And(Le(TZero, v), Le(v, IntLit(1<<50))))
		return one(v)
	case "append":
		return one(r.appendB(st, c, a(0), args, p))
	case "copy":
		dst, src := a(0), a(1)
		et := at(0).Underlying().(*types.Slice).Elem()
		h := elemHeap(et)
		H := r.hget(st, h.name)
		var sl *Term
		if src.sort == SStr {
			sl = App("slen", SInt, src)
		} else {
			sl = slcLen(src)
		}
		n := Ite(Le(slcLen(dst), sl), slcLen(dst), sl)
		if r.provable(st, Le(slcLen(dst), sl)) {
			n = slcLen(dst)
		} else if r.provable(st, Le(sl, slcLen(dst))) {
			n = sl
		}
		d := Select(H, slcBase(dst))
		if isByte(et) {
			var data *Term
			if src.sort == SStr {
				data = App("ssub", SStr, src, TZero, n)
			} else {
				data = App("ssub", SStr, Select(H, slcBase(src)), slcOff(src), n)
			}
			nd := r.splice(st, d, slcOff(dst), n, data)
			r.logStore(h.name, slcBase(dst))
			r.hset(st, h.name, Ite(Eq(n, TZero), H, Store(H, slcBase(dst), nd)))
		} else {
			r.logStore(h.name, slcBase(dst))
			r.hset(st, h.name, Store(H, slcBase(dst), amove(d, slcOff(dst), Select(H, slcBase(src)), slcOff(src), n)))
		}
		return one(n)
	case "delete":
		m, k := a(0), a(1)
		d := mapDomHeap(at(0))
		D := r.hget(st, d.name)
		r.logStore(d.name, m)
		r.hset(st, d.name, Store(D, m, Store(Select(D, m), k, TFalse)))
		return none
	case "close":
		r.closeChan(st, a(0), p)
		return none
	case "print", "println":
		return none
	case "min", "max":
		v := a(0)
		for i := 1; i < len(args); i++ {
			w := a(i)
			if b.Name() == "min" {
				v = Ite(Le(v, w), v, w)
			} else {
				v = Ite(Le(w, v), v, w)
			}
		}
		return one(v)
	case "ssa:wrapnilchk":
		r.nonNil(st, a(0), "method on nil pointer", p)
		return one(args[0])
	case "ssa:deferstack":
		return one(TZero)
	}
	panic(unsupported("builtin " + b.Name()))
}

func (r *Run) splice(st *State, d, off, n, data *Term) *Term {
	dl := App("slen", SInt, d)
	rest := Sub(dl, Add(off, n))
	return Cat(App("ssub", SStr, d, TZero, off), data, App("ssub", SStr, d, Add(off, n), rest))
}

func (r *Run) lenOf(st *State, t types.Type, v *Term) *Term {
	switch t.Underlying().(type) {
	case *types.Slice:
		return slcLen(v)
	case *types.Map:
		n := r.fresh("maplen", SInt)
		st.assume(And(Le(TZero, n), Le(n, IntLit(1<<50))))
		d := mapDomHeap(t)
		_, ds, _ := arrParts(d.sort)
		_ = ds
		// only the empty/non-empty distinction is modelled
		k := BVar("k", sortOf(t.Underlying().(*types.Map).Key()))
		dom := Select(r.hget(st, d.name), v)
		st.assume(Imp(Or(Eq(v, TZero), Eq(n, TZero)), Forall([]*Term{k}, [][]*Term{{Select(dom, k)}}, Or(Eq(v, TZero), Not(Select(dom, k))))))
		st.assume(Imp(Eq(v, TZero), Eq(n, TZero)))
		w := r.fresh("mapkey", k.sort)
		st.assume(Imp(Lt(TZero, n), Select(dom, w)))
		return n
	case *types.Chan:
		n := r.fresh("chanlen", SInt)
		st.assume(And(Le(TZero, n), Le(n, IntLit(1<<50))))
		return n
	case *types.Basic:
		n := App("slen", SInt, v)
		if n.op == "slen" {
			st.assume(Le(TZero, n))
			st.assume(Le(n, IntLit(1<<50)))
		}
		return n
	case *types.Array:
		return IntLit(t.Underlying().(*types.Array).Len())
	case *types.Pointer:
		return IntLit(t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	}
	panic(unsupported("len of " + t.String()))
}

func (r *Run) appendB(st *State, c *ssa.CallCommon, s *Term, args []Val, p token.Pos) *Term {
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	h := elemHeap(et)
	H := r.hget(st, h.name)
	src := r.term(st, args[1])
	var n *Term
	if src.sort == SStr {
		n = App("slen", SInt, src)
		st.assume(And(Le(TZero, n), Le(n, IntLit(1<<50))))
	} else {
		n = slcLen(src)
	}
	if n == TZero {
		return s
	}
	nl := Add(slcLen(s), n)
	fits := st.simp(Le(nl, slcCap(s)))
	nb := r.alloc(st)
	var base, cp *Term
	ncap := r.fresh("cap", SInt)
	st.assume(And(Le(nl, ncap), Le(ncap, IntLit(1<<50))))
	if slcBase(s) == TZero && fits != TTrue {
		if r.provable(st, Lt(TZero, n)) {
			fits = TFalse
		} else {
			fits = Eq(n, TZero)
		}
	}
	base = Ite(fits, slcBase(s), nb)
	cp = Ite(fits, slcCap(s), ncap)
	old := Select(H, slcBase(s))
	at := Add(slcOff(s), slcLen(s))
	var arr *Term
	if isByte(et) {
		var data *Term
		if src.sort == SStr {
			data = src
		} else {
			data = App("ssub", SStr, Select(H, slcBase(src)), slcOff(src), n)
		}
		arr = r.splice(st, old, at, n, data)
		if fits != TTrue {
			// a fresh array: old contents, then the data, then spare bytes
			sp := r.fresh("spare", SStr)
			st.assume(Eq(App("slen", SInt, sp), Sub(ncap, nl)))
			pre := App("ssub", SStr, old, slcOff(s), slcLen(s))
			if slcBase(s) == TZero {
				pre = StrLit("")
			}
			fr := Cat(App("ssub", SStr, old, TZero, slcOff(s)), pre, data, sp)
			if slcOff(s) == TZero || slcBase(s) == TZero {
				fr = Cat(pre, data, sp)
			}
			arr = Ite(fits, arr, fr)
		}
	} else {
		if k, ok := n.isInt(); ok && k <= 4 {
			arr = old
			for j := int64(0); j < k; j++ {
				arr = Store(arr, Add(at, IntLit(j)), Select(Select(H, slcBase(src)), Add(slcOff(src), IntLit(j))))
			}
		} else {
			arr = amove(old, at, Select(H, slcBase(src)), slcOff(src), n)
		}
	}
	off := slcOff(s)
	if slcBase(s) == TZero {
		off = TZero
	}
	r.logStore(h.name, base)
	if base.op == "ite" {
		r.logStore(h.name, base.args[1])
		r.logStore(h.name, base.args[2])
	}
	r.hset(st, h.name, Store(H, base, arr))
	_ = strings.HasPrefix
	return mkSlc(base, off, nl, cp)
}
