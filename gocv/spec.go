package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"strings"
)

// Evaluation of contract expressions in a program state.

type SVal struct {
	t    *Term
	typ  types.Type // Go type, if it has one
	sort Sort
	addr *Addr // the address of a field or variable
}

type specCtx struct {
	r    *Run
	st   *State // state the expression is evaluated in
	sink *State // state that receives well-formedness facts (nil: none)
	old  *State
	pre  *State
	iter *State
	pkg  string
	env  map[string]SVal
	deep int
}

func (r *Run) specCtx(st *State, pkg string) *specCtx {
	c := &specCtx{r: r, st: st, sink: st, old: r.entry, pkg: pkg, env: map[string]SVal{}}
	for k, v := range r.params {
		c.env[k] = v
	}
	return c
}

func (c *specCtx) fail(n *Node, m string) {
	panic(specErr{fmt.Sprintf("%s: %s", n.pos, m)})
}

type resType struct {
	typ  types.Type
	sort Sort
}

func (v *Verifier) findPkg(path string) *types.Package { return v.pkgs[path] }

func (v *Verifier) resolveType(pkg, text string) resType {
	switch text {
	case "Int", "Bool", "Str", "Slc", "Ifc", "Flt":
		return resType{sort: text}
	}
	if strings.HasPrefix(text, "(Array") {
		return resType{sort: text}
	}
	if _, ok := dtypeSorts[text]; ok {
		return resType{sort: text}
	}
	if sortIsUninterp[text] {
		return resType{sort: text}
	}
	t := v.goType(pkg, text)
	return resType{typ: t, sort: sortOf(t)}
}

func (v *Verifier) goType(pkg, text string) types.Type {
	e, err := parser.ParseExpr(text)
	if err != nil {
		panic(specErr{"bad type " + text + ": " + err.Error()})
	}
	return v.typeOfExpr(pkg, e, text)
}

func (v *Verifier) typeOfExpr(pkg string, e ast.Expr, text string) types.Type {
	switch x := e.(type) {
	case *ast.Ident:
		if p := v.findPkg(pkg); p != nil {
			if o := p.Scope().Lookup(x.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if p := v.importOf(pkg, id.Name); p != nil {
				if tn, ok := p.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(v.typeOfExpr(pkg, x.X, text))
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(v.typeOfExpr(pkg, x.Elt, text))
		}
	case *ast.MapType:
		return types.NewMap(v.typeOfExpr(pkg, x.Key, text), v.typeOfExpr(pkg, x.Value, text))
	case *ast.ChanType:
		dir := types.SendRecv
		if x.Dir == ast.RECV {
			dir = types.RecvOnly
		} else if x.Dir == ast.SEND {
			dir = types.SendOnly
		}
		return types.NewChan(dir, v.typeOfExpr(pkg, x.Value, text))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	}
	panic(specErr{"unknown type " + text + " in " + pkg})
}

// importOf resolves a package qualifier: aliases first, then any loaded package of that name.
func (v *Verifier) importOf(pkg, name string) *types.Package {
	if a := specs.aliases[pkg]; a != nil {
		if p, ok := a[name]; ok {
			return v.pkgs[p]
		}
	}
	if p := v.findPkg(pkg); p != nil {
		for _, q := range p.Imports() {
			if q.Name() == name {
				return q
			}
		}
	}
	if p, ok := v.pkgs[name]; ok {
		return p
	}
	for path, p := range v.pkgs {
		if p.Name() == name && strings.HasPrefix(path, repoPrefix) {
			return p
		}
	}
	for _, p := range v.pkgs {
		if p.Name() == name {
			return p
		}
	}
	return nil
}

func (g *GhostField) heapName() string {
	n := "H:" + g.typ + "." + g.name
	if _, ok := heapVars[n]; !ok {
		heapVar(n, SArr(SInt, g.sort), nil, g.isRef)
	}
	return n
}
func viewHeap(w *View) string {
	n := "W:" + w.name
	if _, ok := heapVars[n]; !ok {
		heapVar(n, SArr(SInt, w.sort), nil, false)
	}
	return n
}

func (v *Verifier) ghostsOf(t types.Type) []*GhostField {
	return v.ghostIdx(typeKey(t))
}
func (v *Verifier) ghostIdx(k string) []*GhostField {
	if v.gIdx == nil {
		v.gIdx = map[string][]*GhostField{}
		for _, g := range specs.ghosts {
			v.gIdx[g.typ] = append(v.gIdx[g.typ], g)
		}
	}
	return v.gIdx[k]
}
func (v *Verifier) viewsOf(t types.Type) []*View {
	var out []*View
	for _, n := range v.viewNames {
		w := specs.views[n]
		rt := v.goType(w.pkg, w.param.typ)
		if p, ok := rt.(*types.Pointer); ok && types.Identical(types.Unalias(p.Elem()), types.Unalias(t)) {
			out = append(out, w)
		}
	}
	return out
}

func (v *Verifier) evalClosed(r *Run, st *State, pkg string, n *Node, sort string) *Term {
	c := &specCtx{r: r, st: st, pkg: pkg, env: map[string]SVal{}}
	return c.coerce(c.eval(n), resType{sort: sort}, n)
}

func (c *specCtx) boolT(n *Node) *Term {
	v := c.eval(n)
	if v.sort != SBool {
		c.fail(n, "not a boolean: "+v.sort)
	}
	return v.t
}

func mkS(t *Term) SVal                { return SVal{t: t, sort: t.sort} }
func mkT(t *Term, ty types.Type) SVal { return SVal{t: t, typ: ty, sort: t.sort} }

func isNilS(v SVal) bool {
	b, ok := v.typ.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

// coerce converts v to the wanted type/sort
func (c *specCtx) coerce(v SVal, to resType, n *Node) *Term {
	if to.sort == "" && to.typ != nil {
		to.sort = sortOf(to.typ)
	}
	if isNilS(v) {
		switch to.sort {
		case SIfc:
			return TNilIfc
		case SSlc:
			return TNilSlc
		}
		return TZero
	}
	if v.sort == to.sort {
		return v.t
	}
	if to.sort == SIfc && v.typ != nil {
		return mkIfc(v.typ, v.t)
	}
	c.fail(n, fmt.Sprintf("have %s, want %s", v.sort, to.sort))
	return nil
}

func (c *specCtx) wf(t types.Type, v *Term) {
	if c.sink == nil || v.bound || t == nil {
		return
	}
	if isByteSlice(t) && c.st != c.sink {
		return
	}
	c.r.wellFormed(c.sink, t, v)
}

func (c *specCtx) in(st *State) *specCtx {
	d := *c
	d.st = st
	return &d
}

func (c *specCtx) heap(name string, n *Node) *Term {
	if c.st == nil {
		c.fail(n, "no state here")
	}
	return c.r.hget(c.st, name)
}

func (c *specCtx) eval(n *Node) SVal {
	switch n.k {
	case "num":
		return mkT(IntLitS(n.s), types.Typ[types.UntypedInt])
	case "str":
		return mkT(StrLit(n.s), types.Typ[types.UntypedString])
	case "id":
		return c.ident(n)
	case "let":
		v := c.eval(n.kids[0])
		d := *c
		d.env = copyEnv(c.env)
		d.env[n.s] = v
		return d.eval(n.kids[1])
	case "un":
		return c.unary(n)
	case "bin":
		return c.binary(n)
	case "field":
		return c.field(n)
	case "index":
		return c.index(n)
	case "quant":
		return c.quant(n)
	case "call":
		return c.call(n)
	}
	c.fail(n, "cannot evaluate "+n.k)
	return SVal{}
}

func copyEnv(m map[string]SVal) map[string]SVal {
	r := make(map[string]SVal, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (c *specCtx) ident(n *Node) SVal {
	if v, ok := c.env[n.s]; ok {
		if v.sort == "" {
			v.sort = v.t.sort
		}
		return v
	}
	switch n.s {
	case "true":
		return mkS(TTrue)
	case "false":
		return mkS(TFalse)
	case "nil":
		return mkT(TZero, types.Typ[types.UntypedNil])
	}
	if _, ok := specs.gvars[n.s]; ok {
		h := ghostVar(n.s)
		return mkS(c.heap(h.name, n))
	}
	if m, ok := specs.macros[n.s]; ok && len(m.params) == 0 {
		return c.macro(m, nil, n)
	}
	if f, ok := funs[n.s]; ok && len(f.args) == 0 {
		return mkS(App(n.s, f.ret))
	}
	if p := c.r.v.findPkg(c.pkg); p != nil {
		if v, ok := c.pkgMember(p, n.s, n); ok {
			return v
		}
	}
	if strings.HasPrefix(n.s, "?") {
		c.fail(n, "metavariable "+n.s+" outside a template")
	}
	c.fail(n, "unknown name "+n.s)
	return SVal{}
}

func (c *specCtx) pkgMember(p *types.Package, name string, n *Node) (SVal, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		return mkT(constTerm(o.Val(), o.Type()), o.Type()), true
	case *types.Var:
		t := o.Type()
		if isStruct(t) && !isOpaqueStruct(t) {
			return mkT(globalRefK(p.Path()+"."+name), types.NewPointer(t)), true
		}
		if c.r.v.escaped[p.Path()+"."+name] {
			v := Select(c.heap(cellHeap(t).name, n), globalRefK(p.Path()+"."+name))
			c.wf(t, v)
			return mkT(v, t), true
		}
		h := heapVar("G:"+shortPkg(p.Path())+"."+name, sortOf(t), t, isRefType(t))
		v := c.heap(h.name, n)
		c.wf(t, v)
		return mkT(v, t), true
	}
	return SVal{}, false
}

func (c *specCtx) unary(n *Node) SVal {
	switch n.s {
	case "!":
		return mkS(Not(c.boolT(n.kids[0])))
	case "-":
		v := c.eval(n.kids[0])
		return SVal{t: Neg(v.t), typ: v.typ, sort: SInt}
	case "*":
		v := c.eval(n.kids[0])
		p, ok := v.typ.(*types.Pointer)
		if !ok {
			if v.typ != nil {
				p, ok = v.typ.Underlying().(*types.Pointer)
			}
			if !ok {
				c.fail(n, "* of a non-pointer")
			}
		}
		if v.addr != nil {
			return mkT(c.r.loadAddr(c.st, v.addr), p.Elem())
		}
		t := c.r.loadPtrQ(c, v.t, p.Elem(), n)
		return mkT(t, p.Elem())
	}
	c.fail(n, "operator "+n.s)
	return SVal{}
}

func (r *Run) loadPtrQ(c *specCtx, ref *Term, t types.Type, n *Node) *Term {
	if isStruct(t) && !isOpaqueStruct(t) {
		u := structOf(t)
		s := sortOf(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			v := Select(c.heap(fieldHeap(t, u.Field(i)).name, n), ref)
			c.wf(u.Field(i).Type(), v)
			as = append(as, v)
		}
		return App("mk-"+s, s, as...)
	}
	v := Select(c.heap(cellHeap(t).name, n), ref)
	c.wf(t, v)
	return v
}

func (c *specCtx) unify(a, b SVal, n *Node) (*Term, *Term) {
	if a.sort == b.sort && !isNilS(a) && !isNilS(b) {
		return a.t, b.t
	}
	if isNilS(a) && isNilS(b) {
		return TZero, TZero
	}
	if isNilS(b) {
		return a.t, c.coerce(b, resType{sort: a.sort}, n)
	}
	if isNilS(a) {
		return c.coerce(a, resType{sort: b.sort}, n), b.t
	}
	if a.sort == SIfc {
		return a.t, c.coerce(b, resType{sort: SIfc}, n)
	}
	if b.sort == SIfc {
		return c.coerce(a, resType{sort: SIfc}, n), b.t
	}
	c.fail(n, fmt.Sprintf("sorts %s and %s do not match", a.sort, b.sort))
	return nil, nil
}

func (c *specCtx) binary(n *Node) SVal {
	switch n.s {
	case "&&":
		return mkS(And(c.boolT(n.kids[0]), c.boolT(n.kids[1])))
	case "||":
		return mkS(Or(c.boolT(n.kids[0]), c.boolT(n.kids[1])))
	case "==>":
		a := c.boolT(n.kids[0])
		if a == TFalse {
			return mkS(TTrue)
		}
		return mkS(Imp(a, c.boolT(n.kids[1])))
	case "<==>":
		return mkS(Eq(c.boolT(n.kids[0]), c.boolT(n.kids[1])))
	}
	a, b := c.eval(n.kids[0]), c.eval(n.kids[1])
	switch n.s {
	case "==", "!=":
		var e *Term
		if a.sort == SSlc && isNilS(b) {
			e = Eq(slcBase(a.t), TZero)
		} else if b.sort == SSlc && isNilS(a) {
			e = Eq(slcBase(b.t), TZero)
		} else {
			x, y := c.unify(a, b, n)
			e = eqIfcNil(x, y)
		}
		if n.s == "!=" {
			e = Not(e)
		}
		return mkS(e)
	case "+":
		if a.sort == SStr {
			return mkT(Cat(a.t, b.t), types.Typ[types.String])
		}
		return SVal{t: Add(a.t, b.t), typ: arithTyp(a, b), sort: SInt}
	case "-":
		return SVal{t: Sub(a.t, b.t), typ: arithTyp(a, b), sort: SInt}
	case "*":
		return SVal{t: Mul(a.t, b.t), typ: arithTyp(a, b), sort: SInt}
	case "/":
		return SVal{t: mkRaw("div", "", SInt, a.t, b.t), typ: arithTyp(a, b), sort: SInt}
	case "%":
		return SVal{t: mkRaw("mod", "", SInt, a.t, b.t), typ: arithTyp(a, b), sort: SInt}
	case "<", "<=", ">", ">=":
		if a.sort != SInt || b.sort != SInt {
			c.fail(n, "comparison of "+a.sort+" and "+b.sort)
		}
		switch n.s {
		case "<":
			return mkS(Lt(a.t, b.t))
		case "<=":
			return mkS(Le(a.t, b.t))
		case ">":
			return mkS(Lt(b.t, a.t))
		}
		return mkS(Le(b.t, a.t))
	}
	c.fail(n, "operator "+n.s)
	return SVal{}
}

func arithTyp(a, b SVal) types.Type {
	if bt, ok := a.typ.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
		return b.typ
	}
	return a.typ
}

func deref(t types.Type) (types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

func (c *specCtx) field(n *Node) SVal {
	x := n.kids[0]
	if x.k == "id" {
		if _, ok := c.env[x.s]; !ok {
			if p := c.r.v.findPkg(c.pkg); p == nil || p.Scope().Lookup(x.s) == nil {
				if _, g := specs.gvars[x.s]; !g {
					if q := c.r.v.importOf(c.pkg, x.s); q != nil {
						if v, ok := c.pkgMember(q, n.s, n); ok {
							return v
						}
						c.fail(n, "no member "+n.s+" in "+q.Path())
					}
				}
			}
		}
	}
	v := c.eval(x)
	return c.fieldOf(v, n.s, n)
}

func (c *specCtx) fieldOf(v SVal, name string, n *Node) SVal {
	if v.typ == nil {
		// datatype selector
		if so, ok := selOf[name]; ok && ctorSort[so.ctor] == v.sort {
			return mkS(App(name, funs[name].ret, v.t))
		}
		c.fail(n, "field "+name+" of a value without Go type ("+v.sort+")")
	}
	bt, isPtr := deref(v.typ)
	if g, ok := specs.ghosts[typeKey(bt)+"."+name]; ok {
		t := Select(c.heap(g.heapName(), n), v.t)
		if g.goType != "" {
			return mkT(t, c.r.v.goType(g.pkg, g.goType))
		}
		return mkS(t)
	}
	if it, ok := v.typ.Underlying().(*types.Interface); ok {
		_ = it
		// ghost field of an interface value: keyed by its data word
		c.fail(n, "no ghost field "+name+" for interface "+typeKey(v.typ))
	}
	if !isStruct(bt) {
		c.fail(n, "field "+name+" of "+v.typ.String())
	}
	p := c.r.v.findPkg(c.pkg)
	var pk *types.Package = p
	if nm, ok := types.Unalias(bt).(*types.Named); ok && nm.Obj().Pkg() != nil {
		pk = nm.Obj().Pkg()
	}
	o, path, _ := types.LookupFieldOrMethod(bt, true, pk, name)
	f, ok := o.(*types.Var)
	if !ok {
		c.fail(n, "no field "+name+" in "+typeKey(bt))
	}
	_ = f
	cur, curT, ptr := v.t, bt, isPtr
	for pi, i := range path {
		fl := structOf(curT).Field(i)
		if ptr {
			if f := specs.immut[fieldHeap(curT, fl).name]; f != "" {
				cur = App(f, sortOf(fl.Type()), cur)
			} else {
				cur = Select(c.heap(fieldHeap(curT, fl).name, n), cur)
			}
			c.wf(fl.Type(), cur)
		} else {
			cur = fieldOfVal(curT, i, cur)
			c.wf(fl.Type(), cur)
		}
		curT = fl.Type()
		ptr = false
		if nt, isP := deref(curT); isP {
			ptr = true
			if pi != len(path)-1 {
				curT = nt
			}
		}
	}
	return mkT(cur, f.Type())
}

func (c *specCtx) index(n *Node) SVal {
	v, i := c.eval(n.kids[0]), c.eval(n.kids[1])
	if v.typ != nil {
		switch u := v.typ.Underlying().(type) {
		case *types.Slice:
			h := elemHeap(u.Elem())
			H := c.heap(h.name, n)
			if h.name == "B" {
				return mkT(App("sat", SInt, Select(H, slcBase(v.t)), Add(slcOff(v.t), i.t)), u.Elem())
			}
			t := Select(Select(H, slcBase(v.t)), Add(slcOff(v.t), i.t))
			c.wf(u.Elem(), t)
			return mkT(t, u.Elem())
		case *types.Map:
			k := c.coerce(i, resType{typ: u.Key()}, n)
			d := Select(Select(c.heap(mapDomHeap(v.typ).name, n), v.t), k)
			x := Select(Select(c.heap(mapValHeap(v.typ).name, n), v.t), k)
			c.wf(u.Elem(), x)
			_ = d
			return mkT(x, u.Elem())
		}
	}
	if v.sort == SStr {
		return mkS(App("sat", SInt, v.t, i.t))
	}
	if _, _, ok := arrParts(v.sort); ok {
		is, _, _ := arrParts(v.sort)
		return mkS(Select(v.t, c.coerce(i, resType{sort: is}, n)))
	}
	c.fail(n, "index of "+v.sort)
	return SVal{}
}

var bvN int

func (c *specCtx) quant(n *Node) SVal {
	d := *c
	d.env = copyEnv(c.env)
	var vars []*Term
	for _, b := range n.bvs {
		rt := c.r.v.resolveType(c.pkg, b.typ)
		bvN++
		x := BVar(fmt.Sprintf("%s$%d", b.name, c.deep), rt.sort)
		vars = append(vars, x)
		d.env[b.name] = SVal{t: x, typ: rt.typ, sort: rt.sort}
	}
	d.deep = c.deep + 1
	body := d.boolT(n.kids[0])
	var pats [][]*Term
	for _, ps := range n.pats {
		var q []*Term
		for _, p := range ps {
			q = append(q, d.eval(p).t)
		}
		pats = append(pats, q)
	}
	if n.s == "forall" {
		return mkS(Forall(vars, pats, body))
	}
	return mkS(Exists(vars, pats, body))
}

func (c *specCtx) macro(m *Macro, args []SVal, n *Node) SVal {
	if len(args) != len(m.params) {
		c.fail(n, "macro "+m.name+": wrong number of arguments")
	}
	if c.deep > 60 {
		c.fail(n, "macro recursion")
	}
	d := *c
	d.pkg = m.pkg
	d.env = map[string]SVal{}
	d.deep = c.deep + 1
	for i, p := range m.params {
		rt := c.r.v.resolveType(m.pkg, p.typ)
		d.env[p.name] = SVal{t: c.coerce(args[i], rt, n), typ: rt.typ, sort: rt.sort}
	}
	v := d.eval(m.body)
	if m.ret != "" {
		rt := c.r.v.resolveType(m.pkg, m.ret)
		return SVal{t: c.coerce(v, rt, n), typ: rt.typ, sort: rt.sort}
	}
	return v
}

func (c *specCtx) strArg(n *Node, i int) string {
	if i >= len(n.kids) || n.kids[i].k != "str" {
		c.fail(n, "string literal expected")
	}
	return n.kids[i].s
}

func (c *specCtx) call(n *Node) SVal {
	if strings.HasPrefix(n.s, ".") {
		// qualified macro or function
		nn := *n
		nn.s = n.s[1:]
		nn.kids = n.kids[1:]
		return c.call(&nn)
	}
	args := func() []SVal {
		var as []SVal
		for _, k := range n.kids {
			as = append(as, c.eval(k))
		}
		return as
	}
	need := func(k int) {
		if len(n.kids) != k {
			c.fail(n, fmt.Sprintf("%s takes %d arguments", n.s, k))
		}
	}
	switch n.s {
	case "old":
		need(1)
		if c.old == nil {
			c.fail(n, "old() here")
		}
		return c.in(c.old).eval(n.kids[0])
	case "pre":
		need(1)
		if c.pre == nil {
			c.fail(n, "pre() outside a loop")
		}
		return c.in(c.pre).eval(n.kids[0])
	case "iter":
		need(1)
		if c.iter == nil {
			c.fail(n, "iter() outside a step clause")
		}
		return c.in(c.iter).eval(n.kids[0])
	case "len":
		need(1)
		v := c.eval(n.kids[0])
		switch v.sort {
		case SSlc:
			return mkT(slcLen(v.t), types.Typ[types.Int])
		case SStr:
			t := App("slen", SInt, v.t)
			if c.sink != nil && !t.bound && t.op == "slen" {
				c.sink.assume(Le(TZero, t))
			}
			return mkT(t, types.Typ[types.Int])
		}
		c.fail(n, "len of "+v.sort)
	case "cap":
		return mkT(slcCap(c.eval(n.kids[0]).t), types.Typ[types.Int])
	case "base":
		return mkS(slcBase(c.eval(n.kids[0]).t))
	case "off":
		return mkS(slcOff(c.eval(n.kids[0]).t))
	case "elems":
		need(1)
		v := c.eval(n.kids[0])
		s, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			c.fail(n, "elems of a non-slice")
		}
		return mkS(Select(c.heap(elemHeap(s.Elem()).name, n), slcBase(v.t)))
	case "bytes":
		need(1)
		v := c.eval(n.kids[0])
		if v.sort != SSlc {
			c.fail(n, "bytes of "+v.sort)
		}
		if c.st == nil {
			c.fail(n, "no state here")
		}
		return mkT(c.r.bytesOf(c.st, v.t), types.Typ[types.String])
	case "has":
		need(2)
		v := c.eval(n.kids[0])
		m, ok := v.typ.Underlying().(*types.Map)
		if !ok {
			c.fail(n, "has of a non-map")
		}
		k := c.coerce(c.eval(n.kids[1]), resType{typ: m.Key()}, n)
		return mkS(Select(Select(c.heap(mapDomHeap(v.typ).name, n), v.t), k))
	case "dom":
		v := c.eval(n.kids[0])
		return mkS(Select(c.heap(mapDomHeap(v.typ).name, n), v.t))
	case "vals":
		v := c.eval(n.kids[0])
		return mkS(Select(c.heap(mapValHeap(v.typ).name, n), v.t))
	case "fresh":
		need(1)
		v := c.eval(n.kids[0])
		t := v.t
		if v.sort == SSlc {
			t = slcBase(t)
		} else if v.sort == SIfc {
			t = App("ifc-val", SInt, t)
		}
		if c.old == nil {
			c.fail(n, "fresh() here")
		}
		return mkS(And(Le(c.old.wm, t), Lt(t, c.st.wm)))
	case "wm":
		return mkS(c.st.wm)
	case "wmend":
		return mkS(c.r.preEnd)
	case "wmx":
		return mkS(c.r.wmEnd(c.st))
	case "closfn":
		// the function of a closure
		need(1)
		declFun("closfn", SInt, SInt)
		return mkS(App("closfn", SInt, c.eval(n.kids[0]).t))
	case "closbind":
		// closbind(f, "i", "type"): the i-th variable that a closure captures
		need(3)
		f := "closbind" + c.strArg(n, 1)
		declFun(f, SInt, SInt)
		rt := c.r.v.resolveType(c.pkg, c.strArg(n, 2))
		return SVal{t: App(f, SInt, c.eval(n.kids[0]).t), typ: rt.typ, sort: SInt}
	case "flt":
		need(1)
		return mkS(Const("flt!"+c.strArg(n, 0), "Flt"))
	case "is":
		need(2)
		v := c.eval(n.kids[0])
		t := c.r.v.goType(c.pkg, c.strArg(n, 1))
		return mkS(Eq(App("ifc-tag", SInt, v.t), typeTag(t)))
	case "as":
		need(2)
		v := c.eval(n.kids[0])
		t := c.r.v.goType(c.pkg, c.strArg(n, 1))
		return mkT(unboxVal(t, App("ifc-val", SInt, v.t)), t)
	case "cast":
		need(2)
		v := c.eval(n.kids[0])
		rt := c.r.v.resolveType(c.pkg, c.strArg(n, 1))
		return SVal{t: c.coerce(v, rt, n), typ: rt.typ, sort: rt.sort}
	case "heapof":
		// heapof(x.f): the field f of all objects
		need(1)
		l := c.loc(n.kids[0])
		return mkS(c.heap(l[0].heap, n))
	case "tagof":
		need(1)
		return mkS(App("ifc-tag", SInt, c.eval(n.kids[0]).t))
	case "dataof":
		need(1)
		return mkS(App("ifc-val", SInt, c.eval(n.kids[0]).t))
	case "tagid":
		return mkS(typeTag(c.r.v.goType(c.pkg, c.strArg(n, 0))))
	case "impl":
		need(2)
		return mkS(c.r.implements(App("ifc-tag", SInt, c.eval(n.kids[0]).t), c.r.v.goType(c.pkg, c.strArg(n, 1))))
	case "iface":
		need(1)
		v := c.eval(n.kids[0])
		return mkS(mkIfc(v.typ, v.t))
	case "box":
		need(1)
		v := c.eval(n.kids[0])
		return mkS(boxVal(v.typ, v.t))
	case "unboxas":
		need(2)
		v := c.eval(n.kids[0])
		rt := c.r.v.resolveType(c.pkg, c.strArg(n, 1))
		t := v.t
		if rt.sort != SInt {
			t = Unbox(sanitize(rt.sort), rt.sort, v.t)
		}
		return SVal{t: t, typ: rt.typ, sort: rt.sort}
	case "ite":
		need(3)
		cnd := c.boolT(n.kids[0])
		if cnd == TTrue {
			return c.eval(n.kids[1])
		}
		if cnd == TFalse {
			return c.eval(n.kids[2])
		}
		a, b := c.eval(n.kids[1]), c.eval(n.kids[2])
		x, y := c.unify(a, b, n)
		ty := a.typ
		if isNilS(a) || ty == nil {
			ty = b.typ
		}
		if isNilS(SVal{typ: ty}) {
			ty = nil
		}
		return SVal{t: Ite(cnd, x, y), typ: ty, sort: x.sort}
	case "min", "max":
		a, b := c.eval(n.kids[0]), c.eval(n.kids[1])
		if n.s == "min" {
			return mkT(Ite(Le(a.t, b.t), a.t, b.t), arithTyp(a, b))
		}
		return mkT(Ite(Le(a.t, b.t), b.t, a.t), arithTyp(a, b))
	case "upd":
		need(3)
		a := c.eval(n.kids[0])
		is, vs, _ := arrParts(a.sort)
		return mkS(Store(a.t, c.coerce(c.eval(n.kids[1]), resType{sort: is}, n), c.coerce(c.eval(n.kids[2]), resType{sort: vs}, n)))
	case "constarr":
		rt := c.r.v.resolveType(c.pkg, c.strArg(n, 0))
		_, vs, _ := arrParts(rt.sort)
		return mkS(ConstArr(rt.sort, c.coerce(c.eval(n.kids[1]), resType{sort: vs}, n)))
	case "mk":
		t := c.r.v.goType(c.pkg, c.strArg(n, 0))
		u := structOf(t)
		if len(n.kids)-1 != u.NumFields() {
			c.fail(n, "mk: wrong number of fields")
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, c.coerce(c.eval(n.kids[i+1]), resType{typ: u.Field(i).Type()}, n))
		}
		s := sortOf(t)
		return mkT(App("mk-"+s, s, as...), t)
	case "fn":
		k := c.strArg(n, 0)
		if !strings.Contains(k, "/") {
			k = c.pkg + "." + k
		}
		return mkS(Const("fn!"+k, SInt))
	case "addr":
		// addr(x.f): the address of a field used as a value
		l := c.loc(n.kids[0])
		f := "addr!" + l[0].heap
		declFun(f, SInt, SInt)
		return mkS(App(f, SInt, l[0].idx))
	case "inlist":
		need(0)
	case "strlit":
		return mkT(StrLit(c.strArg(n, 0)), types.Typ[types.String])
	case "zero":
		rt := c.r.v.resolveType(c.pkg, c.strArg(n, 0))
		return SVal{t: zeroOf(rt.typ), typ: rt.typ, sort: rt.sort}
	}
	if m, ok := specs.macros[n.s]; ok {
		return c.macro(m, args(), n)
	}
	if w, ok := specs.views[n.s]; ok {
		need(1)
		a := c.eval(n.kids[0])
		return c.view(w, a, n)
	}
	if f, ok := funs[n.s]; ok {
		as := args()
		if len(as) != len(f.args) {
			c.fail(n, fmt.Sprintf("%s takes %d arguments", n.s, len(f.args)))
		}
		var ts []*Term
		for i, a := range as {
			ts = append(ts, c.coerce(a, resType{sort: f.args[i]}, n))
		}
		return mkS(App(n.s, f.ret, ts...))
	}
	if strings.HasPrefix(n.s, "is_") {
		if s, ok := ctorSort[n.s[3:]]; ok {
			v := c.eval(n.kids[0])
			if v.sort != s {
				c.fail(n, n.s+" of "+v.sort)
			}
			return mkS(App("is-"+n.s[3:], SBool, v.t))
		}
	}
	c.fail(n, "unknown function "+n.s)
	return SVal{}
}

func (c *specCtx) view(w *View, a SVal, n *Node) SVal {
	if w.pkg != c.r.pkg {
		return mkS(Select(c.heap(viewHeap(w), n), a.t))
	}
	d := *c
	d.pkg = w.pkg
	d.deep = c.deep + 1
	rt := c.r.v.resolveType(w.pkg, w.param.typ)
	d.env = map[string]SVal{w.param.name: {t: a.t, typ: rt.typ, sort: rt.sort}}
	v := d.eval(w.body)
	return mkS(c.coerce(v, resType{sort: w.sort}, n))
}

// ---- locations (modifies clauses)

type loc struct {
	heap   string
	idx    *Term // nil: whole variable
	view   *View
	hidden bool // mentions unexported state of another package
}

// entry is the object the location expression n names: nil when n is the
// value of a key that the map does not have.
func (c *specCtx) entry(n *Node, v *Term) *Term {
	if n.k != "index" {
		return v
	}
	m := c.eval(n.kids[0])
	if m.typ == nil {
		return v
	}
	if _, ok := m.typ.Underlying().(*types.Map); !ok {
		return v
	}
	h := c.eval(&Node{k: "call", s: "has", kids: n.kids, pos: n.pos})
	return Ite(And(Not(Eq(m.t, TZero)), h.t), v, TZero)
}

func (c *specCtx) loc(n *Node) []loc {
	switch n.k {
	case "id":
		if _, ok := specs.gvars[n.s]; ok {
			return []loc{{heap: ghostVar(n.s).name}}
		}
		if p := c.r.v.findPkg(c.pkg); p != nil {
			if o, ok := p.Scope().Lookup(n.s).(*types.Var); ok {
				t := o.Type()
				if c.r.v.escaped[p.Path()+"."+n.s] {
					return []loc{{heap: cellHeap(t).name, idx: globalRefK(p.Path() + "." + n.s)}}
				}
				h := heapVar("G:"+shortPkg(p.Path())+"."+n.s, sortOf(t), t, isRefType(t))
				return []loc{{heap: h.name, hidden: !o.Exported() && c.pkg != c.r.pkg}}
			}
		}
	case "field":
		v := c.eval(n.kids[0])
		hid := c.hidden(n.kids[0])
		if v.typ == nil {
			c.fail(n, "field of a value without Go type")
		}
		bt, _ := deref(v.typ)
		if g, ok := specs.ghosts[typeKey(bt)+"."+n.s]; ok {
			return []loc{{heap: g.heapName(), idx: c.entry(n.kids[0], v.t), hidden: hid}}
		}
		pk := c.r.v.findPkg(c.pkg)
		if nm, ok := types.Unalias(bt).(*types.Named); ok && nm.Obj().Pkg() != nil {
			pk = nm.Obj().Pkg()
		}
		o, path, _ := types.LookupFieldOrMethod(bt, true, pk, n.s)
		f, ok := o.(*types.Var)
		if !ok || len(path) != 1 {
			c.fail(n, "no direct field "+n.s+" in "+typeKey(bt))
		}
		return []loc{{heap: fieldHeap(bt, f).name, idx: c.entry(n.kids[0], v.t), hidden: hid || c.hidden(n)}}
	case "index":
		v := c.eval(n.kids[0])
		if v.typ != nil {
			c.fail(n, "use elems() or map() in modifies")
		}
		i := c.eval(n.kids[1])
		if n.kids[0].k == "id" {
			return []loc{{heap: ghostVar(n.kids[0].s).name, idx: i.t}}
		}
	case "un":
		if n.s == "*" {
			v := c.eval(n.kids[0])
			p := v.typ.Underlying().(*types.Pointer)
			if a := v.addr; a != nil {
				if len(a.path) > 0 || len(a.idx) > 1 {
					c.fail(n, "location inside a structure")
				}
				if len(a.idx) == 0 {
					return []loc{{heap: a.heap}}
				}
				return []loc{{heap: a.heap, idx: a.idx[0]}}
			}
			return []loc{{heap: cellHeap(p.Elem()).name, idx: v.t, hidden: c.hidden(n.kids[0])}}
		}
	case "call":
		switch n.s {
		case "elems":
			v := c.eval(n.kids[0])
			s := v.typ.Underlying().(*types.Slice)
			return []loc{{heap: elemHeap(s.Elem()).name, idx: slcBase(v.t), hidden: c.hidden(n.kids[0])}}
		case "map":
			v := c.eval(n.kids[0])
			h := c.hidden(n.kids[0])
			return []loc{{heap: mapDomHeap(v.typ).name, idx: v.t, hidden: h}, {heap: mapValHeap(v.typ).name, idx: v.t, hidden: h}}
		case "all":
			// all(x.f): the field f of every object of x's type
			l := c.loc(n.kids[0])
			var all []loc
			for _, x := range l {
				all = append(all, loc{heap: x.heap, view: x.view, hidden: x.hidden})
			}
			return all
		case "whole":
			nm := c.strArg(n, 0)
			if _, ok := heapVars[nm]; !ok {
				c.fail(n, "no heap variable "+nm)
			}
			return []loc{{heap: nm}}
		case "old":
			return c.in(c.old).loc(n.kids[0])
		}
		if w, ok := specs.views[n.s]; ok {
			v := c.eval(n.kids[0])
			return []loc{{heap: viewHeap(w), idx: v.t, view: w, hidden: c.hidden(n.kids[0])}}
		}
	}
	c.fail(n, "not a location")
	return nil
}

// hidden: does n read unexported fields of a package other than the one under
// verification, of a type which that package describes by views?
func (c *specCtx) hidden(n *Node) bool {
	if c.pkg == c.r.pkg {
		return false
	}
	if n.k == "field" && !token.IsExported(n.s) {
		if _, isG := c.isGhostName(n.s); !isG {
			for k := range specs.viewFields() {
				if k == c.pkg+"."+n.s {
					return true
				}
			}
		}
	}
	for _, k := range n.kids {
		if c.hidden(k) {
			return true
		}
	}
	return false
}

// unexported: n reads unexported fields.
func (c *specCtx) unexported(n *Node) bool {
	if n.k == "field" && !token.IsExported(n.s) {
		if _, isG := c.isGhostName(n.s); !isG {
			return true
		}
	}
	for _, k := range n.kids {
		if c.unexported(k) {
			return true
		}
	}
	return false
}

// viewFields: the unexported fields that the views of a package read.
func (s *Specs) viewFields() map[string]bool {
	if s.vf != nil {
		return s.vf
	}
	s.vf = map[string]bool{}
	var walk func(pkg string, n *Node)
	walk = func(pkg string, n *Node) {
		if n.k == "field" && !token.IsExported(n.s) {
			s.vf[pkg+"."+n.s] = true
		}
		for _, k := range n.kids {
			walk(pkg, k)
		}
	}
	for _, w := range s.views {
		walk(w.pkg, w.body)
	}
	return s.vf
}
func (c *specCtx) isGhostName(s string) (string, bool) {
	for k, g := range specs.ghosts {
		if g.name == s {
			return k, true
		}
	}
	return "", false
}
