package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"
)

// Mapping of Go types to sorts and heap variables.

const repoPrefix = "github.com/go-stomp/stomp/v3"

func isRepoPkg(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), repoPrefix)
}

func shortPkg(path string) string {
	if path == repoPrefix {
		return "stomp"
	}
	if i := strings.LastIndexByte(path, '/'); i >= 0 {
		return path[i+1:]
	}
	return path
}

func typeKey(t types.Type) string {
	switch u := t.(type) {
	case *types.Named:
		o := u.Obj()
		if o.Pkg() == nil {
			return o.Name()
		}
		return shortPkg(o.Pkg().Path()) + "." + o.Name()
	case *types.Alias:
		return typeKey(types.Unalias(t))
	}
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return shortPkg(p.Path()) }), " ", "_")
}

var structFields = map[string][]*types.Var{} // struct sort -> fields

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UnsafePointer:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return SInt
	case *types.Slice:
		return SSlc
	case *types.Interface:
		return SIfc
	case *types.Array:
		return SArr(SInt, sortOf(u.Elem()))
	case *types.Struct:
		return structSort(t, u)
	}
	panic(unsupported(fmt.Sprintf("type %s", t)))
}

func isOpaqueStruct(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	return !isRepoPkg(n.Obj().Pkg())
}

func structSort(t types.Type, u *types.Struct) Sort {
	if isOpaqueStruct(t) {
		return "X_" + sanitize(typeKey(t))
	}
	name := "T_" + sanitize(typeKey(t))
	if _, ok := dtypeSorts[name]; ok {
		return name
	}
	lockDecl()
	defer unlockDecl()
	dtypeSorts[name] = -1 // recursion guard (cannot happen by value)
	var sels []string
	var as []Sort
	var fl []string
	var fs []*types.Var
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		fs = append(fs, f)
		s := sortOf(f.Type())
		sel := name + "." + f.Name()
		sels = append(sels, sel)
		as = append(as, s)
		fl = append(fl, "("+sel+" "+s+")")
		declFun(sel, s, name)
	}
	ctor := "mk-" + name
	declFun(ctor, name, as...)
	DeclCtor(ctor, name, sels...)
	delete(dtypeSorts, name)
	declDatatype(name, "(declare-datatypes (("+name+" 0)) ((("+ctor+" "+strings.Join(fl, " ")+"))))")
	structFields[name] = fs
	return name
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return
	}
	bits := 64
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	case types.UntypedInt, types.UntypedRune:
		return
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		h := new(big.Int).Lsh(one, uint(bits))
		h.Sub(h, one)
		return "0", h.String(), true
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	l := new(big.Int).Neg(h)
	h.Sub(h, one)
	return l.String(), h.String(), true
}

func inRange(t types.Type, x *Term) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return TTrue
	}
	return And(Le(IntLitS(lo), x), Le(x, IntLitS(hi)))
}

func constTerm(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroOf(t)
	}
	switch sortOf(t) {
	case SBool:
		return BoolLit(constant.BoolVal(v))
	case SStr:
		if v.Kind() == constant.Int { // string(rune const)
			i, _ := constant.Int64Val(v)
			return StrLit(string(rune(i)))
		}
		return StrLit(constant.StringVal(v))
	case SInt:
		return IntLitS(constant.ToInt(v).ExactString())
	case "Flt":
		return Const("flt!"+v.ExactString(), "Flt")
	}
	panic(unsupported("constant of type " + t.String()))
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SBool:
			return TFalse
		case SStr:
			return StrLit("")
		case "Flt":
			return Const("flt!0", "Flt")
		}
		return TZero
	case *types.Slice:
		return TNilSlc
	case *types.Interface:
		return TNilIfc
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		s := sortOf(t)
		if isOpaqueStruct(t) {
			return Const("zero!"+s, s)
		}
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return App("mk-"+s, s, as...)
	}
	return TZero
}

// type tags of dynamic types stored in interfaces
var typeTags = map[string]int64{}
var typeTagTypes = map[int64]types.Type{}

func tagGoType(id *Term) types.Type {
	v, ok := id.isInt()
	if !ok {
		return nil
	}
	return typeTagTypes[v]
}

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, nil)
	id, ok := typeTags[k]
	if !ok {
		id = int64(len(typeTags) + 1)
		typeTags[k] = id
		typeTagTypes[id] = t
	}
	return IntLit(id)
}

func tagType(id *Term) string {
	v, _ := id.isInt()
	for k, x := range typeTags {
		if x == v {
			return k
		}
	}
	return ""
}

func boxVal(t types.Type, v *Term) *Term {
	if v.sort == SInt {
		return v
	}
	return Box(sanitize(v.sort), v)
}
func unboxVal(t types.Type, v *Term) *Term {
	s := sortOf(t)
	if s == SInt {
		return v
	}
	return Unbox(sanitize(s), s, v)
}

func mkIfc(t types.Type, v *Term) *Term {
	return App("mk-ifc", SIfc, typeTag(t), boxVal(t, v))
}

func elemHeapSort(t types.Type) Sort { return SArr(SInt, sortOf(t)) }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func initBuiltins() {
	sortIsUninterp[SStr] = true
	declFun("ifc-tag", SInt, SIfc)
	declFun("ifc-val", SInt, SIfc)
	declFun("mk-ifc", SIfc, SInt, SInt)
	DeclCtor("mk-ifc", SIfc, "ifc-tag", "ifc-val")
	declDatatype(SIfc, "(declare-datatypes ((Ifc 0)) (((mk-ifc (ifc-tag Int) (ifc-val Int)))))")
	declFun("mk-slc", SSlc, SInt, SInt, SInt, SInt)
	for _, f := range []string{"slc-base", "slc-off", "slc-len", "slc-cap"} {
		declFun(f, SInt, SSlc)
	}
	DeclCtor("mk-slc", SSlc, "slc-base", "slc-off", "slc-len", "slc-cap")
	declDatatype(SSlc, "(declare-datatypes ((Slc 0)) (((mk-slc (slc-base Int) (slc-off Int) (slc-len Int) (slc-cap Int)))))")
	declFun("slen", SInt, SStr)
	declFun("scat", SStr, SStr, SStr)
	declFun("ssub", SStr, SStr, SInt, SInt)
	declFun("sat", SInt, SStr, SInt)
	declFun("elem", SInt, SInt, SInt)
	declFun("elem_l", SInt, SInt)
	declFun("elem_s", SInt, SInt)
	for _, e := range []Sort{SStr, SInt} {
		A := BVar("A", SArr(SInt, e))
		amove(A, TZero, A, TZero, TOne)
	}
}

func slcBase(s *Term) *Term { return App("slc-base", SInt, s) }
func slcOff(s *Term) *Term  { return App("slc-off", SInt, s) }
func slcLen(s *Term) *Term  { return App("slc-len", SInt, s) }
func slcCap(s *Term) *Term  { return App("slc-cap", SInt, s) }
func mkSlc(b, o, l, c *Term) *Term {
	return App("mk-slc", SSlc, b, o, l, c)
}

// amove(A,d,B,s,n): A with n elements of B from s copied to d
func amove(A, d, B, s, n *Term) *Term {
	_, es, _ := arrParts(A.sort)
	f := "amove_" + sanitize(es)
	declFun(f, A.sort, A.sort, SInt, A.sort, SInt, SInt)
	if _, ok := axByName[f]; !ok {
		a, b := BVar("a", A.sort), BVar("b", A.sort)
		dv, sv, nv, j := BVar("d", SInt), BVar("s", SInt), BVar("n", SInt), BVar("j", SInt)
		call := mkRaw(f, "", A.sort, a, dv, b, sv, nv)
		sel := mkRaw("select", "", es, call, j)
		body := Eq(sel, Ite(And(Le(dv, j), Lt(j, Add(dv, nv))), Select(b, Sub(Add(j, sv), dv)), Select(a, j)))
		addAxiom(&Axiom{name: f, kind: "def", body: Forall([]*Term{a, dv, b, sv, nv, j}, [][]*Term{{sel}}, body)})
	}
	if n == TZero {
		return A
	}
	return mkRaw(f, "", A.sort, A, d, B, s, n)
}

func addAxiom(ax *Axiom) {
	if _, ok := axByName[ax.name]; ok {
		panic("duplicate axiom " + ax.name)
	}
	if ax.body.vars != nil && ax.body.op == "forall" {
		for _, p := range ax.body.pats {
			ss := newSymset()
			for _, x := range p {
				ss.add(x)
			}
			var fs []string
			for f := range ss.funs {
				if _, ok := funs[f]; ok && !distinctCtorsNullary(f) {
					fs = append(fs, f)
				} else if f == "select" || f == "store" {
					// too common to be selective
				}
			}
			if len(fs) == 0 {
				ax.always = true
			}
			ax.pats = append(ax.pats, fs)
		}
	}
	if len(ax.pats) == 0 {
		ss := newSymset()
		ss.add(ax.body)
		var fs []string
		for f := range ss.funs {
			if _, ok := funs[f]; ok {
				fs = append(fs, f)
			}
		}
		ax.pats = append(ax.pats, fs)
	}
	lockDecl()
	defer unlockDecl()
	axByName[ax.name] = ax
	axioms = append(axioms, ax)
}

func distinctCtorsNullary(f string) bool {
	if !distinctCtors[f] {
		return false
	}
	return true
}
