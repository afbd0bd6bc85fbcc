package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms of the verification conditions: hash-consed, simplified on construction.

type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
	SSlc  Sort = "Slc"
	SIfc  Sort = "Ifc"
)

func SArr(a, b Sort) Sort { return "(Array " + a + " " + b + ")" }

// arrParts splits "(Array A B)".
func arrParts(s Sort) (Sort, Sort, bool) {
	if !strings.HasPrefix(s, "(Array ") {
		return "", "", false
	}
	in := s[7 : len(s)-1]
	d := 0
	for i, c := range in {
		if c == '(' {
			d++
		} else if c == ')' {
			d--
		} else if c == ' ' && d == 0 {
			return in[:i], in[i+1:], true
		}
	}
	return "", "", false
}

type Term struct {
	id    int
	op    string // SMT operator/function name; "#int" literal; "#str" literal; "#const"; "#bv" bound variable; "forall"/"exists"
	lit   string
	args  []*Term
	sort  Sort
	vars  []*Term   // quantifiers
	pats  [][]*Term // quantifiers
	bound bool      // contains a bound variable
	rank  int       // >=0: this ref is known to be below watermark #rank (see Exec); -1 unknown
	size  int
}

var (
	tmu   sync.Mutex
	ttab  = map[string]*Term{}
	tnext = 1
)

func mkRaw(op, lit string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(lit)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	tmu.Lock()
	defer tmu.Unlock()
	if t, ok := ttab[k]; ok {
		return t
	}
	t := &Term{id: tnext, op: op, lit: lit, args: args, sort: sort, rank: -1, size: 1}
	tnext++
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
		if t.size += a.size; t.size > 1<<40 {
			t.size = 1 << 40
		}
	}
	if op == "#bv" {
		t.bound = true
	}
	ttab[k] = t
	return t
}

func Const(name string, s Sort) *Term        { return mkRaw("#const", name, s) }
func BVar(name string, s Sort) *Term         { return mkRaw("#bv", name, s) }
func StrLit(s string) *Term                  { return mkRaw("#str", s, SStr) }
func IntLit(i int64) *Term                   { return mkRaw("#int", strconv.FormatInt(i, 10), SInt) }
func IntLitS(s string) *Term                 { return mkRaw("#int", s, SInt) }
func App(f string, s Sort, a ...*Term) *Term { return simpApp(f, s, a) }

var (
	TTrue   = mkRaw("true", "", SBool)
	TFalse  = mkRaw("false", "", SBool)
	TZero   = IntLit(0)
	TOne    = IntLit(1)
	TNilIfc = mkRaw("mk-ifc", "", SIfc, IntLit(0), IntLit(0))
	TNilSlc = mkRaw("mk-slc", "", SSlc, IntLit(0), IntLit(0), IntLit(0), IntLit(0))
)

func BoolLit(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func (t *Term) isInt() (int64, bool) {
	if t.op == "#int" {
		v, err := strconv.ParseInt(t.lit, 10, 64)
		return v, err == nil
	}
	return 0, false
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.args[0]
	}
	return mkRaw("not", "", SBool, a)
}

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == nil {
			panic("nil term in " + op)
		}
		if a == unit {
			continue
		}
		if a == zero {
			return zero
		}
		xs := []*Term{a}
		if a.op == op {
			xs = a.args
		}
		for _, x := range xs {
			if seen[x.id] {
				continue
			}
			seen[x.id] = true
			out = append(out, x)
		}
	}
	for _, x := range out {
		if seen[Not(x).id] {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return mkRaw(op, "", SBool, out...)
}
func And(as ...*Term) *Term { return nary("and", TTrue, TFalse, as) }
func Or(as ...*Term) *Term  { return nary("or", TFalse, TTrue, as) }
func Imp(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue {
		return TTrue
	}
	if b == TFalse {
		return Not(a)
	}
	if a == b {
		return TTrue
	}
	return mkRaw("=>", "", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
		if a == TTrue {
			return Or(c, b)
		}
		if b == TFalse {
			return And(c, a)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	t := mkRaw("ite", "", a.sort, c, a, b)
	if a.sort == SInt {
		ra, rb := rankOf(a), rankOf(b)
		if ra >= 0 && rb >= 0 {
			if rb > ra {
				ra = rb
			}
			if t.rank < 0 || ra < t.rank {
				t.rank = ra
			}
		}
	}
	return t
}

// rankOf: index of a watermark the ref is known to be below, or -1.
func rankOf(t *Term) int {
	if t.rank >= 0 {
		return t.rank
	}
	if i, ok := wmOf(t); ok {
		return i + 1
	}
	if v, ok := t.isInt(); ok && v <= 0 {
		return 0
	}
	return -1
}

// linear form of integer terms: constant + sum coeff*atom
func linear(t *Term) (int64, map[*Term]int64, bool) {
	switch t.op {
	case "#int":
		v, ok := t.isInt()
		if !ok || v > 1<<60 || v < -(1<<60) {
			return 0, map[*Term]int64{t: 1}, true
		}
		return v, nil, true
	case "+":
		c := int64(0)
		m := map[*Term]int64{}
		for _, a := range t.args {
			ca, ma, _ := linear(a)
			c += ca
			for k, v := range ma {
				m[k] += v
				if m[k] == 0 {
					delete(m, k)
				}
			}
		}
		return c, m, true
	case "*":
		if k, ok := t.args[0].isInt(); ok {
			ca, ma, _ := linear(t.args[1])
			m := map[*Term]int64{}
			for a, v := range ma {
				m[a] = v * k
			}
			return ca * k, m, true
		}
	}
	return 0, map[*Term]int64{t: 1}, true
}
func fromLinear(c int64, m map[*Term]int64) *Term {
	var keys []*Term
	for k, v := range m {
		if v != 0 {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var as []*Term
	for _, k := range keys {
		if m[k] == 1 {
			as = append(as, k)
		} else {
			as = append(as, mkRaw("*", "", SInt, IntLit(m[k]), k))
		}
	}
	if c != 0 || len(as) == 0 {
		as = append(as, IntLit(c))
	}
	if len(as) == 1 {
		return as[0]
	}
	return mkRaw("+", "", SInt, as...)
}
func Add(a, b *Term) *Term {
	ca, ma, _ := linear(a)
	cb, mb, _ := linear(b)
	m := map[*Term]int64{}
	for k, v := range ma {
		m[k] += v
	}
	for k, v := range mb {
		m[k] += v
	}
	return fromLinear(ca+cb, m)
}
func Neg(a *Term) *Term { return MulC(-1, a) }
func MulC(k int64, a *Term) *Term {
	c, m, _ := linear(a)
	n := map[*Term]int64{}
	for t, v := range m {
		n[t] = v * k
	}
	return fromLinear(c*k, n)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }
func Mul(a, b *Term) *Term {
	if k, ok := a.isInt(); ok {
		return MulC(k, b)
	}
	if k, ok := b.isInt(); ok {
		return MulC(k, a)
	}
	return mkRaw("*", "", SInt, a, b)
}

func constDiff(a, b *Term) (int64, bool) {
	ca, ma, _ := linear(a)
	cb, mb, _ := linear(b)
	m := map[*Term]int64{}
	for k, v := range ma {
		m[k] += v
	}
	for k, v := range mb {
		m[k] -= v
	}
	for _, v := range m {
		if v != 0 {
			return 0, false
		}
	}
	return ca - cb, true
}
func Le(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return BoolLit(d <= 0)
	}
	return mkRaw("<=", "", SBool, a, b)
}
func Lt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return BoolLit(d < 0)
	}
	return Not(Le(b, a))
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// wmOf recognises watermark terms wm!i + k
func wmOf(t *Term) (int, bool) {
	c, m, _ := linear(t)
	if c < 0 || len(m) != 1 {
		return 0, false
	}
	for k, v := range m {
		if v == 1 && k.op == "#const" && strings.HasPrefix(k.lit, "wm!") {
			s := k.lit[3:]
			if j := strings.IndexByte(s, '!'); j >= 0 {
				s = s[:j]
			}
			i, err := strconv.Atoi(s)
			return i, err == nil
		}
	}
	return 0, false
}

func isLitLike(t *Term) bool {
	return t.op == "#int" || t.op == "#str" || t.op == "true" || t.op == "false"
}

var distinctCtors = map[string]bool{} // datatype constructors
var ctorSort = map[string]Sort{}
var ctorSels = map[string][]string{}
var selOf = map[string]struct {
	ctor string
	idx  int
}{}

func DeclCtor(name string, s Sort, sels ...string) {
	lockDecl()
	defer unlockDecl()
	distinctCtors[name] = true
	ctorSort[name] = s
	ctorSels[name] = sels
	for i, x := range sels {
		selOf[x] = struct {
			ctor string
			idx  int
		}{name, i}
	}
}

func isCtor(t *Term) bool { return distinctCtors[t.op] }

// definitely different / same : 1 equal, -1 different, 0 unknown
// the functions of the program are different values, and none is nil
func isFnConst(t *Term) bool { return t.op == "#const" && strings.HasPrefix(t.lit, "fn!") }

func cmpTerms(a, b *Term) int {
	if a == b {
		return 1
	}
	if isLitLike(a) && isLitLike(b) {
		return -1
	}
	if a.sort == SInt {
		if isFnConst(a) && (b == TZero || isFnConst(b)) || isFnConst(b) && a == TZero {
			return -1
		}
		if d, ok := constDiff(a, b); ok {
			if d == 0 {
				return 1
			}
			return -1
		}
		// alloc refs against older refs
		if i, ok := wmOf(a); ok {
			if r := rankOf(b); r >= 0 && r <= i {
				return -1
			}
		}
		if i, ok := wmOf(b); ok {
			if r := rankOf(a); r >= 0 && r <= i {
				return -1
			}
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return -1
		}
		all := 1
		for i := range a.args {
			c := cmpTerms(a.args[i], b.args[i])
			if c == -1 {
				return -1
			}
			if c == 0 {
				all = 0
			}
		}
		return all
	}
	if a.op == "elem" && b.op == "elem" { // list elements
		if cmpTerms(a.args[0], b.args[0]) == -1 || cmpTerms(a.args[1], b.args[1]) == -1 {
			return -1
		}
	}
	return 0
}

func Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq: sorts differ: %s : %s vs %s : %s", a, a.sort, b, b.sort))
	}
	switch cmpTerms(a, b) {
	case 1:
		return TTrue
	case -1:
		return TFalse
	}
	if a.sort == SBool {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
	}
	if isCtor(a) && isCtor(b) && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.op == "ite" && isLitLike(b) && (isLitLike(a.args[1]) || isLitLike(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && isLitLike(a) && (isLitLike(b.args[1]) || isLitLike(b.args[2])) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.op == "box" && b.op == "box" && a.lit == b.lit {
		return Eq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw("=", "", SBool, a, b)
}

func Select(a, i *Term) *Term {
	_, vs, ok := arrParts(a.sort)
	if !ok {
		panic("select on " + a.sort + " " + a.String())
	}
	for a.op == "store" {
		c := cmpTerms(a.args[1], i)
		if c == 1 {
			return a.args[2]
		}
		if c == -1 {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" && !a.bound {
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		if x == y || x.op != "select" || y.op != "select" || a.size < 200 {
			return Ite(a.args[0], x, y)
		}
	}
	t := mkRaw("select", "", vs, a, i)
	if vs == SInt && !t.bound {
		if r := arrRank(a, i); r >= 0 && (t.rank < 0 || r < t.rank) {
			t.rank = r
		}
	}
	return t
}

// arrRank: watermark index the value of a at index i is known to be below, or -1.
func arrRank(a, i *Term) int {
	switch a.op {
	case "store":
		r, s := arrRank(a.args[0], i), rankOf(a.args[2])
		if r < 0 || s < 0 {
			return -1
		}
		if s > r {
			return s
		}
		return r
	case "ite":
		r, s := arrRank(a.args[1], i), arrRank(a.args[2], i)
		if r < 0 || s < 0 {
			return -1
		}
		if s > r {
			return s
		}
		return r
	case "#const":
		if m := arrayMeta(a); m != nil && m.ref {
			if ir := rankOf(i); ir >= 0 && ir <= m.wm {
				return m.wm
			}
		}
	}
	return -1
}

func Store(a, i, v *Term) *Term {
	is, vs, ok := arrParts(a.sort)
	if !ok || is != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store: %s into %s at %s", v.sort, a.sort, i.sort))
	}
	if a.op == "store" && cmpTerms(a.args[1], i) == 1 {
		a = a.args[0]
	}
	if a.op != "store" || true {
		if Select(a, i) == v {
			return a
		}
	}
	return mkRaw("store", "", a.sort, a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mkRaw("constarr", "", s, v) }

// Metadata of base array constants.
type ArrMeta struct {
	ref    bool   // values are refs
	slc    bool   // values are slices
	wm     int    // watermark index at creation
	lo, hi string // integer range of the values
}

var arrMetaTab sync.Map // name -> *ArrMeta

func arrayMeta(a *Term) *ArrMeta {
	if a.op == "#const" {
		if m, ok := arrMetaTab.Load(a.lit); ok {
			return m.(*ArrMeta)
		}
	}
	return nil
}

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term { return quant("forall", vars, pats, body) }
func Exists(vars []*Term, pats [][]*Term, body *Term) *Term { return quant("exists", vars, pats, body) }

func quant(op string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	var b strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&b, "%d ", v.id)
	}
	b.WriteByte(';')
	for _, p := range pats {
		for _, x := range p {
			fmt.Fprintf(&b, "%d ", x.id)
		}
		b.WriteByte(',')
	}
	t := mkRaw(op, b.String(), SBool, body)
	tmu.Lock()
	t.vars = vars
	t.pats = pats
	tmu.Unlock()
	t.bound = false
	free := map[*Term]bool{}
	freeBVs(body, map[*Term]bool{}, free)
	for _, v := range vars {
		delete(free, v)
	}
	t.bound = len(free) > 0
	return t
}

func freeBVs(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if !t.bound || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "#bv" {
		out[t] = true
		return
	}
	if t.vars != nil {
		in := map[*Term]bool{}
		freeBVs(t.args[0], map[*Term]bool{}, in)
		for _, v := range t.vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeBVs(a, seen, out)
	}
}

// Subst replaces constants/bound variables.
func Subst(t *Term, m map[*Term]*Term) *Term {
	return substM(t, m, map[*Term]*Term{})
}
func substM(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.vars != nil {
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, substM(x, m, memo))
			}
			pats = append(pats, q)
		}
		r = quant(t.op, t.vars, pats, substM(t.args[0], m, memo))
	} else {
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = substM(a, m, memo)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			r = t
		} else {
			r = rebuild(t, as)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Imp(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "+":
		r := as[0]
		for _, a := range as[1:] {
			r = Add(r, a)
		}
		return r
	case "*":
		return Mul(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "constarr":
		return ConstArr(t.sort, as[0])
	case "box", "unbox":
		return simpBox(t.op, t.lit, t.sort, as)
	}
	return simpApp(t.op, t.sort, as)
}

func simpBox(op, lit string, s Sort, as []*Term) *Term {
	if op == "unbox" && as[0].op == "box" && as[0].lit == lit {
		return as[0].args[0]
	}
	return mkRaw(op, lit, s, as...)
}
func Box(kind string, v *Term) *Term           { return simpBox("box", kind, SInt, []*Term{v}) }
func Unbox(kind string, s Sort, v *Term) *Term { return simpBox("unbox", kind, s, []*Term{v}) }

// application-level rewrites
func simpApp(f string, s Sort, as []*Term) *Term {
	if so, ok := selOf[f]; ok && len(as) == 1 {
		a := as[0]
		if a.op == so.ctor {
			return a.args[so.idx]
		}
		if a.op == "ite" {
			return Ite(a.args[0], simpApp(f, s, []*Term{a.args[1]}), simpApp(f, s, []*Term{a.args[2]}))
		}
	}
	if strings.HasPrefix(f, "is-") {
		if isCtor(as[0]) {
			return BoolLit("is-"+as[0].op == f)
		}
	}
	if noSimp && (f == "scat" || f == "slen" || f == "ssub" || f == "sat") {
		return mkRaw(f, "", s, as...)
	}
	switch f {
	case "scat":
		return Cat(as...)
	case "slen":
		if as[0].op == "#str" {
			return IntLit(int64(len(as[0].lit)))
		}
		if as[0].op == "scat" {
			r := TZero
			for _, a := range as[0].args {
				r = Add(r, simpApp("slen", SInt, []*Term{a}))
			}
			return r
		}
	case "ssub":
		if as[1] == TZero {
			if d, ok := constDiff(as[2], simpApp("slen", SInt, []*Term{as[0]})); ok && d == 0 {
				return as[0]
			}
		}
		if as[0].op == "#str" {
			o, ok1 := as[1].isInt()
			n, ok2 := as[2].isInt()
			if ok1 && ok2 && o >= 0 && n >= 0 && o+n <= int64(len(as[0].lit)) {
				return StrLit(as[0].lit[o : o+n])
			}
		}
		if as[2] == TZero {
			return StrLit("")
		}
	case "sat":
		if as[0].op == "#str" {
			if o, ok := as[1].isInt(); ok && o >= 0 && o < int64(len(as[0].lit)) {
				return IntLit(int64(as[0].lit[o]))
			}
		}
	case "elem_l":
		if as[0].op == "elem" {
			return as[0].args[0]
		}
	case "elem_s":
		if as[0].op == "elem" {
			return as[0].args[1]
		}
	}
	if r := userSimp(f, s, as); r != nil {
		return r
	}
	if isCtor2 := distinctCtors[f]; isCtor2 && len(as) > 0 {
		// eta: mk(sel0(x),sel1(x),..) = x
		sels := ctorSels[f]
		if len(sels) == len(as) && as[0].op == sels[0] && len(as[0].args) == 1 {
			x := as[0].args[0]
			ok := x.sort == s
			for i := range as {
				if as[i].op != sels[i] || as[i].args[0] != x {
					ok = false
				}
			}
			if ok && onlyCtor(s, f) {
				return x
			}
		}
	}
	return mkRaw(f, "", s, as...)
}

func onlyCtor(s Sort, f string) bool {
	for c, cs := range ctorSort {
		if cs == s && c != f {
			return false
		}
	}
	return true
}

// Cat: flattened string concatenation
func Cat(as ...*Term) *Term {
	var out []*Term
	var push func(a *Term)
	push = func(a *Term) {
		if a.op == "scat" {
			for _, x := range a.args {
				push(x)
			}
			return
		}
		if a.op == "#str" {
			if a.lit == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "#str" {
				out[n-1] = StrLit(out[n-1].lit + a.lit)
				return
			}
		}
		out = append(out, a)
	}
	for _, a := range as {
		push(a)
	}
	switch len(out) {
	case 0:
		return StrLit("")
	case 1:
		return out[0]
	}
	return mkRaw("scat", "", SStr, out...)
}

func (t *Term) String() string {
	var b strings.Builder
	wr(&b, t, nil)
	return b.String()
}

func symq(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$-+*<>=@", c)) {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "/") + "|"
		}
	}
	return s
}
func strName(s string) string {
	var b strings.Builder
	b.WriteString("s!")
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '.' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "_%02x", c)
		}
	}
	return b.String()
}

func wr(b *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	wr1(b, t, names)
}
func wr1(b *strings.Builder, t *Term, names map[*Term]string) {
	switch t.op {
	case "#int":
		if strings.HasPrefix(t.lit, "-") {
			b.WriteString("(- " + t.lit[1:] + ")")
		} else {
			b.WriteString(t.lit)
		}
		return
	case "#str":
		b.WriteString(strName(t.lit))
		return
	case "#const", "#bv":
		b.WriteString(symq(t.lit))
		return
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			b.WriteString("(" + symq(v.lit) + " " + v.sort + ")")
		}
		b.WriteString(") ")
		var pats [][]*Term
		for _, p := range t.pats {
			bad := false
			for _, x := range p {
				if hasOp(x, "ite", map[*Term]bool{}) {
					bad = true
				}
			}
			if !bad {
				pats = append(pats, p)
			}
		}
		if len(pats) > 0 {
			b.WriteString("(! ")
		}
		wr(b, t.args[0], names)
		for _, p := range pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				wr(b, x, names)
			}
			b.WriteString(")")
		}
		if len(pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	case "constarr":
		b.WriteString("((as const " + t.sort + ") ")
		wr(b, t.args[0], names)
		b.WriteString(")")
		return
	case "scat":
		// right nested binary
		for i, a := range t.args {
			if i < len(t.args)-1 {
				b.WriteString("(scat ")
				wr(b, a, names)
				b.WriteByte(' ')
			} else {
				wr(b, a, names)
			}
		}
		b.WriteString(strings.Repeat(")", len(t.args)-1))
		return
	case "box", "unbox":
		b.WriteString("(" + symq(t.op+"!"+t.lit) + " ")
		wr(b, t.args[0], names)
		b.WriteString(")")
		return
	}
	op := t.op
	if strings.HasPrefix(op, "is-") {
		op = "(_ is " + symq(op[3:]) + ")"
	} else {
		op = symq(op)
	}
	if len(t.args) == 0 {
		b.WriteString(op)
		return
	}
	b.WriteString("(" + op)
	for _, a := range t.args {
		b.WriteByte(' ')
		wr(b, a, names)
	}
	b.WriteByte(')')
}

func hasOp(t *Term, op string, seen map[*Term]bool) bool {
	if t.op == op {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasOp(a, op, seen) {
			return true
		}
	}
	return false
}

// noSimp disables the simplification of string operations (while axioms are built).
var noSimp bool
