package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// The contract language: lexer, parser and file structure.

type Node struct {
	k    string // num str id call field index un bin quant let
	s    string
	kids []*Node
	bvs  []Binder
	pats [][]*Node
	pos  string
}
type Binder struct {
	name string
	typ  string
}

type tok struct {
	k, s string // k: id num str op eof
	line int
}

type lexer struct {
	toks []tok
	p    int
	file string
}

func lexSpec(file, src string, line int) *lexer {
	lx := &lexer{file: file}
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			lx.toks = append(lx.toks, tok{"num", src[i:j], line})
			i = j
		case isIdStart(c) || c == '?' && i+1 < len(src) && isIdStart(src[i+1]):
			j := i + 1
			for j < len(src) && (isIdStart(src[j]) || src[j] >= '0' && src[j] <= '9' || src[j] == '\'') {
				j++
			}
			lx.toks = append(lx.toks, tok{"id", src[i:j], line})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 'r':
						b.WriteByte('\r')
					case '0':
						b.WriteByte(0)
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			lx.toks = append(lx.toks, tok{"str", b.String(), line})
			i = j + 1
		default:
			op := ""
			for _, o := range []string{"<==>", "==>", "==", "!=", "<=", ">=", "&&", "||", "::", ":=", "->"} {
				if strings.HasPrefix(src[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				op = string(c)
			}
			lx.toks = append(lx.toks, tok{"op", op, line})
			i += len(op)
		}
	}
	lx.toks = append(lx.toks, tok{"eof", "", line})
	return lx
}
func isIdStart(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$'
}

func (lx *lexer) peek() tok { return lx.toks[lx.p] }
func (lx *lexer) next() tok { t := lx.toks[lx.p]; lx.p++; return t }
func (lx *lexer) is(s string) bool {
	t := lx.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (lx *lexer) accept(s string) bool {
	if lx.is(s) {
		lx.p++
		return true
	}
	return false
}
func (lx *lexer) expect(s string) {
	if !lx.accept(s) {
		lx.fail("expected " + s + ", found " + lx.peek().s)
	}
}
func (lx *lexer) fail(m string) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", lx.file, lx.peek().line, m)})
}

type specErr struct{ msg string }

func (lx *lexer) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(lx.file), lx.peek().line) }

var binPrec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (lx *lexer) expr() *Node { return lx.bin(0) }
func (lx *lexer) bin(min int) *Node {
	l := lx.unary()
	for {
		t := lx.peek()
		pr, ok := binPrec[t.s]
		if !ok || t.k == "str" || t.k == "num" || pr < min {
			return l
		}
		lx.next()
		var r *Node
		if t.s == "==>" {
			r = lx.bin(pr)
		} else {
			r = lx.bin(pr + 1)
		}
		n := &Node{k: "bin", s: t.s, kids: []*Node{l, r}, pos: lx.pos()}
		// chained comparison a <= b < c
		if pr == 5 && l.k == "bin" && binPrec[l.s] == 5 && l.s != "==" && l.s != "!=" && t.s != "==" && t.s != "!=" {
			n = &Node{k: "bin", s: "&&", kids: []*Node{l, {k: "bin", s: t.s, kids: []*Node{l.kids[1], r}, pos: lx.pos()}}, pos: lx.pos()}
		}
		l = n
	}
}
func (lx *lexer) unary() *Node {
	t := lx.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		lx.next()
		return &Node{k: "un", s: t.s, kids: []*Node{lx.unary()}, pos: lx.pos()}
	}
	return lx.postfix()
}
func (lx *lexer) typ() string {
	// type text: sequence of tokens up to , ) { :: = or keyword
	var b strings.Builder
	for {
		t := lx.peek()
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]" || t.s == "." || t.s == "/" || t.s == "-" || t.s == "<" && b.Len() == 0) {
			b.WriteString(t.s)
			lx.next()
			continue
		}
		if t.k == "id" && t.s != "in" && t.s != "by" && t.s != "zero" {
			if b.Len() > 0 {
				l := b.String()[b.Len()-1]
				if isIdStart(l) {
					return b.String()
				}
			}
			b.WriteString(t.s)
			if t.s == "chan" {
				b.WriteString(" ")
			}
			lx.next()
			continue
		}
		if t.k == "op" && t.s == "(" && b.Len() == 0 { // SMT sort in parens
			d := 0
			first := true
			for {
				t := lx.next()
				if t.k == "eof" {
					lx.fail("type")
				}
				if t.s == "(" {
					d++
					b.WriteString("(")
					first = true
					continue
				}
				if t.s == ")" {
					d--
					b.WriteString(")")
					if d == 0 {
						break
					}
					continue
				}
				if !first {
					b.WriteString(" ")
				}
				first = false
				b.WriteString(t.s)
			}
			return b.String()
		}
		return b.String()
	}
}
func (lx *lexer) postfix() *Node {
	n := lx.primary()
	for {
		switch {
		case lx.is(".") && lx.peek().k == "op":
			lx.next()
			f := lx.next()
			n = &Node{k: "field", s: f.s, kids: []*Node{n}, pos: lx.pos()}
		case lx.is("[") && lx.peek().k == "op":
			lx.next()
			i := lx.expr()
			lx.expect("]")
			n = &Node{k: "index", kids: []*Node{n, i}, pos: lx.pos()}
		case lx.is("(") && lx.peek().k == "op" && (n.k == "id" || n.k == "field"):
			lx.next()
			c := &Node{k: "call", pos: lx.pos()}
			if n.k == "id" {
				c.s = n.s
			} else {
				c.s = "." + n.s
				c.kids = append(c.kids, n.kids[0])
			}
			for !lx.accept(")") {
				c.kids = append(c.kids, lx.expr())
				if !lx.accept(",") {
					lx.expect(")")
					break
				}
			}
			n = c
		default:
			return n
		}
	}
}
func (lx *lexer) binders() []Binder {
	var bs []Binder
	for {
		nm := lx.next()
		lx.expect(":")
		ty := lx.typ()
		bs = append(bs, Binder{nm.s, ty})
		if !lx.accept(",") {
			return bs
		}
	}
}
func (lx *lexer) primary() *Node {
	t := lx.peek()
	pos := lx.pos()
	switch t.k {
	case "num":
		lx.next()
		return &Node{k: "num", s: t.s, pos: pos}
	case "str":
		lx.next()
		return &Node{k: "str", s: t.s, pos: pos}
	case "op":
		if t.s == "(" {
			lx.next()
			e := lx.expr()
			lx.expect(")")
			return e
		}
	case "id":
		switch t.s {
		case "forall", "exists":
			lx.next()
			n := &Node{k: "quant", s: t.s, pos: pos}
			n.bvs = lx.binders()
			for lx.accept("{") {
				var ps []*Node
				for {
					ps = append(ps, lx.expr())
					if !lx.accept(",") {
						break
					}
				}
				lx.expect("}")
				n.pats = append(n.pats, ps)
			}
			lx.expect("::")
			n.kids = []*Node{lx.expr()}
			return n
		case "let":
			lx.next()
			nm := lx.next()
			lx.expect("=")
			v := lx.expr()
			lx.expect("::")
			b := lx.expr()
			return &Node{k: "let", s: nm.s, kids: []*Node{v, b}, pos: pos}
		}
		lx.next()
		return &Node{k: "id", s: t.s, pos: pos}
	}
	lx.fail("unexpected " + t.s)
	return nil
}

// ---- files

type Clause struct {
	kind  string // requires ensures inv step exit modifies ghostset
	tags  []string
	label string
	expr  *Node
	vars  []Binder // template metavariables / step bindings
	on    *Node    // step: channel
	extra string
	pos   string
	locs  []*Node
}

type FuncSpec struct {
	pkg     string
	key     string // "Name" or "(*T).Name" / "T.Name"
	fullKey string
	params  []string // contract names (receiver first)
	results []string
	clauses []*Clause
	flags   map[string]bool
	props   []string
	trusted bool
	file    string
	pos     string
	line    int
	extern  bool
	variant string   // dyn: used only by functions whose contract says so
	uses    []string // the variants that calls in this function use
	locals  []Binder // local variables named in step and leave clauses
	impl    []string // dyn: the functions that are verified to satisfy it
	self    string   // the function, if the contract is that of a kind of function values
}

func (fs *FuncSpec) get(kind string) []*Clause {
	var r []*Clause
	for _, c := range fs.clauses {
		if c.kind == kind && c.relevant() {
			r = append(r, c)
		}
	}
	return r
}

type Macro struct {
	name   string
	params []Binder
	body   *Node
	pkg    string
	ret    string
}
type View struct {
	name  string
	param Binder
	sort  string
	zero  *Node
	body  *Node
	pkg   string
}
type GhostField struct {
	typ, name string
	sort      string
	isRef     bool
	goType    string
	zero      *Node
	pkg       string
}
type TypeInv struct {
	pkg    string
	params []Binder
	pats   [][]*Node
	body   *Node
	pos    string
	// alloc: what objects point to has been allocated before (it holds of
	// objects that exist, and by the semantics of the language)
	alloc bool
	conts []string // the objects that point to something
}

// splitInv separates the parts of a type invariant that speak of wm().
func splitInv(ti *TypeInv) []*TypeInv {
	var hasWm func(n *Node) bool
	hasWm = func(n *Node) bool {
		if n.k == "call" && n.s == "wm" {
			return true
		}
		for _, k := range n.kids {
			if hasWm(k) {
				return true
			}
		}
		return false
	}
	var hyps []*Node
	b := ti.body
	for b.k == "bin" && b.s == "==>" {
		hyps = append(hyps, b.kids[0])
		b = b.kids[1]
	}
	var pure, al []*Node
	var conj func(n *Node)
	conj = func(n *Node) {
		if n.k == "bin" && n.s == "&&" {
			conj(n.kids[0])
			conj(n.kids[1])
		} else if hasWm(n) {
			al = append(al, n)
		} else {
			pure = append(pure, n)
		}
	}
	conj(b)
	if len(al) == 0 {
		return []*TypeInv{ti}
	}
	mk := func(op string, ns []*Node) *Node {
		r := ns[len(ns)-1]
		for i := len(ns) - 2; i >= 0; i-- {
			r = &Node{k: "bin", s: op, kids: []*Node{ns[i], r}, pos: ti.pos}
		}
		return r
	}
	var out []*TypeInv
	if len(pure) > 0 {
		c := *ti
		c.body = mk("==>", append(append([]*Node{}, hyps...), mk("&&", pure)))
		out = append(out, &c)
	}
	for _, n := range al {
		c := *ti
		c.alloc = true
		h := append([]*Node{}, hyps...)
		for _, b := range ti.params {
			if strings.HasPrefix(b.typ, "*") && !(n.k == "bin" && n.s == "<" && n.kids[0].k == "id" && n.kids[0].s == b.name) {
				c.conts = append(c.conts, b.name)
				h = append(h, &Node{k: "bin", s: "<", pos: ti.pos, kids: []*Node{{k: "id", s: b.name, pos: ti.pos}, {k: "call", s: "wmx", pos: ti.pos}}})
			}
		}
		c.body = mk("==>", append(h, n))
		out = append(out, &c)
	}
	return out
}

// ChanInv: every value sent on a channel with this element type satisfies body.
type ChanInv struct {
	local, replies bool
	ch             string
	pkg, typ, name string
	open           bool
	body           *Node
	pos            string
}
type LemmaProof struct {
	method string // induction, direct, native
	vars   []string
	using  []string
}
type PropRoot struct {
	lemmas []string
}

type Specs struct {
	funcs      map[string]*FuncSpec // full key: pkgpath + "." + key
	order      []*FuncSpec
	macros     map[string]*Macro
	views      map[string]*View
	ghosts     map[string]*GhostField // typeKey.name
	gvars      map[string]string      // ghost variables -> sort
	typeinvs   []*TypeInv
	dyns       []*FuncSpec
	propLemmas map[string][]string
	aliases    map[string]map[string]string // pkg -> alias -> path
	chaninvs   []*ChanInv
	vf         map[string]bool
	immut      map[string]string    // fields never assigned: type.field -> function of the object
	pool       map[string][]*Clause // pkg -> loop templates for every function
}

var specs = &Specs{funcs: map[string]*FuncSpec{}, macros: map[string]*Macro{}, views: map[string]*View{}, ghosts: map[string]*GhostField{}, gvars: map[string]string{}, propLemmas: map[string][]string{}, aliases: map[string]map[string]string{}, pool: map[string][]*Clause{}, immut: map[string]string{}}

var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "inv": true, "step": true, "exit": true, "props": true, "flags": true, "ghostset": true, "onsend": true, "leave": true, "end": true, "assumes": true, "impl": true, "uses": true, "local": true, "wait": true, "oncall": true, "mark": true}
var topKw = map[string]bool{"package": true, "sort": true, "datatype": true, "fun": true, "axiom": true, "trusted": true, "lemma": true, "macro": true, "view": true, "ghost": true, "typeinv": true, "func": true, "extern": true, "dyn": true, "property": true, "import": true, "poolinv": true, "chaninv": true, "immutable": true, "aside": true}

type item struct {
	kw   string
	text string
	line int
	sub  []item
}

func splitItems(src string) []item {
	var items []item
	lines := strings.Split(src, "\n")
	var cur *item // current top or sub
	inFunc := false
	for ln, l := range lines {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") || strings.HasPrefix(t, "#") {
			if cur != nil {
				cur.text += "\n"
			}
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t("); i >= 0 {
			w = t[:i]
		}
		indented := l[0] == ' ' || l[0] == '\t'
		if !indented && topKw[w] {
			items = append(items, item{kw: w, text: t[len(w):], line: ln + 1})
			cur = &items[len(items)-1]
			inFunc = w == "func" || w == "extern" || w == "dyn"
			continue
		}
		if inFunc && indented && clauseKw[w] {
			it := &items[len(items)-1]
			it.sub = append(it.sub, item{kw: w, text: t[len(w):], line: ln + 1})
			cur = &it.sub[len(it.sub)-1]
			continue
		}
		if cur == nil {
			panic(specErr{fmt.Sprintf("line %d: stray text %q", ln+1, t)})
		}
		cur.text += "\n" + l
	}
	return items
}

func LoadSpecs(dir string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(specErr{err.Error()})
		}
		loadSpecFile(f, string(b))
	}
}

type rawAxiom struct {
	name, kind string
	n          *Node
	pkg        string
	proof      *LemmaProof
	file       string
	aside      bool
}

var rawAxioms []rawAxiom

func loadSpecFile(file, src string) {
	pkg := ""
	aside := false
	for _, it := range splitItems(src) {
		lx := lexSpec(file, it.text, it.line)
		switch it.kw {
		case "package":
			pkg = strings.TrimSpace(strings.Split(strings.TrimSpace(it.text), "\n")[0])
			if specs.aliases[pkg] == nil {
				specs.aliases[pkg] = map[string]string{}
			}
		case "aside": // what follows serves only the lemmas that follow
			aside = true
		case "import":
			f := strings.Fields(it.text)
			specs.aliases[pkg][f[0]] = f[1]
		case "sort":
			n := lx.next().s
			dtypeOrSort(n)
		case "datatype":
			parseDatatype(lx)
		case "fun":
			n := lx.next().s
			lx.expect("(")
			var as []Sort
			for !lx.accept(")") {
				as = append(as, lx.typ())
				lx.accept(",")
			}
			lx.expect(":")
			declFun(n, lx.typ(), as...)
		case "axiom", "trusted", "lemma":
			n := lx.next().s
			ra := rawAxiom{name: n, kind: map[string]string{"axiom": "def", "trusted": "trusted", "lemma": "lemma"}[it.kw], pkg: pkg, file: file, aside: aside}
			if it.kw == "lemma" {
				ra.proof = &LemmaProof{method: "direct"}
				for lx.accept("by") {
					m := lx.next().s
					switch m {
					case "induction":
						ra.proof.method = "induction"
						ra.proof.vars = append(ra.proof.vars, lx.next().s)
					case "native":
						ra.proof.method = "native"
						ra.proof.vars = append(ra.proof.vars, lx.next().s)
					default:
						lx.fail("proof method " + m)
					}
				}
			}
			lx.expect(":")
			ra.n = lx.expr()
			if lx.peek().k != "eof" {
				lx.fail("trailing " + lx.peek().s)
			}
			rawAxioms = append(rawAxioms, ra)
		case "macro":
			m := &Macro{name: lx.next().s, pkg: pkg}
			lx.expect("(")
			if !lx.accept(")") {
				m.params = lx.binders()
				lx.expect(")")
			}
			if lx.accept(":") {
				m.ret = lx.typ()
			}
			lx.expect("=")
			m.body = lx.expr()
			if lx.peek().k != "eof" {
				lx.fail("trailing " + lx.peek().s)
			}
			if o := specs.macros[m.name]; o != nil {
				lx.fail("macro " + m.name + " is defined twice")
			}
			specs.macros[m.name] = m
		case "view":
			v := &View{name: lx.next().s, pkg: pkg}
			lx.expect("(")
			v.param = lx.binders()[0]
			lx.expect(")")
			lx.expect(":")
			v.sort = lx.typ()
			if lx.accept("zero") {
				v.zero = lx.expr()
			}
			lx.expect("=")
			v.body = lx.expr()
			specs.views[v.name] = v
		case "ghost":
			k := lx.next().s
			if k == "var" {
				n := lx.next().s
				lx.expect(":")
				specs.gvars[n] = lx.typ()
			} else { // field T.name : sort [ref]
				g := &GhostField{pkg: pkg}
				ty := ""
				var parts []string
				for !lx.is(":") {
					parts = append(parts, lx.next().s)
				}
				lx.expect(":")
				g.name = parts[len(parts)-1]
				ty = strings.Join(parts[:len(parts)-2], "")
				if !strings.Contains(ty, ".") {
					ty = shortPkg(pkg) + "." + ty
				}
				g.typ = ty
				g.sort = lx.typ()
				if lx.accept("ref") {
					g.isRef = true
				}
				if lx.accept("go") {
					g.goType = lx.typ()
				}
				if lx.accept("zero") {
					g.zero = lx.expr()
				}
				specs.ghosts[ty+"."+g.name] = g
			}
		case "typeinv":
			ti := &TypeInv{pkg: pkg, pos: lx.pos()}
			lx.expect("(")
			ti.params = lx.binders()
			lx.expect(")")
			for lx.accept("{") {
				var ps []*Node
				for {
					ps = append(ps, lx.expr())
					if !lx.accept(",") {
						break
					}
				}
				lx.expect("}")
				ti.pats = append(ti.pats, ps)
			}
			lx.expect(":")
			ti.body = lx.expr()
			specs.typeinvs = append(specs.typeinvs, splitInv(ti)...)
		case "property":
			p := lx.next().s
			for lx.peek().k == "id" {
				specs.propLemmas[p] = append(specs.propLemmas[p], lx.next().s)
				lx.accept(",")
			}
		case "chaninv":
			ci := &ChanInv{pkg: pkg, pos: lx.pos()}
			if lx.accept("open") { // channels of this type are never closed
				ci.open = true
			}
			if lx.accept("local") { // only channels made and used in this package
				ci.local = true
			}
			if lx.accept("replies") { // a channel made in a function is not closed before a value was received from it
				ci.replies = true
			}
			ci.typ = lx.typ()
			lx.expect("as")
			ci.name = lx.next().s
			if lx.accept("on") {
				ci.ch = lx.next().s
			}
			lx.expect("::")
			ci.body = lx.expr()
			specs.chaninvs = append(specs.chaninvs, ci)
		case "immutable":
			// immutable T.f fun: the field f of a T never changes after the object
			// was made, and is written fun(object)
			a := lx.next().s
			lx.expect(".")
			b := lx.next().s
			specs.immut["F:"+shortPkg(pkg)+"."+a+"."+b] = lx.next().s
		case "poolinv":
			c := parseInv(lx)
			specs.pool[pkg] = append(specs.pool[pkg], c)
		case "func", "extern", "dyn":
			parseFunc(file, pkg, it, lx)
		}
	}
}

func parseInv(lx *lexer) *Clause {
	c := &Clause{kind: "inv", pos: lx.pos()}
	for lx.accept("@") {
		c.tags = append(c.tags, lx.next().s)
	}
	// (?i: int, ...) only if the paren is followed by a metavariable
	if lx.is("(") && strings.HasPrefix(lx.toks[lx.p+1].s, "?") && lx.toks[lx.p+2].s == ":" {
		lx.next()
		c.vars = lx.binders()
		lx.expect(")")
	}
	c.expr = lx.expr()
	if lx.peek().k != "eof" {
		lx.fail("trailing " + lx.peek().s)
	}
	return c
}

func parseFunc(file, pkg string, it item, lx *lexer) {
	fs := &FuncSpec{pkg: pkg, flags: map[string]bool{}, file: filepath.Base(file), line: it.line, extern: it.kw == "extern", trusted: it.kw == "extern" || it.kw == "dyn"}
	recv := ""
	if lx.accept("(") { // receiver
		nm := lx.next().s
		recv = lx.typ()
		if recv == "" { // unnamed receiver
			recv = nm
			nm = "recv"
		}
		lx.expect(")")
		fs.params = append(fs.params, nm)
	}
	name := ""
	if it.kw == "dyn" {
		name = lx.next().s // a type name or a signature in quotes
		if lx.accept("as") {
			fs.variant = lx.next().s
		}
	} else {
		name = lx.next().s
		for lx.accept(".") || lx.accept("/") {
			name += "." + lx.next().s
		}
	}
	lx.expect("(")
	for !lx.accept(")") {
		fs.params = append(fs.params, lx.next().s)
		lx.accept(",")
	}
	if lx.accept("(") {
		for !lx.accept(")") {
			fs.results = append(fs.results, lx.next().s)
			lx.accept(",")
		}
	}
	fs.key = name
	if recv != "" {
		fs.key = "(" + recv + ")." + name
	}
	fs.fullKey = pkg + "." + fs.key
	fs.pos = fmt.Sprintf("%s:%d", fs.file, it.line)
	n := 0
	for _, s := range it.sub {
		sl := lexSpec(file, s.text, s.line)
		switch s.kw {
		case "props":
			for _, f := range strings.Fields(s.text) {
				fs.props = append(fs.props, f)
			}
		case "flags":
			for _, f := range strings.Fields(s.text) {
				fs.flags[f] = true
			}
		case "local":
			// local m: T -- the variable of type T at the outermost loop
			nm := sl.next().s
			sl.expect(":")
			fs.locals = append(fs.locals, Binder{name: nm, typ: sl.typ()})
			continue
		case "uses":
			fs.uses = append(fs.uses, strings.Fields(s.text)...)
		case "impl":
			fs.impl = append(fs.impl, strings.Fields(s.text)...)
		case "inv":
			fs.clauses = append(fs.clauses, parseInv(sl))
		case "modifies":
			c := &Clause{kind: "modifies", pos: sl.pos()}
			for {
				c.locs = append(c.locs, sl.expr())
				if !sl.accept(",") {
					break
				}
			}
			fs.clauses = append(fs.clauses, c)
		default:
			c := &Clause{kind: s.kw, pos: sl.pos()}
			for sl.accept("@") {
				t := sl.next().s
				if len(t) >= 3 && t[0] == 'C' && t[1] >= '0' && t[1] <= '9' {
					c.tags = append(c.tags, t)
				} else {
					c.label = t
				}
			}
			if s.kw == "wait" {
				sl.expect("::")
			}
			if s.kw == "oncall" {
				// oncall "pkg.Func" :: what holds when Func is called
				c.extra = sl.next().s
				sl.expect("::")
			}
			if s.kw == "mark" {
				// mark call "pkg.Func" | mark wait | mark send CH as v  :: g = e: a ghost assignment after that
				ek := sl.next().s
				switch ek {
				case "wait":
				case "call":
					ek += " " + sl.next().s
				case "send":
					c.on = sl.expr()
					if sl.accept("as") {
						c.vars = append(c.vars, Binder{name: sl.next().s})
					}
				default:
					sl.fail("mark what?")
				}
				sl.expect("::")
				c.label = sl.next().s
				if _, ok := specs.gvars[c.label]; !ok {
					sl.fail("no ghost variable " + c.label)
				}
				c.extra = ek
				sl.expect("=")
			}
			if s.kw == "step" || s.kw == "exit" || s.kw == "leave" || s.kw == "end" || s.kw == "onsend" {
				if sl.accept("on") {
					c.on = sl.expr()
					if sl.accept("as") {
						for {
							c.vars = append(c.vars, Binder{name: sl.next().s})
							if !sl.accept(",") {
								break
							}
						}
					}
				}
				sl.expect("::")
			}
			if s.kw == "ghostset" {
				// ghostset [entry] v = e: a ghost assignment at entry or at exit
				if sl.is("entry") {
					sl.next()
					c.extra = "entry "
				}
				v := sl.next().s
				if _, ok := specs.gvars[v]; !ok {
					sl.fail("no ghost variable " + v)
				}
				c.extra += v
				sl.expect("=")
			}
			c.expr = sl.expr()
			n++
			if c.label == "" {
				c.label = fmt.Sprintf("%s%d", s.kw, n)
			}
			fs.clauses = append(fs.clauses, c)
		}
		if s.kw != "props" && s.kw != "flags" && s.kw != "impl" && s.kw != "uses" && s.kw != "inv" && sl.peek().k != "eof" {
			sl.fail("trailing " + sl.peek().s)
		}
	}
	if it.kw == "dyn" {
		specs.dyns = append(specs.dyns, fs)
		for _, k := range fs.impl {
			g := *fs
			g.key, g.fullKey, g.trusted = k, pkg+"."+k, false
			g.self = "fn!" + g.fullKey
			if fs.variant == "" {
				if _, dup := specs.funcs[g.fullKey]; dup {
					panic(specErr{fs.pos + ": duplicate contract for " + g.fullKey})
				}
				specs.funcs[g.fullKey] = &g
			}
			specs.order = append(specs.order, &g)
		}
		return
	}
	if _, dup := specs.funcs[fs.fullKey]; dup {
		panic(specErr{fs.pos + ": duplicate contract for " + fs.fullKey})
	}
	specs.funcs[fs.fullKey] = fs
	specs.order = append(specs.order, fs)
}

func dtypeOrSort(n string) { sortIsUninterp[n] = true }

func parseDatatype(lx *lexer) {
	n := lx.next().s
	lx.expect("=")
	var cs []string
	for {
		c := lx.next().s
		var sels []string
		var fl []string
		var as []Sort
		if lx.accept("(") {
			for !lx.accept(")") {
				f := lx.next().s
				lx.expect(":")
				s := lx.typ()
				sels = append(sels, f)
				as = append(as, s)
				fl = append(fl, "("+f+" "+s+")")
				declFun(f, s, n)
				lx.accept(",")
			}
		}
		declFun(c, n, as...)
		DeclCtor(c, n, sels...)
		if len(fl) == 0 {
			cs = append(cs, "("+c+")")
		} else {
			cs = append(cs, "("+c+" "+strings.Join(fl, " ")+")")
		}
		if !lx.accept("|") {
			break
		}
	}
	declDatatype(n, "(declare-datatypes (("+n+" 0)) (("+strings.Join(cs, " ")+")))")
}

func declDatatype(n, raw string) {
	if _, ok := dtypeSorts[n]; ok {
		return
	}
	lockDecl()
	defer unlockDecl()
	dtypeSorts[n] = len(dtypes)
	dtypes = append(dtypes, raw)
}
