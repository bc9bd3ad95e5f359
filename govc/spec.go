package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- contract files

type Clause struct {
	text string
	e    ast.Expr
	line string
}

type typedVar struct{ name, typ string }

type LoopSpec struct {
	vars    []typedVar
	invs    []Clause
	defs    []Clause // location == sequence
	ranks   []ast.Expr
	when    []ast.Expr // cut points: the iterations at which the clauses hold
	every   bool
	assumes []Clause  // assumed, unproved, at the start of every iteration; reported as such
	given   []Clause  // the hypothesis of a step behaviour about the state at the start of the iteration
	each    []Clause  // two-state clauses: what one iteration does (old: at its start)
	entry   []Clause  // what holds when the loop is entered
	wit     []witness // existential loop variables with their witnesses
	name    string
	outer   bool // only loops that are not nested in another one
}

// witness: an integer the loop clauses are existential in; init and step are
// the values for which they are shown to hold on entry and at the back edge.
type witness struct {
	name       string
	init, step ast.Expr
}

type Returns struct {
	name string
	opts []ast.Expr
	text []string
}

type Behavior struct {
	c           *Contract
	name        string
	mode        string
	ghosts      []typedVar
	matches     []Clause
	requires    []Clause
	ensures     []Clause
	modifies    []Clause
	returns     []Returns
	decr        ast.Expr
	loops       []*LoopSpec
	trusted     string // reason; not verified against the body
	defines     string // sequence symbol whose meaning is what this function appends
	lemma       string // justified by the verification of this ghost client
	uses        []string
	inline      []string
	known       map[string]bool
	partial     bool // no termination obligation
	nilable     map[string]bool
	explicit    bool // only used when a caller names it
	step        bool // speaks of one iteration of a loop (given), not of the whole call: never used at calls
	freshSlices bool
	alloc       ast.Expr
	trackStack  bool
	smallCRC    bool
	evOnce      sync.Once
	nzOnce      sync.Once
	localOnce   sync.Once
	locals      map[string]bool
	nz          bool
	cutLoops    bool // no unrolling
	unroll      int  // a loop without clauses is followed for so many iterations before it is cut
	ev          bool // the contract speaks of events
	emits       int  // bound on the calls of user functions a call may make (-1: none declared, -2: any number)
	props       []string
}

func (b *Behavior) id() string { return b.c.fn + "/" + b.name }

type Contract struct {
	fn      string
	params  []string
	results []string
	behs    []*Behavior
	file    string
	strict  bool // never inlined
}

type Invariant struct {
	field string // pkg.Type.field
	e     ast.Expr
	text  string
}

type Specs struct {
	con    map[string]*Contract
	inv    map[string][]Invariant
	mapInv map[string]Invariant
	macros map[string]*macro
	files  []string
	lemmas map[string]*Lemma
}

type macro struct {
	params []string
	body   ast.Expr
}

type Lemma struct {
	name string
	beh  *Behavior
}

func parseExpr(s, where string) ast.Expr {
	e, err := parser.ParseExpr(s)
	if err != nil {
		fatal("%s: %v in %q", where, err, s)
	}
	return e
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func parseVars(s string) []typedVar {
	var out []typedVar
	for _, x := range splitNames(s) {
		f := strings.Fields(x)
		if len(f) < 2 {
			fatal("bad variable declaration %q", x)
		}
		out = append(out, typedVar{f[0], strings.Join(f[1:], " ")})
	}
	return out
}

// LoadSpecs reads /verif/specs/*.spec
func LoadSpecs(dir string) *Specs {
	S := &Specs{con: map[string]*Contract{}, inv: map[string][]Invariant{}, mapInv: map[string]Invariant{}, macros: map[string]*macro{}, lemmas: map[string]*Lemma{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		S.files = append(S.files, f)
		S.parse(filepath.Base(f), string(b))
	}
	return S
}

func (S *Specs) parse(file, text string) {
	var con *Contract
	var beh *Behavior
	var loop *LoopSpec
	lines := strings.Split(text, "\n")
	for n := 0; n < len(lines); n++ {
		where := fmt.Sprintf("%s:%d", file, n+1)
		l := lines[n]
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		l = strings.TrimSpace(l)
		for strings.HasSuffix(l, "\\") && n+1 < len(lines) {
			n++
			x := lines[n]
			if i := strings.Index(x, "//"); i >= 0 {
				x = x[:i]
			}
			l = strings.TrimSuffix(l, "\\") + " " + strings.TrimSpace(x)
		}
		if l == "" {
			continue
		}
		kw, rest := l, ""
		if i := strings.IndexAny(l, " \t"); i >= 0 {
			kw, rest = l[:i], strings.TrimSpace(l[i:])
		}
		cl := func() Clause { return Clause{rest, parseExpr(rest, where), where} }
		switch kw {
		case "spec": // spec asn1.(*ASNWriter).WriteInt (w, i) (err)
			i := strings.LastIndex(rest, ") (")
			con = &Contract{file: file}
			res := ""
			head := rest
			if i >= 0 {
				res = strings.Trim(rest[i+2:], "()")
				head = rest[:i+1]
			}
			j := strings.LastIndex(head, "(")
			con.fn = strings.TrimSpace(head[:j])
			con.params = splitNames(strings.Trim(head[j:], "()"))
			con.results = splitNames(res)
			if old := S.con[con.fn]; old != nil {
				con = old
			}
			S.con[con.fn] = con
			beh, loop = nil, nil
		case "behavior", "client":
			beh = &Behavior{c: con, name: rest, mode: "int", emits: -1, known: map[string]bool{}, nilable: map[string]bool{}}
			con.behs = append(con.behs, beh)
			loop = nil
		case "mode":
			beh.mode = rest
		case "explicit":
			beh.explicit = true
		case "prop":
			beh.props = append(beh.props, strings.Fields(rest)...)
		case "emits":
			if rest == "*" { // any number of events
				beh.emits = -2
				break
			}
			n, err := strconv.Atoi(rest)
			if err != nil {
				panic(where + ": emits")
			}
			beh.emits = n
			beh.ensures = append(beh.ensures, Clause{fmt.Sprintf("events() <= %d", n), parseExpr(fmt.Sprintf("events() <= %d", n), where), where})
		case "smallcrc":
			beh.smallCRC = true
		case "trackstack":
			beh.trackStack = true
		case "cutloops":
			beh.cutLoops = true
		case "unroll":
			beh.unroll, _ = strconv.Atoi(rest)
		case "strict":
			con.strict = true
		case "nilable":
			for _, x := range splitNames(rest) {
				beh.nilable[x] = true
			}
		case "alloc":
			beh.alloc = parseExpr(rest, where)
		case "partial":
			beh.partial = true
		case "trusted":
			beh.trusted = rest
			if rest == "" {
				beh.trusted = "assumed"
			}
		case "lemma":
			beh.lemma = rest
		case "defines":
			beh.defines = rest
		case "ghost":
			beh.ghosts = append(beh.ghosts, parseVars(rest)...)
		case "match":
			beh.matches = append(beh.matches, cl())
		case "requires":
			beh.requires = append(beh.requires, cl())
		case "ensures":
			beh.ensures = append(beh.ensures, cl())
		case "modifies":
			for _, x := range splitTop(rest) {
				beh.modifies = append(beh.modifies, Clause{x, parseExpr(x, where), where})
			}
		case "returns":
			f := strings.SplitN(rest, " ", 2)
			rt := Returns{name: f[0]}
			for _, o := range strings.Split(f[1], "|") {
				o = strings.TrimSpace(o)
				rt.text = append(rt.text, o)
				rt.opts = append(rt.opts, parseExpr(o, where))
			}
			beh.returns = append(beh.returns, rt)
		case "decreases":
			beh.decr = parseExpr(rest, where)
		case "inline":
			beh.inline = append(beh.inline, splitNames(rest)...)
		case "uses":
			beh.uses = append(beh.uses, splitNames(rest)...)
		case "loop":
			loop = &LoopSpec{name: where}
			if rest == "outer" || strings.HasPrefix(rest, "outer ") {
				loop.outer = true
				rest = strings.TrimSpace(strings.TrimPrefix(rest, "outer"))
			}
			if rest == "every" { // what follows holds for each loop, not for one of them
				loop.every = true
			}
			if strings.HasPrefix(rest, "vars ") {
				loop.vars = parseVars(strings.TrimPrefix(rest, "vars "))
			}
			beh.loops = append(beh.loops, loop)
		case "inv":
			loop.invs = append(loop.invs, cl())
		case "def":
			loop.defs = append(loop.defs, cl())
		case "witness": // witness k = INIT ; STEP
			i := strings.Index(rest, "=")
			j := strings.Index(rest, ";")
			loop.wit = append(loop.wit, witness{strings.TrimSpace(rest[:i]), parseExpr(strings.TrimSpace(rest[i+1:j]), where), parseExpr(strings.TrimSpace(rest[j+1:]), where)})
		case "given":
			loop.given = append(loop.given, cl())
			beh.step = true
		case "assume":
			loop.assumes = append(loop.assumes, cl())
		case "each":
			loop.each = append(loop.each, cl())
		case "entry":
			loop.entry = append(loop.entry, cl())
		case "cutwhen":
			loop.when = append(loop.when, parseExpr(rest, where))
		case "rank":
			loop.ranks = append(loop.ranks, parseExpr(rest, where))
		case "invariant": // invariant pkg.Type.field: expr over v
			i := strings.Index(rest, ":")
			f := strings.TrimSpace(rest[:i])
			e := strings.TrimSpace(rest[i+1:])
			S.inv[f] = append(S.inv[f], Invariant{f, parseExpr(e, where), e})
		case "mapinvariant":
			i := strings.LastIndex(rest, ":")
			f := strings.TrimSpace(rest[:i])
			e := strings.TrimSpace(rest[i+1:])
			S.mapInv[f] = Invariant{f, parseExpr(e, where), e}
		case "define": // define NAME(a,b) = expr
			i := strings.Index(rest, "=")
			h := strings.TrimSpace(rest[:i])
			j := strings.Index(h, "(")
			S.macros[h[:j]] = &macro{splitNames(strings.Trim(h[j:], "()")), parseExpr(strings.TrimSpace(rest[i+1:]), where)}
		default:
			fatal("%s: unknown clause %q", where, kw)
		}
	}
}

// splitTop splits at commas outside parentheses.
func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, ch := range s {
		switch ch {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ---- evaluation of specification expressions

type sv struct {
	v Val
	t types.Type
}

type Env struct {
	call2     *callRec
	r         *Run
	vars      map[string]sv
	old       map[string]*field
	set       func(name string, v Val) // assignment to a result
	unset     map[string]bool          // results without a value so far
	lens      map[string]*Term
	later     *[]lateTerm // lengths to compare at the end of a match
	inMatch   bool
	allocBase int
	head      map[string]*field // the heap at the head of the loop (steps of witnesses)
	loop      *cutState         // the loop whose iteration a clause describes
	next      map[string]sv     // values of the loop variables after the iteration
}

var seqT types.Type = seqByteT
var intT = types.Typ[types.Int]
var boolT = types.Typ[types.Bool]

func (e *Env) fail(x ast.Expr, msg string) {
	panic(unsupported{fmt.Sprintf("specification %s: %s", exprStr(x), msg)})
}

func exprStr(x ast.Expr) string {
	return types.ExprString(x)
}

func (e *Env) inOld(f func() sv) sv {
	r := e.r
	save := r.heap
	if e.old != nil {
		r.heap = e.old
	}
	defer func() { r.heap = save }()
	return f()
}

func (e *Env) term(x ast.Expr) *Term {
	v := e.eval(x)
	t, ok := v.v.(*Term)
	if !ok {
		e.fail(x, fmt.Sprintf("is a %T, not a term", v.v))
	}
	return t
}

func (e *Env) intTerm(x ast.Expr) *Term {
	t := e.term(x)
	if t.sort > 0 {
		return e.r.c.BV2Int(t, false)
	}
	return t
}

func (e *Env) seq(x ast.Expr) *Seq {
	v := e.eval(x)
	switch s := v.v.(type) {
	case *Seq:
		return s
	case SliceV:
		return e.r.content(s, sliceElem(v.t), "")
	}
	e.fail(x, fmt.Sprintf("is a %T, not a sequence", v.v))
	return nil
}

func (e *Env) eval(x ast.Expr) sv {
	r := e.r
	c := r.c
	r.spec++
	defer func() { r.spec-- }()
	switch x := x.(type) {
	case *ast.ParenExpr:
		return e.eval(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT {
			b, _ := new(big.Int).SetString(x.Value, 0)
			return sv{c.Big(b), intT}
		}
		if x.Kind == token.STRING {
			return sv{r.strConst(strings.Trim(x.Value, "\"")), types.Typ[types.String]}
		}
	case *ast.Ident:
		switch x.Name {
		case "true":
			return sv{c.T, boolT}
		case "false":
			return sv{c.F, boolT}
		case "nil":
			return sv{nil, types.Typ[types.UntypedNil]}
		}
		if v, ok := e.vars[x.Name]; ok {
			return v
		}
		if g := r.t.P.globalOf(x.Name); g != nil {
			t := g.Type().(*types.Pointer).Elem()
			return sv{r.load(r.global(g), t), t}
		}
		e.fail(x, "unknown name")
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, bound := e.vars[id.Name]; !bound {
				if g := r.t.P.globalOf(id.Name + "." + x.Sel.Name); g != nil {
					t := g.Type().(*types.Pointer).Elem()
					return sv{r.load(r.global(g), t), t}
				}
				if k := r.t.P.constOf(id.Name + "." + x.Sel.Name); k != nil {
					return sv{c.Big(k), intT}
				}
			}
		}
		b := e.eval(x.X)
		return e.field(b, x.Sel.Name, x)
	case *ast.IndexExpr:
		b := e.eval(x.X)
		switch u := b.t.Underlying().(type) {
		case *types.Map:
			k := e.eval(x.Index)
			v := r.mapGet(u, b.v.(*Term), k.v)
			if has := r.mapHas(u, b.v.(*Term), k.v); !has.IsTrue() {
				// the value of a key that is not there is zero
				if t, ok := v.(*Term); ok {
					v = c.Ite(has, t, r.zero(u.Elem()).(*Term))
				} else if x, ok := v.(IfaceV); ok {
					v = IfaceV{c.Ite(has, x.tag, c.Zero), x.val}
				}
			}
			return sv{v, u.Elem()}
		case *types.Slice:
			s := b.v.(SliceV)
			return sv{r.loadElem(s.ref, u.Elem(), c.Add(s.off, e.intTerm(x.Index))), u.Elem()}
		case *types.Array:
			switch v := b.v.(type) {
			case *Term: // embedded array
				return sv{r.loadElem(v, u.Elem(), e.intTerm(x.Index)), u.Elem()}
			case ArrV:
				k, ok := e.intTerm(x.Index).Int64()
				if !ok {
					e.fail(x, "symbolic array index")
				}
				return sv{v.e[k], u.Elem()}
			}
		case *types.Pointer:
			if a, ok := isArray(u.Elem()); ok {
				ref := b.v.(*Term)
				if isStruct(a.Elem()) {
					return sv{r.elemRef(a.Elem(), ref, e.intTerm(x.Index)), types.NewPointer(a.Elem())}
				}
				return sv{r.loadElem(ref, a.Elem(), e.intTerm(x.Index)), a.Elem()}
			}
		}
		e.fail(x, "cannot index")
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return sv{c.Not(e.term(x.X)), boolT}
		case token.SUB:
			return sv{c.Sub(c.Zero, e.intTerm(x.X)), intT}
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			return sv{c.And(e.term(x.X), e.term(x.Y)), boolT}
		case token.LOR:
			return sv{c.Or(e.term(x.X), e.term(x.Y)), boolT}
		case token.ADD:
			return sv{c.Add(e.intTerm(x.X), e.intTerm(x.Y)), intT}
		case token.SUB:
			return sv{c.Sub(e.intTerm(x.X), e.intTerm(x.Y)), intT}
		case token.MUL:
			return sv{c.Mul(e.intTerm(x.X), e.intTerm(x.Y)), intT}
		case token.LSS:
			return sv{c.Lt(e.intTerm(x.X), e.intTerm(x.Y)), boolT}
		case token.LEQ:
			return sv{c.Le(e.intTerm(x.X), e.intTerm(x.Y)), boolT}
		case token.GTR:
			return sv{c.Lt(e.intTerm(x.Y), e.intTerm(x.X)), boolT}
		case token.GEQ:
			return sv{c.Le(e.intTerm(x.Y), e.intTerm(x.X)), boolT}
		case token.EQL:
			return sv{e.equal(x.X, x.Y), boolT}
		case token.NEQ:
			return sv{c.Not(e.equal(x.X, x.Y)), boolT}
		}
	case *ast.CallExpr:
		return e.call(x)
	}
	e.fail(x, "not supported")
	return sv{}
}

func (e *Env) equal(xx, yy ast.Expr) *Term {
	r, c := e.r, e.r.c
	a, b := e.eval(xx), e.eval(yy)
	if a.v == nil {
		a, b = b, a
	}
	if b.v == nil {
		switch v := a.v.(type) {
		case *Term:
			return r.refEq(v, c.Zero)
		case SliceV:
			return v.isnil
		case IfaceV:
			return c.Eq(v.tag, c.Zero)
		case FuncV:
			if v.sym == nil {
				return c.F
			}
			return c.Eq(v.sym, c.Zero)
		case AddrV:
			return c.F
		}
		e.fail(xx, "comparison with nil")
	}
	ta, ok1 := a.v.(*Term)
	tb, ok2 := b.v.(*Term)
	if ok1 && ok2 && ta.sort != tb.sort {
		if ta.sort > 0 {
			ta = c.BV2Int(ta, false)
		}
		if tb.sort > 0 {
			tb = c.BV2Int(tb, false)
		}
		return c.Eq(ta, tb)
	}
	if ok1 && ok2 {
		if isRefType(a.t) {
			return r.refEq(ta, tb)
		}
		return c.Eq(ta, tb)
	}
	if sa, ok := a.v.(*Seq); ok {
		if sb, ok := b.v.(*Seq); ok {
			return r.equal(sa, sb, nil)
		}
	}
	if sa, ok := a.v.(SliceV); ok {
		if sb, ok := b.v.(SliceV); ok { // same slice value
			// (nil has no identity)
			return c.Or(c.And(sa.isnil, sb.isnil), c.And(r.refEq(sa.ref, sb.ref), c.Eq(sa.off, sb.off), c.Eq(sa.len, sb.len), c.Eq(sa.isnil, sb.isnil)))
		}
	}
	return r.equal(a.v, b.v, a.t)
}

func (e *Env) field(b sv, name string, x ast.Expr) sv {
	r := e.r
	if sl, ok := b.v.(StructV); ok {
		for i, f := range structFields(b.t) {
			if f.name == name {
				return sv{sl.f[i], f.typ}
			}
		}
	}
	pt, ok := b.t.Underlying().(*types.Pointer)
	if !ok {
		e.fail(x, "selector on "+b.t.String())
	}
	p, ok := b.v.(*Term)
	if !ok {
		e.fail(x, fmt.Sprintf("selector on %T", b.v))
	}
	owner := pt.Elem()
	for _, f := range structFields(owner) {
		if f.name != name {
			continue
		}
		_, arr := isArray(f.typ)
		if !f.seq && (isStruct(f.typ) || arr) {
			return sv{r.emb(owner, f.name, p), types.NewPointer(f.typ)}
		}
		return sv{r.loadField(p, owner, f), f.typ}
	}
	e.fail(x, "no field "+name)
	return sv{}
}

// bufRef: the bytes.Buffer behind a writer or buffer pointer
func (e *Env) bufRef(x ast.Expr) *Term {
	v := e.eval(x)
	p, ok := v.v.(*Term)
	if !ok {
		e.fail(x, "not a pointer")
	}
	el := v.t.Underlying().(*types.Pointer).Elem()
	if typeName(el) == "bytes.Buffer" {
		return p
	}
	for _, f := range structFields(el) {
		if typeName(f.typ) == "bytes.Buffer" {
			return e.r.emb(el, f.name, p)
		}
	}
	e.fail(x, "no buffer")
	return nil
}

// rdrRef: the bytes.Reader behind a reader pointer
func (e *Env) rdrRef(x ast.Expr) *Term {
	v := e.eval(x)
	p, ok := v.v.(*Term)
	if !ok {
		e.fail(x, "not a pointer")
	}
	el := v.t.Underlying().(*types.Pointer).Elem()
	if typeName(el) == "bytes.Reader" {
		return p
	}
	for _, f := range structFields(el) {
		if pt, ok := f.typ.Underlying().(*types.Pointer); ok && typeName(pt.Elem()) == "bytes.Reader" {
			return e.r.loadField(p, el, f).(*Term)
		}
	}
	e.fail(x, "no reader")
	return nil
}

func (e *Env) call(x *ast.CallExpr) sv {
	r, c := e.r, e.r.c
	name := exprStr(x.Fun)
	arg := func(i int) ast.Expr { return x.Args[i] }
	if m := r.t.E.S.macros[name]; m != nil {
		if len(m.params) != len(x.Args) {
			e.fail(x, "macro arguments")
		}
		e2 := *e
		e2.vars = map[string]sv{}
		for k, v := range e.vars {
			e2.vars[k] = v
		}
		for i, p := range m.params {
			e2.vars[p] = e.eval(arg(i))
		}
		return e2.eval(m.body)
	}
	switch name {
	case "old":
		return e.inOld(func() sv { return e.eval(arg(0)) })
	case "head":
		if e.head == nil {
			e.fail(x, "head outside a witness step")
		}
		save := r.heap
		r.heap = e.head
		v := e.eval(arg(0))
		r.heap = save
		return v
	case "next":
		if v, ok := e.next[exprStr(arg(0))]; ok {
			return v
		}
		e.fail(x, "no next value")
	case "buf":
		return sv{r.read("bytes.Buffer.$buf", seqByteT, e.bufRef(arg(0))), seqT}
	case "rest":
		return sv{r.readerRest(e.rdrRef(arg(0))), seqT}
	case "pre":
		return sv{r.readerPre(e.rdrRef(arg(0))), seqT}
	case "content":
		v := e.eval(arg(0))
		switch s := v.v.(type) {
		case SliceV:
			comp := ""
			if len(x.Args) > 1 {
				comp = strings.Trim(exprStr(arg(1)), "\"")
			}
			return sv{r.content(s, sliceElem(v.t), comp), seqT}
		case *Seq:
			return v
		}
	case "len":
		v := e.eval(arg(0))
		switch s := v.v.(type) {
		case SliceV:
			return sv{s.len, intT}
		case *Seq:
			return sv{c.SeqLen(s), intT}
		case *Term:
			if mt, ok := v.t.Underlying().(*types.Map); ok {
				return sv{r.mapLen(mt, s), intT}
			}
		}
	case "has":
		m := e.eval(arg(0))
		k := e.eval(arg(1))
		return sv{r.mapHas(m.t.Underlying().(*types.Map), m.v.(*Term), k.v), boolT}
	case "cat":
		var ss []*Seq
		for i := range x.Args {
			ss = append(ss, e.seq(arg(i)))
		}
		return sv{c.Cat(ss...), seqT}
	case "unit":
		out := &Seq{}
		for i := range x.Args {
			t := e.term(arg(i))
			if t.sort == SInt && r.isBV(byteT) {
				t = c.Int2BV(t, 8)
			}
			out = c.Cat(out, c.unit(t))
		}
		return sv{out, seqT}
	case "refs": // a sequence of references
		out := &Seq{}
		for i := range x.Args {
			out = c.Cat(out, c.unit(e.term(arg(i))))
		}
		return sv{out, seqT}
	case "empty":
		return sv{emptySeq, seqT}
	case "zeros":
		return sv{c.rep(c.Zero, e.intTerm(arg(0))), seqT}
	case "take":
		return sv{r.take(e.seq(arg(0)), e.intTerm(arg(1))), seqT}
	case "drop":
		return sv{r.drop(e.seq(arg(0)), e.intTerm(arg(1))), seqT}
	case "nz": // number of octets that are not zero
		return sv{r.nonZero(e.seq(arg(0))), intT}
	case "at":
		return sv{r.seqAt(e.seq(arg(0)), e.intTerm(arg(1))), intT}
	case "mod", "div":
		k := e.intTerm(arg(1))
		if name == "mod" {
			return sv{c.Mod(e.intTerm(arg(0)), k.num), intT}
		}
		return sv{c.Div(e.intTerm(arg(0)), k.num), intT}
	case "ite":
		a := e.eval(arg(1))
		b := e.eval(arg(2))
		cond := e.term(arg(0))
		if len(r.bound) == 0 {
			switch r.known(cond) {
			case 1:
				cond = c.T
			case -1:
				cond = c.F
			}
		}
		if _, ok := a.v.(*Term); ok {
			if a.v.(*Term).sort == SInt && !isRefType(a.t) && b.v != nil && isRefType(b.t) {
				a.t = b.t
			}
			if b.v == nil {
				b.v = c.Zero
			}
			return sv{c.Ite(cond, a.v.(*Term), b.v.(*Term)), a.t}
		}
		if r.decide(cond) {
			return a
		}
		return b
	case "imp":
		a := e.term(arg(0))
		if a.IsFalse() {
			return sv{c.T, boolT}
		}
		return sv{c.Imp(a, e.term(arg(1))), boolT}
	case "iff":
		a, b := e.term(arg(0)), e.term(arg(1))
		return sv{c.And(c.Imp(a, b), c.Imp(b, a)), boolT}
	case "isnil":
		return sv{e.equal(arg(0), ast.NewIdent("nil")), boolT}
	case "istype":
		v := e.eval(arg(0)).v.(IfaceV)
		tn := strings.Trim(exprStr(arg(1)), "\"")
		t := r.t.P.typeNamed(tn)
		if t == nil {
			e.fail(x, "no type "+tn)
		}
		return sv{c.Eq(v.tag, r.tagOf(t)), boolT}
	case "implements": // a non-nil value of a type of the module that implements the interface
		v := e.eval(arg(0)).v.(IfaceV)
		tn := strings.Trim(exprStr(arg(1)), "\"")
		t := r.t.P.typeNamed(tn)
		if t == nil {
			e.fail(x, "no type "+tn)
		}
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			e.fail(x, tn+" is no interface")
		}
		if k, isc := v.tag.Int64(); isc {
			return sv{c.Bool(k != 0 && types.Implements(r.t.E.tagT[k], it)), boolT}
		}
		g := c.F
		for _, t := range r.t.P.implementers(it) {
			g = c.Or(g, c.Eq(v.tag, r.tagOf(t)))
		}
		return sv{g, boolT}
	case "reptags": // n interface values of one dynamic type
		t := r.t.P.typeNamed(strings.Trim(exprStr(arg(0)), "\""))
		if t == nil {
			e.fail(x, "no such type")
		}
		return sv{c.rep(r.tagOf(t), e.intTerm(arg(1))), seqT}
	case "as":
		v := e.eval(arg(0)).v.(IfaceV)
		tn := strings.Trim(exprStr(arg(1)), "\"")
		t := r.t.P.typeNamed(tn)
		if t == nil {
			e.fail(x, "no type "+tn)
		}
		return sv{r.unbox(v, t), t}
	case "isfresh":
		base := r.oldAlloc
		if e.allocBase > 0 {
			base = e.allocBase
		}
		return sv{c.Lt(c.Int(int64(freshBase+base)), baseRef(e.term(arg(0)))), boolT}
	case "ref":
		if s, ok := e.eval(arg(0)).v.(SliceV); ok {
			return sv{s.ref, types.NewPointer(intT)}
		}
	case "sval": // two's complement value of a short byte sequence
		return sv{r.svalSeq(e.seq(arg(0))), intT}
	case "float":
		b, _ := new(big.Int).SetString(exprStr(arg(0)), 0)
		return sv{c.BVc(b, 64), types.Typ[types.Float64]}
	case "feq":
		return sv{r.fEq(e.term(arg(0)), e.term(arg(1))), boolT}
	case "fnan":
		return sv{r.fNaN(e.term(arg(0))), boolT}
	case "int":
		return sv{e.intTerm(arg(0)), intT}
	case "devents": // events other than those of calls used through their contract
		n := 0
		for _, ev := range r.events[r.entryEvents:] {
			if ev.kind != "*" {
				n++
			}
		}
		return sv{c.Int(int64(n)), intT}
	case "eqv": // same Go value (any type)
		a, b := e.eval(arg(0)), e.eval(arg(1))
		return sv{r.same(a.v, b.v, a.t), boolT}
	case "events", "event", "eventarg", "called":
		for _, ev := range r.events[r.entryEvents:] {
			if ev.kind == "*" {
				e.fail(x, "the number of events before is unknown")
			}
		}
	}
	switch name {
	case "ncalls":
		return sv{c.Int(int64(len(e.callsOf(x, exprStr(arg(0)))))), intT}
	case "cpre", "cpost": // cpre("F", i, EXPR): the term in the state before the i'th call of F (after it); -1: the last
		var k callRec
		if i, isC := e.intTerm(arg(1)).Int64(); isC && i >= 0 {
			ks := e.callsOf(x, exprStr(arg(0)))
			if int(i) >= len(ks) {
				e.fail(x, "no such call")
			}
			k = ks[i]
		} else {
			ks := e.lastCalls(x, exprStr(arg(0)))
			if len(ks) == 0 {
				e.fail(x, "no such call")
			}
			k = ks[0]
		}
		save := r.heap
		defer func() { r.heap = save }()
		r.heap = k.pre
		if name == "cpost" {
			r.heap = k.post
		}
		e2 := *e
		e2.call2 = &k
		return e2.eval(arg(2))
	case "arg": // in cpre, cpost: a parameter of the call
		if e.call2 != nil {
			if v, ok := e.call2.args[exprStr(arg(0))]; ok {
				return v
			}
		}
		e.fail(x, "no such parameter")
	case "lapp": // what the last call of F appended
		ks := e.lastCalls(x, exprStr(arg(0)))
		if len(ks) == 0 {
			e.fail(x, "no call")
		}
		return sv{e.appended(x, ks[0]), seqT}
	case "seencall": // a call of F since the last loop head that stands for earlier iterations with such calls
		return sv{c.Bool(e.seenCall(strings.Trim(exprStr(arg(0)), "\""))), boolT}
	case "somecall", "lastcall": // is there a call of F on this path; a result of the last one
		ks := e.lastCalls(x, exprStr(arg(0)))
		if name == "somecall" {
			return sv{c.Bool(len(ks) > 0), boolT}
		}
		if len(ks) == 0 {
			e.fail(x, "no call")
		}
		for _, m := range []map[string]sv{ks[0].res, ks[0].args} {
			if v, ok := m[exprStr(arg(1))]; ok {
				return v
			}
		}
		e.fail(x, "no such result")
	case "carg", "cres", "capp":
		ks := e.callsOf(x, exprStr(arg(0)))
		i, isC := e.intTerm(arg(1)).Int64()
		if !isC || int(i) >= len(ks) {
			e.fail(x, "no such call")
		}
		k := ks[i]
		if name == "capp" {
			return sv{e.appended(x, k), seqT}
		}
		m := k.args
		if name == "cres" {
			m = k.res
		}
		v, ok := m[exprStr(arg(2))]
		if !ok {
			e.fail(x, "no such parameter")
		}
		return v
	case "cfor": // cfor("F", p, V, q, W, ...): what the calls of F with these arguments appended, in order
		out := emptySeq
		for _, k := range e.callsOf(x, exprStr(arg(0))) {
			is := true
			for i := 1; i+1 < len(x.Args) && is; i += 2 {
				v, ok := k.args[exprStr(x.Args[i])]
				if !ok {
					e.fail(x, "no such parameter")
				}
				w := e.eval(x.Args[i+1])
				q := r.same(v.v, w.v, v.t)
				if a, ok := v.v.(*Term); ok && isRefType(v.t) {
					q = r.refEq(a, w.v.(*Term))
				}
				switch {
				case r.valid(q):
				case r.valid(r.c.Not(q)):
					is = false
				default:
					e.fail(x, "a call with undetermined arguments")
				}
			}
			if is {
				out = r.c.Cat(out, e.appended(x, k))
			}
		}
		return sv{out, seqT}
	case "appends": // the buffer keeps what it held
		ref := e.bufRef(arg(0))
		now := r.norm(r.read("bytes.Buffer.$buf", seqByteT, ref).(*Seq))
		was := r.norm(e.inOld(func() sv { return sv{r.read("bytes.Buffer.$buf", seqByteT, ref), seqT} }).v.(*Seq))
		_, ok := r.matchPrefix(was, now)
		return sv{c.Bool(ok), boolT}
	case "rangekey", "rangeval": // the entry a map iteration is at
		if e.loop == nil {
			e.fail(x, "outside a loop clause")
		}
		its := r.iterators(e.loop.fr, e.loop.li)
		if len(its) != 1 {
			e.fail(x, "no map iteration")
		}
		it := its[0]
		save := r.heap
		defer func() { r.heap = save }()
		r.heap = e.loop.hheap
		k := r.orderKey(it, r.read("iter:pos", seqLenT, it.id).(*Term))
		if name == "rangekey" {
			return sv{k, it.mt.Key()}
		}
		return sv{r.mapGet(it.mt, it.m, k), it.mt.Elem()}
	case "rangemap", "overmap": // the map the iteration goes over; whether it is of that type
		if e.loop == nil {
			e.fail(x, "outside a loop clause")
		}
		its := r.iterators(e.loop.fr, e.loop.li)
		if name == "overmap" {
			return sv{c.Bool(len(its) == 1 && typeName(its[0].mt) == strings.Trim(exprStr(arg(0)), "\"")), boolT}
		}
		if len(its) != 1 {
			e.fail(x, "no map iteration")
		}
		return sv{its[0].m, its[0].mt}
	case "ranged": // a map iteration left behind went over that map
		m := e.eval(arg(0))
		g := c.F
		for _, cs := range r.exited {
			for _, it := range r.iterators(cs.fr, cs.li) {
				if types.Identical(it.mt, m.t.Underlying()) {
					g = c.Or(g, c.Eq(it.m, m.v.(*Term)))
				}
			}
		}
		return sv{g, boolT}
	case "newmap": // the map of that type made last
		for i := len(r.madeMaps) - 1; i >= 0; i-- {
			if m := r.madeMaps[i]; typeName(m.mt) == strings.Trim(exprStr(arg(0)), "\"") {
				return sv{m.ref, m.mt}
			}
		}
		e.fail(x, "no such map")
	case "exhausted": // every map iteration left behind has seen all entries
		g := c.T
		for _, cs := range r.exited {
			for _, it := range r.iterators(cs.fr, cs.li) {
				g = c.And(g, c.Le(r.mapLen(it.mt, it.m), r.read("iter:pos", seqLenT, it.id).(*Term)))
			}
		}
		return sv{g, boolT}
	case "events":
		return sv{c.Int(int64(len(r.events) - r.entryEvents)), intT}
	case "event":
		k, _ := e.intTerm(arg(0)).Int64()
		if int(k)+r.entryEvents >= len(r.events) {
			return sv{c.F, boolT}
		}
		ev := r.events[int(k)+r.entryEvents]
		return sv{c.Bool(ev.kind == strings.Trim(exprStr(arg(1)), "\"")), boolT}
	case "eventarg":
		k, _ := e.intTerm(arg(0)).Int64()
		j, _ := e.intTerm(arg(1)).Int64()
		if int(k)+r.entryEvents >= len(r.events) {
			e.fail(x, "no such event")
		}
		ev := r.events[int(k)+r.entryEvents]
		v := ev.args[j]
		switch v := v.(type) {
		case *Seq:
			return sv{v, seqT}
		case IfaceV:
			return sv{v, types.NewInterfaceType(nil, nil)}
		case SliceV:
			return sv{v, types.NewSlice(byteT)}
		}
		return sv{v, intT}
	case "called": // called(k, f): the k-th event is a call of the function value f
		k, _ := e.intTerm(arg(0)).Int64()
		if int(k)+r.entryEvents >= len(r.events) || r.events[int(k)+r.entryEvents].kind != "call" {
			return sv{c.F, boolT}
		}
		return sv{c.Eq(r.events[int(k)+r.entryEvents].args[0].(*Term), e.eval(arg(1)).v.(FuncV).sym), boolT}
	case "listlen":
		return sv{c.SeqLen(r.read("list.List.$vals", seqRefT, e.term(arg(0))).(*Seq)), intT}
	case "listvals":
		return sv{r.read("list.List.$vals", seqRefT, e.term(arg(0))), seqT}
	case "listtags":
		return sv{r.read("list.List.$tags", seqRefT, e.term(arg(0))), seqT}
	}
	if d := atomDefs[name]; d != nil {
		return sv{e.atom(d, x), seqT}
	}
	if f := specFuncs[name]; f != nil {
		return f(e, x)
	}
	if name == "forall" {
		v := r.freshInt("q", nil, nil)
		r.bound = append(r.bound, v)
		defer func(n int) { r.bound = r.bound[:n] }(len(r.bound) - 1)
		e2 := e.bind(exprStr(x.Args[0]), sv{v, intT})
		lo, hi := e.intTerm(x.Args[1]), e.intTerm(x.Args[2])
		return sv{c.Forall(v, c.Imp(c.And(c.Le(lo, v), c.Lt(v, hi)), e2.term(x.Args[3]))), boolT}
	}
	e.fail(x, "unknown function "+name)
	return sv{}
}

// same: identity of Go values (bit equality for floats, element-wise slices not followed).
func (r *Run) same(a, b Val, t types.Type) *Term {
	c := r.c
	switch x := a.(type) {
	case *Term:
		if t != nil && isRefType(t) {
			return r.refEq(x, b.(*Term))
		}
		return c.Eq(x, b.(*Term))
	case SliceV:
		y := b.(SliceV)
		return c.And(r.refEq(x.ref, y.ref), c.Eq(x.off, y.off), c.Eq(x.len, y.len), c.Eq(x.isnil, y.isnil))
	case *Seq:
		return r.equal(x, b, nil)
	case IfaceV:
		y := b.(IfaceV)
		return c.And(c.Eq(x.tag, y.tag), r.payloadEq(x.val, y.val))
	case FuncV:
		return c.Eq(x.sym, b.(FuncV).sym)
	case StructV:
		y := b.(StructV)
		fs := structFields(t)
		out := c.T
		for i := range x.f {
			out = c.And(out, r.same(x.f[i], y.f[i], fs[i].typ))
		}
		return out
	}
	panic(unsupported{fmt.Sprintf("identity of %T", a)})
}

// ---- formulas

// prove reports whether the formula holds (case splits fork the path).
func (e *Env) prove(x ast.Expr, full bool) (bool, string) {
	r, c := e.r, e.r.c
	switch y := x.(type) {
	case *ast.ParenExpr:
		return e.prove(y.X, full)
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			if ok, why := e.prove(y.X, full); !ok {
				return false, why
			}
			return e.prove(y.Y, full)
		}
		if y.Op == token.EQL {
			a, b := e.eval(y.X), e.eval(y.Y)
			sa, sb := e.asSeq(a), e.asSeq(b)
			if sa != nil && sb != nil {
				if b := r.t.beh; b != nil && b.defines != "" && len(sb.segs) > 0 {
					if g := sb.segs[len(sb.segs)-1]; g.atom != nil && g.atom.fn == b.defines {
						return r.definedBy(sa, &Seq{segs: sb.segs[:len(sb.segs)-1]}, g.atom)
					}
				}
				ok, why := r.seqEq(sa, sb)
				return ok, why
			}
		}
	case *ast.CallExpr:
		switch exprStr(y.Fun) {
		case "imp":
			cond := e.term(y.Args[0])
			if !r.decide(cond) {
				return true, ""
			}
			return e.prove(y.Args[1], full)
		case "forall": // forall(k, lo, hi, body)
			k := r.freshInt("all", nil, nil)
			e2 := e.bind(exprStr(y.Args[0]), sv{k, intT})
			lo, hi := e.intTerm(y.Args[1]), e.intTerm(y.Args[2])
			in := c.And(c.Le(lo, k), c.Lt(k, hi))
			switch r.known(in) {
			case -1:
				return true, ""
			}
			// the bound variable is a fresh constant; its range is a local assumption
			n := len(r.pc)
			r.assume(in)
			ok, why := e2.prove(y.Args[3], full)
			_ = n
			return ok, why
		}
		if m := r.t.E.S.macros[exprStr(y.Fun)]; m != nil {
			e2 := *e
			e2.vars = map[string]sv{}
			for k, v := range e.vars {
				e2.vars[k] = v
			}
			for i, p := range m.params {
				e2.vars[p] = e.eval(y.Args[i])
			}
			return e2.prove(m.body, full)
		}
	}
	t := e.term(x)
	if full {
		return r.valid(t), t.String()
	}
	return r.validQ(t), t.String()
}

func (e *Env) bind(n string, v sv) *Env {
	e2 := *e
	e2.vars = map[string]sv{}
	for k, x := range e.vars {
		e2.vars[k] = x
	}
	e2.vars[n] = v
	return &e2
}

// appended: what the call appended to the writer it was given.
func (e *Env) appended(x ast.Expr, k callRec) *Seq {
	r := e.r
	for _, n := range k.params {
		v := k.args[n]
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok || typeName(pt.Elem()) != "asn1.ASNWriter" {
			continue
		}
		e2 := &Env{r: r, vars: map[string]sv{"w": v}}
		at := func(h map[string]*field) *Seq {
			save := r.heap
			defer func() { r.heap = save }()
			r.heap = h
			return r.norm(r.read("bytes.Buffer.$buf", seqByteT, e2.bufRef(ast.NewIdent("w"))).(*Seq))
		}
		rest, ok := r.matchPrefix(at(k.pre), at(k.post))
		if !ok {
			e.fail(x, "the call does not append")
		}
		return rest
	}
	e.fail(x, "no writer")
	return nil
}

func (e *Env) asSeq(v sv) *Seq {
	switch s := v.v.(type) {
	case *Seq:
		return s
	}
	return nil
}

// assumeF adds a formula; an equation whose left side is a location defines it.
func (e *Env) assumeF(x ast.Expr) {
	r, c := e.r, e.r.c
	switch y := x.(type) {
	case *ast.ParenExpr:
		e.assumeF(y.X)
		return
	case *ast.BinaryExpr:
		if y.Op == token.LAND {
			e.assumeF(y.X)
			e.assumeF(y.Y)
			return
		}
		if y.Op == token.EQL {
			if e.assign(y.X, y.Y) {
				return
			}
		}
	case *ast.CallExpr:
		switch exprStr(y.Fun) {
		case "imp":
			cond := e.term(y.Args[0])
			if cond.IsFalse() {
				return
			}
			if e.isResultEqv(y.Args[1]) && r.known(cond) == 1 {
				e.assumeF(y.Args[1])
				return
			}
			if !e.hasAssign(y.Args[1]) {
				if t, ok := e.tryTerm(y.Args[1]); ok {
					r.assume(c.Imp(cond, t))
					return
				}
			}
			if r.decide(cond) {
				e.assumeF(y.Args[1])
			}
			return
		case "eqv":
			if e.isResultEqv(x) { // the result is that value
				n := exprStr(y.Args[0])
				v := e.eval(y.Args[1])
				delete(e.unset, n)
				e.vars[n] = sv{v.v, e.vars[n].t}
				e.set(n, v.v)
				return
			}
		case "appends":
			ref := e.bufRef(y.Args[0])
			was := e.inOld(func() sv { return sv{r.read("bytes.Buffer.$buf", seqByteT, ref), seqT} }).v.(*Seq)
			es, lo, hi := r.esort(byteT)
			r.fresh["app"]++
			nm := fmt.Sprintf("app#%d", r.fresh["app"])
			r.noteSym(nm)
			r.write("bytes.Buffer.$buf", seqByteT, c.Cat(was, c.whole(c.Atom(nm, nil, nil, AtomOpt{esort: es, lo: lo, hi: hi}))), ref)
			return
		case "forall":
			v := r.freshInt("q", nil, nil)
			r.bound = append(r.bound, v)
			e2 := e.bind(exprStr(y.Args[0]), sv{v, intT})
			lo, hi := e.intTerm(y.Args[1]), e.intTerm(y.Args[2])
			b := e2.term(y.Args[3])
			r.bound = r.bound[:len(r.bound)-1]
			r.assume(c.Forall(v, c.Imp(c.And(c.Le(lo, v), c.Lt(v, hi)), b)))
			return
		}
		if m := r.t.E.S.macros[exprStr(y.Fun)]; m != nil {
			e2 := *e
			e2.vars = map[string]sv{}
			for k, v := range e.vars {
				e2.vars[k] = v
			}
			for i, p := range m.params {
				e2.vars[p] = e.eval(y.Args[i])
			}
			e2.assumeF(m.body)
			return
		}
	}
	r.assume(e.term(x))
}

// isResultEqv: eqv(x, y) for a result x without a value so far, of the same type as y.
func (e *Env) isResultEqv(x ast.Expr) bool {
	y, ok := x.(*ast.CallExpr)
	if !ok || exprStr(y.Fun) != "eqv" || e.set == nil {
		return false
	}
	id, ok := y.Args[0].(*ast.Ident)
	if !ok || !e.unset[id.Name] {
		return false
	}
	v := e.eval(y.Args[1])
	return v.t != nil && types.Identical(v.t, e.vars[id.Name].t)
}

func (e *Env) tryTerm(x ast.Expr) (t *Term, ok bool) {
	return e.term(x), true
}

// hasAssign: does the formula contain an equation between sequences (a definition)?
func (e *Env) hasAssign(x ast.Expr) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok && b.Op == token.EQL {
			if e.isLoc(b.X) {
				found = true
			}
		}
		if cx, ok := n.(*ast.CallExpr); ok {
			if e.r.t.E.S.macros[exprStr(cx.Fun)] != nil || exprStr(cx.Fun) == "appends" || exprStr(cx.Fun) == "forall" || exprStr(cx.Fun) == "imp" {
				found = true
			}
		}
		return !found
	})
	return found
}

func (e *Env) isLoc(x ast.Expr) bool {
	switch y := x.(type) {
	case *ast.CallExpr:
		switch exprStr(y.Fun) {
		case "buf", "rest", "content", "listvals", "listtags":
			return true
		case "take":
			in, ok := y.Args[0].(*ast.CallExpr)
			return ok && exprStr(in.Fun) == "content"
		}
	case *ast.Ident:
		if v, ok := e.vars[y.Name]; ok {
			if _, s := v.v.(*Seq); s {
				return true
			}
		}
	case *ast.SelectorExpr:
		_, _, _, ok := e.strField(y)
		return ok
	}
	return false
}

// strField: a string field that a call has just havocked (or of a fresh object); an equation may define it.
func (e *Env) strField(x *ast.SelectorExpr) (p *Term, owner types.Type, f fieldDesc, ok bool) {
	if id, isId := x.X.(*ast.Ident); !isId || e.vars[id.Name].t == nil {
		return
	}
	b := e.eval(x.X)
	pt, isP := b.t.Underlying().(*types.Pointer)
	p, isT := b.v.(*Term)
	if !isP || !isT || !isStruct(pt.Elem()) {
		return
	}
	owner = pt.Elem()
	for _, fd := range structFields(owner) {
		if bt, isB := fd.typ.Underlying().(*types.Basic); fd.name == x.Sel.Name && isB && bt.Info()&types.IsString != 0 {
			q, isS := e.r.loadField(p, owner, fd).(*Seq)
			if isS && len(q.segs) == 1 && q.segs[0].atom != nil && (strings.Contains(q.segs[0].atom.fn, "@C") || p.IsConst()) {
				return p, owner, fd, true
			}
		}
	}
	return
}

// assign defines the location x by the value of y.
func (e *Env) assign(x, y ast.Expr) bool {
	r, c := e.r, e.r.c
	if id, ok := x.(*ast.Ident); ok && e.unset[id.Name] {
		v := e.eval(y)
		t := e.vars[id.Name].t
		if v.v == nil {
			v.v = r.zero(t)
		}
		if tv, ok := v.v.(*Term); ok {
			cur, ok := e.vars[id.Name].v.(*Term)
			if !ok {
				return false
			}
			if cur.sort != tv.sort {
				if cur.sort > 0 && tv.sort == SInt {
					tv = c.Int2BV(tv, int(cur.sort))
				} else if cur.sort == SInt && tv.sort > 0 {
					tv = c.BV2Int(tv, false)
				}
			}
			if ii, isInt := intType(t); isInt && tv.sort == SInt {
				r.assume(c.And(c.Le(c.Big(ii.lo()), tv), c.Le(tv, c.Big(ii.hi()))))
			}
			v.v = tv
		}
		delete(e.unset, id.Name)
		e.vars[id.Name] = sv{v.v, t}
		e.set(id.Name, v.v)
		return true
	}
	if !e.isLoc(x) {
		return false
	}
	switch l := x.(type) {
	case *ast.CallExpr:
		switch exprStr(l.Fun) {
		case "buf":
			ref := e.bufRef(l.Args[0])
			r.write("bytes.Buffer.$buf", seqByteT, e.seq(y), ref)
			return true
		case "rest":
			ref := e.rdrRef(l.Args[0])
			r.setRest(ref, e.seq(y))
			return true
		case "listvals":
			r.write("list.List.$vals", seqRefT, e.seq(y), e.term(l.Args[0]))
			return true
		case "listtags":
			r.write("list.List.$tags", seqRefT, e.seq(y), e.term(l.Args[0]))
			return true
		case "content", "take":
			whole := true
			var pn *Term
			if exprStr(l.Fun) == "take" {
				whole = false
				pn = e.intTerm(l.Args[1])
				l = l.Args[0].(*ast.CallExpr)
			}
			v := e.eval(l.Args[0])
			s, ok := v.v.(SliceV)
			if !ok {
				return false
			}
			comp := ""
			if len(l.Args) > 1 {
				comp = strings.Trim(exprStr(l.Args[1]), "\"")
			}
			val := e.seq(y)
			n := c.SeqLen(val)
			elem := sliceElem(v.t)
			if b := baseRef(s.ref); whole && s.isnil.op != OBool && (b.hi == nil || b.hi.Cmp(maxObj) > 0) && !r.isFresh(s.ref) {
				// nil has no content to define
				if r.decide(s.isnil) {
					r.assume(c.Eq(n, c.Zero))
					return true
				}
			}
			row := r.row(elem, comp, s.ref)
			es, lo, hi := r.esort(elem)
			if es == SInt && hi == nil {
				hi = r.limit()
			}
			if whole {
				r.assume(c.Eq(s.len, n))
			} else {
				r.assume(c.And(c.Eq(pn, n), c.Le(n, s.len)))
			}
			_ = row
			if s.ref.IsConst() && s.ref.num.Sign() == 0 {
				return true // nil: nothing to define
			}
			r.fresh["tail"]++
			nm := fmt.Sprintf("row:%s%s#tail%d", typeName(elem), comp, r.fresh["tail"])
			r.noteSym(nm)
			nm += limSfx(hi)
			tl := c.Atom(nm, nil, nil, AtomOpt{len: c.Sub(s.cap, n), esort: es, lo: lo, hi: hi})
			pre := emptySeq
			if !(s.off.IsConst() && s.off.num.Sign() == 0) {
				pre = r.take(row, s.off)
			}
			r.setRow(elem, comp, s.ref, c.Cat(pre, val, c.whole(tl)))
			return true
		}
	case *ast.Ident:
		if e.set != nil {
			if _, ok := e.vars[l.Name].v.(*Seq); ok {
				val := e.seq(y)
				e.vars[l.Name] = sv{val, e.vars[l.Name].t}
				e.set(l.Name, val)
				return true
			}
		}
	case *ast.SelectorExpr:
		if p, owner, f, ok := e.strField(l); ok {
			e.r.storeField(p, owner, f, e.seq(y))
			return true
		}
	}
	return false
}

// ---- loop clauses

func (r *Run) nested(fr *frame, li *loopInfo) bool {
	for _, cs := range r.cuts {
		if !(cs.fr == fr && cs.li == li) {
			return true
		}
	}
	return false
}

func (r *Run) loopSpecs(fr *frame, li *loopInfo) []*LoopSpec {
	var out []*LoopSpec
	b := r.t.beh
	if b == nil {
		return nil
	}
	if len(b.loops) == 0 {
		return nil
	}
	// the clauses belong to the loops of the function under contract and of the helpers inlined into it
	for _, l := range b.loops {
		if l.outer && r.nested(fr, li) {
			continue
		}
		if len(l.given) > 0 && !r.hasVars(li, l) {
			continue // speaks of another loop
		}
		out = append(out, l)
	}
	return out
}

// hasVars: does the loop have a variable of the type of each of the clause's?
func (r *Run) hasVars(li *loopInfo, l *LoopSpec) bool {
	for _, v := range l.vars {
		found := false
		for _, in := range li.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok && r.typeMatches(p.Type(), v.typ) {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func (r *Run) specEnv(cs *cutState) *Env {
	e := &Env{r: r, vars: map[string]sv{}, old: r.oldHeap}
	for k, v := range r.specVars {
		e.vars[k] = v
	}
	return e
}

// bindings of a loop clause's variables to the header's values
type loopBinding struct {
	name string
	phis map[string]*ssa.Phi
	offs map[string]int64 // what is added to the value of the phi
	get  func(env map[*ssa.Phi]Val, r *Run, e *Env) bool
}

func (r *Run) typeMatches(t types.Type, want string) bool {
	if want == "int" {
		b, ok := t.Underlying().(*types.Basic)
		if !ok || r.isBV(t) {
			return false
		}
		switch b.Kind() {
		case types.Int, types.Uint, types.Int64, types.Uint64:
			return true
		}
		return false
	}
	return typeName(t) == want || typeName(t.Underlying()) == want
}

// rangeOffs: the hidden index of a range loop holds the element last visited
// (-1 before the first one), one less than the number of elements visited; a
// loop over what follows the first element counts that one too.
func rangeOffs(p *ssa.Phi) []int64 {
	if p.Comment == "rangeindex" {
		return []int64{1, 2}
	}
	return []int64{0}
}

func (r *Run) bindings(cs *cutState, phis []*ssa.Phi, ls *LoopSpec) []loopBinding {
	type src struct {
		name string
		phi  *ssa.Phi
		off  int64
		get  func(env map[*ssa.Phi]Val, r *Run) (sv, bool)
	}
	var options [][]src
	for _, v := range ls.vars {
		var ss []src
		for i, p := range phis {
			p := p
			if r.typeMatches(p.Type(), v.typ) {
				for _, off := range rangeOffs(p) {
					off := off
					ss = append(ss, src{fmt.Sprintf("%s=%d.%s+%d", v.name, i, p.Comment, off), p, off, func(env map[*ssa.Phi]Val, r *Run) (sv, bool) {
						if t, ok := env[p].(*Term); ok && off != 0 {
							return sv{r.c.Add(t, r.c.Int(off)), p.Type()}, true
						}
						return sv{env[p], p.Type()}, true
					}})
				}
			}
		}
		// local variables kept in memory or defined before the loop
		var names []ssa.Value
		anyPhi := len(ss) > 0
		for x, val := range cs.fr.env {
			in, ok := x.(ssa.Instruction)
			if !ok || anyPhi || cs.li.blocks[in.Block()] {
				continue
			}
			if _, isPhi := x.(*ssa.Phi); isPhi && in.Block() == cs.li.header {
				continue
			}
			_ = val
			if r.typeMatches(x.Type(), v.typ) {
				switch x.(type) {
				case *ssa.Alloc, *ssa.Call, *ssa.MakeSlice, *ssa.Phi, *ssa.Extract, *ssa.Slice:
					names = append(names, x)
				}
			}
		}
		sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
		for _, x := range names {
			x := x
			ss = append(ss, src{v.name + "=" + x.Name(), nil, 0, func(env map[*ssa.Phi]Val, r *Run) (sv, bool) {
				val, ok := cs.fr.env[x]
				return sv{val, x.Type()}, ok
			}})
		}
		if len(ss) > 8 {
			ss = ss[:8]
		}
		options = append(options, ss)
	}
	out := []loopBinding{{"", nil, nil, func(env map[*ssa.Phi]Val, r *Run, e *Env) bool { return true }}}
	for i, ss := range options {
		var next []loopBinding
		for _, b := range out {
			b := b
			for _, s := range ss {
				s := s
				n := ls.vars[i].name
				ph := map[string]*ssa.Phi{}
				for k, v := range b.phis {
					ph[k] = v
				}
				of := map[string]int64{}
				for k, v := range b.offs {
					of[k] = v
				}
				if s.phi != nil {
					ph[n] = s.phi
					of[n] = s.off
				}
				next = append(next, loopBinding{b.name + "," + s.name, ph, of, func(env map[*ssa.Phi]Val, r *Run, e *Env) bool {
					if !b.get(env, r, e) {
						return false
					}
					v, ok := s.get(env, r)
					if !ok {
						return false
					}
					for k, o := range e.vars {
						// metavariables stand for different values
						if isMeta(ls, k) && sameVal(o.v, v.v) {
							return false
						}
					}
					e.vars[n] = v
					return true
				}})
			}
		}
		out = next
		if len(out) > 200 {
			out = out[:200]
		}
	}
	return out
}

func isMeta(ls *LoopSpec, k string) bool {
	for _, v := range ls.vars {
		if v.name == k {
			return true
		}
	}
	return false
}

func sameVal(a, b Val) bool {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	return ok1 && ok2 && x == y && !x.IsConst()
}

// bindWitness gives the existential variables of a loop clause their value at
// entry, at the header or at a back edge.
func (r *Run) bindWitness(cs *cutState, n int, ls *LoopSpec, e *Env) {
	for _, w := range ls.wit {
		k := fmt.Sprintf("%d.%s", n, w.name)
		var t *Term
		if cs.phase == phEntry {
			t = e.intTerm(w.init)
		} else {
			t = cs.wits[k]
			if t == nil {
				t = r.freshInt("wit."+w.name, bigZero, maxLen)
				if cs.wits == nil {
					cs.wits = map[string]*Term{}
				}
				cs.wits[k] = t
			}
		}
		e.vars[w.name] = sv{t, types.Typ[types.Int]}
	}
	if cs.phase == phBack {
		e.head = cs.hheap
		steps := make([]*Term, len(ls.wit))
		for i, w := range ls.wit {
			steps[i] = e.intTerm(w.step)
		}
		for i, w := range ls.wit {
			e.vars[w.name] = sv{steps[i], types.Typ[types.Int]}
		}
	}
}

// witnessTerms: a witness that an invariant ties to the loop's variables is that term.
func (r *Run) witnessTerms(cs *cutState, n int, ls *LoopSpec, bname string, e *Env) {
	for _, w := range ls.wit {
		for _, cl := range ls.invs {
			be, ok := cl.e.(*ast.BinaryExpr)
			if !ok || be.Op != token.EQL || exprStr(be.X) != w.name {
				continue
			}
			gone := false
			for k := range cs.lc.dropped {
				if strings.HasPrefix(k, fmt.Sprintf("spec%d.", n)) && strings.HasSuffix(k, bname+": "+cl.text) {
					gone = true
				}
			}
			if !gone {
				if v := e.eval(be.Y); v.v != nil {
					e.vars[w.name] = v
				}
				break
			}
		}
	}
}

func (r *Run) specCands(cs *cutState, phis []*ssa.Phi, n int, ls *LoopSpec) []cand {
	var out []cand
	quiet := func(f func() (bool, string)) (ok bool, why string) {
		defer func() {
			if x := recover(); x != nil {
				if u, is := x.(unsupported); is {
					ok, why = false, u.msg
					return
				}
				panic(x)
			}
		}()
		return f()
	}
	for _, b := range r.bindings(cs, phis, ls) {
		b := b
		all := append(append([]Clause{}, ls.invs...), ls.defs...)
		for j, cl := range all {
			cl := cl
			def := j >= len(ls.invs)
			name := fmt.Sprintf("spec%d.%d%s: %s", n, j, b.name, cl.text)
			var set func(env map[*ssa.Phi]Val, r *Run) // a clause  v == expr  for a loop variable defines it
			if be, ok := cl.e.(*ast.BinaryExpr); ok && def && be.Op == token.EQL {
				if id, ok := be.X.(*ast.Ident); ok && b.phis[id.Name] != nil {
					p := b.phis[id.Name]
					set = func(env map[*ssa.Phi]Val, r *Run) {
						e := r.specEnv(cs)
						if !b.get(env, r, e) {
							return
						}
						r.spec++
						r.bindWitness(cs, n, ls, e)
						defer func() { r.spec-- }()
						v, ok := e.eval(be.Y).v.(*Term)
						if !ok || v.sort != env[p].(*Term).sort {
							return
						}
						if ii, is := intType(p.Type()); is && v.sort == SInt {
							r.assume(r.c.And(r.c.Le(r.c.Big(ii.lo()), v), r.c.Le(v, r.c.Big(ii.hi()))))
						}
						if off := b.offs[id.Name]; off != 0 {
							v = r.c.Sub(v, r.c.Int(off))
						}
						env[p] = v
						cs.fr.env[p] = v
					}
				}
			}
			out = append(out, cand{name: name, set: set, inv: !def, check: func(env map[*ssa.Phi]Val, r *Run) (bool, string) {
				return quiet(func() (bool, string) {
					e := r.specEnv(cs)
					if !b.get(env, r, e) {
						return false, "unbound"
					}
					r.spec++
					defer func() { r.spec-- }()
					r.bindWitness(cs, n, ls, e)
					return e.prove(cl.e, true)
				})
			},
				assume: func(env map[*ssa.Phi]Val, r *Run) {
					e := r.specEnv(cs)
					if !b.get(env, r, e) {
						return
					}
					r.spec++
					defer func() { r.spec-- }()
					r.bindWitness(cs, n, ls, e)
					hh := cs.hheap
					cs.hheap = nil // definitions of havocked locations are no writes of the body
					if def {
						e.assumeF(cl.e)
					} else {
						e.assumeF(cl.e)
					}
					cs.hheap = hh
				}})
		}
	}
	return out
}

// eachClauses checks the entry clauses (entry) or what the iteration just made
// did (each), for every way to bind the clause's variables.
func (r *Run) eachClauses(cs *cutState, phis []*ssa.Phi, now map[*ssa.Phi]Val, entry bool) {
	for n, ls := range r.loopSpecs(cs.fr, cs.li) {
		cls := ls.each
		if entry {
			cls = ls.entry
		}
		if len(cls) == 0 || len(ls.given) > 0 && !entry && !cs.given {
			continue
		}
		for _, b := range r.bindings(cs, phis, ls) {
			key := fmt.Sprintf("%d|%s", n, b.name)
			if cs.lc.eachBad[key] != "" {
				continue
			}
			bad := func() (why string) {
				defer func() {
					if x := recover(); x != nil {
						if u, is := x.(unsupported); is {
							why = u.msg
							return
						}
						panic(x)
					}
				}()
				e := r.specEnv(cs)
				r.spec++
				defer func() { r.spec-- }()
				ev, ec := r.entryEvents, r.entryCalls
				defer func() { r.entryEvents, r.entryCalls = ev, ec }()
				if entry {
					if !b.get(now, r, e) {
						return "unbound"
					}
					r.bindWitness(cs, n, ls, e)
				} else {
					en := r.specEnv(cs)
					if !b.get(cs.vals, r, e) || !b.get(now, r, en) {
						return "unbound"
					}
					e.next = map[string]sv{}
					r.bindWitness(cs, n, ls, en)
					cs.phase = phHead
					r.bindWitness(cs, n, ls, e)
					cs.phase = phBack
					r.witnessTerms(cs, n, ls, b.name, e)
					for k, v := range en.vars {
						e.next[k] = v
					}
					e.old = cs.hheap
					r.entryEvents = cs.events0
					r.entryCalls = cs.calls0
					e.loop = cs
				}
				for _, cl := range cls {
					if ok, why := e.prove(cl.e, true); !ok && !r.endIfInfeasible() {
						if os.Getenv("GOVC_LOOPS") != "" {
							fmt.Printf("  each %s: %s (%s) on %s\n", key, cl.text, why, r.pathString())
						}
						return cl.text + " -- " + why
					}
				}
				return ""
			}()
			if bad != "" {
				cs.lc.eachBad[key] = bad
			} else if !entry {
				cs.lc.eachOK[key] = true
			}
		}
	}
}

// bestBinding: the way to bind the clause's variables that nothing spoke against so far.
func (r *Run) bestBinding(cs *cutState, phis []*ssa.Phi, n int, ls *LoopSpec) *loopBinding {
	best, bestN := -1, 1<<30
	bs := r.bindings(cs, phis, ls)
	for i, b := range bs {
		if cs.lc.eachBad[fmt.Sprintf("%d|%s", n, b.name)] != "" {
			continue
		}
		d := 0
		for k := range cs.lc.dropped {
			if strings.HasPrefix(k, fmt.Sprintf("spec%d.", n)) && strings.Contains(k, b.name+": ") {
				d++
			}
		}
		if d < bestN {
			best, bestN = i, d
		}
	}
	if best < 0 {
		return nil
	}
	return &bs[best]
}

// bindExited makes the variables of the loop clauses known after the loop: their values at the last loop head.
func (r *Run) bindExited(e *Env) {
	for _, cs := range r.exited {
		var phis []*ssa.Phi
		for _, in := range cs.li.header.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				phis = append(phis, p)
			}
		}
		for n, ls := range r.loopSpecs(cs.fr, cs.li) {
			b := r.bestBinding(cs, phis, n, ls)
			if b == nil {
				continue
			}
			e2 := &Env{r: r, vars: map[string]sv{}, old: r.oldHeap}
			if !b.get(cs.vals, r, e2) {
				continue
			}
			cs.phase = phHead
			r.bindWitness(cs, n, ls, e2)
			for k, v := range e2.vars {
				if _, has := e.vars[k]; !has {
					e.vars[k] = v
				}
			}
		}
	}
}

func (r *Run) specRank(cs *cutState, phis []*ssa.Phi, ls *LoopSpec, x ast.Expr) map[int]rankFn {
	out := map[int]rankFn{}
	for i, b := range r.bindings(cs, phis, ls) {
		b := b
		out[i] = func(env map[*ssa.Phi]Val, r *Run) (t *Term) {
			defer func() {
				if x := recover(); x != nil {
					if _, is := x.(unsupported); is {
						t = nil
						return
					}
					panic(x)
				}
			}()
			e := r.specEnv(cs)
			if !b.get(env, r, e) {
				return nil
			}
			return e.intTerm(x)
		}
	}
	return out
}

// ---- names

func (P *Program) globalOf(n string) *ssa.Global {
	i := strings.Index(n, ".")
	if i < 0 {
		return nil
	}
	for _, p := range P.pkgs {
		if p.Pkg.Name() == n[:i] {
			if g, ok := p.Members[n[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func (P *Program) constOf(n string) *big.Int {
	i := strings.Index(n, ".")
	if i < 0 {
		return nil
	}
	for _, p := range P.pkgs {
		if p.Pkg.Name() == n[:i] {
			if k, ok := p.Members[n[i+1:]].(*ssa.NamedConst); ok && k.Value.Value != nil {
				b, ok := new(big.Int).SetString(k.Value.Value.ExactString(), 10)
				if ok {
					return b
				}
			}
		}
	}
	return nil
}

func (P *Program) typeNamed(n string) types.Type {
	ptr := 0
	for strings.HasPrefix(n, "*") {
		ptr++
		n = n[1:]
	}
	t := P.types[n]
	if t == nil {
		switch n {
		case "int":
			t = intT
		case "int64":
			t = types.Typ[types.Int64]
		case "int32":
			t = types.Typ[types.Int32]
		case "uint8", "byte":
			t = types.Typ[types.Uint8]
		case "uint16":
			t = types.Typ[types.Uint16]
		case "bool":
			t = boolT
		case "string":
			t = types.Typ[types.String]
		case "float64":
			t = types.Typ[types.Float64]
		case "bytes.Buffer", "bytes.Reader":
			for _, p := range P.prog.AllPackages() {
				if p.Pkg.Path() == "bytes" {
					if ty := p.Type(n[6:]); ty != nil {
						t = ty.Type()
					}
				}
			}
			if t == nil {
				for _, p := range P.pkgs {
					for _, im := range p.Pkg.Imports() {
						if im.Path() == "bytes" {
							t = im.Scope().Lookup(n[6:]).Type()
						}
					}
				}
			}
		}
	}
	if t == nil {
		return nil
	}
	for ; ptr > 0; ptr-- {
		t = types.NewPointer(t)
	}
	return t
}

// definedBy: act is pre followed by octets that depend on the arguments of the
// symbol a alone (its values and the branches taken), which may serve as its definition.
func (r *Run) definedBy(act, pre *Seq, a *Atom) (bool, string) {
	rest, ok := r.matchPrefix(r.norm(pre), r.norm(act))
	if !ok {
		return false, "prefix differs"
	}
	if d := atomDefs[a.fn]; int64(len(rest.segs)) < d.minLen || d.maxLen > 0 && int64(len(rest.segs)) > d.maxLen {
		return false, "length outside the bounds of the symbol"
	}
	mine := map[*Term]bool{}
	seen := map[*Term]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if t.op == OVar || t.op == OApp {
			mine[t] = true
		}
		for _, x := range t.args {
			collect(x)
		}
	}
	for _, x := range a.args {
		collect(x)
	}
	var closed func(t *Term) bool
	closed = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if (t.op == OVar || t.op == OApp) && !mine[t] {
			return false
		}
		for _, x := range t.args {
			if !closed(x) {
				return false
			}
		}
		return true
	}
	for _, g := range rest.segs {
		if g.unit == nil || !closed(g.unit) {
			return false, "the octets depend on more than the arguments: " + rest.String()
		}
	}
	for _, d := range r.decided {
		if !closed(d) {
			return false, "a branch depends on more than the arguments: " + d.String()
		}
	}
	return true, ""
}
