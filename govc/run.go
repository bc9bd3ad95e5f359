package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- values

type Val interface{}

type SliceV struct {
	ref, off, len, cap *Term
	isnil              *Term
}
type IfaceV struct {
	tag *Term // 0: nil interface
	val Val
}
type StructV struct{ f []Val }
type ArrV struct{ e []Val }
type TupleV struct{ e []Val }
type BoxV struct { // a plain value in an interface
	t   *Term
	typ types.Type
}
type FuncV struct {
	fn   *ssa.Function
	bind []Val
	sym  *Term // symbolic function value (0: nil)
}
type AddrV struct { // address of a leaf location
	key string
	idx []*Term
	typ types.Type
	row bool // idx = ref, index
}
type IterV struct { // range over a map
	id *Term
	m  *Term
	mt *types.Map
}
type StrIterV struct{ id *Term }
type BuiltinV struct{ name string }

// ---- heap

type layer struct {
	idx   []*Term
	val   Val
	havoc *havocSpec
}
type havocSpec struct {
	epoch     string
	all       bool
	freshOnly bool
	from      int64    // freshOnly: objects allocated from this numeral on
	lim       *big.Int // references read from here are at most this
	refs      [][]*Term
}
type field struct {
	key    string
	typ    types.Type // nil: Seq of bytes
	layers []layer
}

type Event struct {
	kind string
	args []Val
}

type frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	path    string
	parent  *frame
	iter    map[*ssa.BasicBlock]int
	cuts    []*cutState
	results []Val
}

type pathEnd struct{ why string }
type restart struct{ why string }
type unsupported struct{ msg string }

// ---- task state

type Obl struct {
	name   string
	kind   string
	proofs int
	fails  []string
	ces    []map[string]string
	unk    int
}

type TaskState struct {
	P           *Program
	E           *Engine
	c           *Ctx
	s           *Solver
	name        string
	mode        string // int | mixed
	robust      bool   // type invariants etc. on by default
	obls        map[string]*Obl
	order       []string
	choices     []int
	widths      []int
	loops       map[string]*loopCut
	dirty       bool
	frameDirty  bool
	paths       int
	runs        int
	initHeap    map[string]*field
	initAlloc   int
	initZero    map[int]bool
	con         *Contract
	beh         *Behavior
	used        map[string]bool // contract behaviours relied upon
	inlined     map[string]bool
	assump      map[string]bool
	ended       map[string]int
	deadline    time.Time
	unsup       map[string]int
	noSafety    bool
	noContract  map[string]bool
	trackStack  bool
	initGarbage []*Term
	reached     int // paths that reached the final assertions
}

type Run struct {
	stale       map[string]bool    // keys added to a loop frame on this path
	nzPts       map[string][]*Term // positions whose count of non-zero octets is spoken of
	folds       map[string][]*Atom
	folding     bool
	exited      []*cutState // cut loops left on this path
	madeMaps    []madeMap   // maps the code under contract made
	unfolds     int         // depth of fold unfolding
	t           *TaskState
	c           *Ctx
	pc          []*Term
	pcset       map[int]bool
	pos         int
	heap        map[string]*field
	allocN      int
	zeroed      map[int]bool
	fr          *frame
	bound       []*Term
	fresh       map[string]int
	events      []Event
	cuts        []*cutState
	oldHeap     map[string]*field
	oldAlloc    int
	entryEvents int
	calls       []callRec
	entryCalls  int
	decided     []*Term
	facts       map[string]bool
	depth       int
	spec        int // >0: evaluating specification (no safety obligations)
	steps       int
	readers     []*Term // backing arrays that a bytes.Reader looks at
	callNo      map[string]int
	params      map[string]Val
	ghosts      map[string]Val
	measure0    *Term
	specVars    map[string]sv
	superseded  map[int]bool
	front       map[int]*Term
	allocs      []allocRec
	allocBound  *Term
	freshObj    map[int]*big.Int
	limFix      *big.Int
	trail       []string
}

type allocRec struct {
	ref *Term
	t   types.Type
}

var debugDec = os.Getenv("GOVC_DEC") != ""

const freshBase = 1000000

func (r *Run) freshInt(name string, lo, hi *big.Int) *Term {
	return r.freshVar(name, SInt, lo, hi)
}
func (r *Run) freshVar(name string, s Sort, lo, hi *big.Int) *Term {
	r.fresh[name]++
	b := func(x *big.Int) string {
		if x == nil {
			return "*"
		}
		return x.String()
	}
	n := fmt.Sprintf("%s#%d", name, r.fresh[name])
	r.noteSym(symBase(n))
	if s == SInt {
		n += ":" + b(lo) + ".." + b(hi)
	} else {
		n += fmt.Sprintf(":s%d", s)
	}
	return r.c.Var(n, s, lo, hi)
}

// Objects allocated by code that is summarised (the earlier iterations of a cut
// loop, a call replaced by its contract) get numerals from a gap, so that every
// reference known at some point is smaller than any object allocated later.
const gapSize = 1 << 24
const gapResults = 1 << 12

func (r *Run) gap() int {
	pre := r.allocN
	r.allocN += gapSize
	return pre
}

// limit is the largest reference that can exist now.
func (r *Run) limit() *big.Int {
	if r.limFix != nil {
		return r.limFix
	}
	return big.NewInt(int64(freshBase + r.allocN))
}

func limSfx(hi *big.Int) string {
	if hi == nil || hi.Cmp(maxObj) == 0 || hi.Cmp(maxRef) == 0 {
		return ""
	}
	return "!r" + hi.String()
}

func (r *Run) newRef() *Term {
	r.allocN++
	return r.c.Int(int64(freshBase + r.allocN))
}

// ---- path condition

func (r *Run) assume(t *Term) {
	if t.IsTrue() {
		return
	}
	if t.IsFalse() {
		panic(pathEnd{"infeasible"})
	}
	if t.op == OAnd {
		for _, a := range t.args {
			r.assume(a)
		}
		return
	}
	if r.pcset[t.id] {
		return
	}
	if r.pcset[r.c.Not(t).id] {
		panic(pathEnd{"infeasible"})
	}
	r.pcset[t.id] = true
	r.pc = append(r.pc, t)
}

func (r *Run) quick(t *Term) int {
	if t.IsTrue() || r.pcset[t.id] {
		return 1
	}
	if t.IsFalse() || r.pcset[r.c.Not(t).id] {
		return -1
	}
	return 0
}

// relevant keeps the hypotheses connected to the goal by shared symbols.
func (r *Run) hyps(goal *Term) []*Term {
	return append(append([]*Term{}, r.pc...), goal)
}

// known: 1 implied by the path condition, -1 refuted, 0 undetermined
func (r *Run) known(t *Term) int {
	if q := r.quick(t); q != 0 {
		return q
	}
	r.checkTime()
	if r.t.s.check(r.hyps(r.c.Not(t)), false) == Unsat {
		return 1
	}
	if r.t.s.check(r.hyps(t), false) == Unsat {
		return -1
	}
	return 0
}

// infeasible: the path condition itself is contradictory.
func (r *Run) infeasible() bool {
	r.checkTime()
	return r.t.s.check(append([]*Term{}, r.pc...), false) == Unsat
}

func (r *Run) checkTime() {
	if !r.t.deadline.IsZero() && time.Now().After(r.t.deadline) {
		panic(unsupported{"time budget of the task exhausted"})
	}
}

func (r *Run) valid(t *Term) bool {
	if q := r.quick(t); q != 0 {
		return q == 1 || r.infeasible()
	}
	r.checkTime()
	return r.t.s.check(r.hyps(r.c.Not(t)), true) == Unsat
}

func (r *Run) validQ(t *Term) bool {
	if q := r.quick(t); q != 0 {
		return q == 1 || r.infeasible()
	}
	r.checkTime()
	return r.t.s.check(r.hyps(r.c.Not(t)), false) == Unsat
}

// decide forks when the condition is not determined.
func (r *Run) decide(t *Term) bool {
	switch r.known(t) {
	case 1:
		return true
	case -1:
		return false
	}
	for _, b := range r.bound {
		if mentionsTerm(t, b) {
			panic(unsupported{"case split under a quantifier: " + t.String()})
		}
	}
	k := r.choose(2)
	if debugDec {
		var pcs [24]uintptr
		fs := runtime.CallersFrames(pcs[:runtime.Callers(2, pcs[:])])
		st := ""
		for i := 0; i < 9; i++ {
			f, more := fs.Next()
			st += fmt.Sprintf(" %s:%d", strings.TrimPrefix(strings.TrimPrefix(f.Function, "main.(*"), "main."), f.Line)
			if !more {
				break
			}
		}
		r.trail = append(r.trail, fmt.Sprintf("%d:%.110s @%s", k, t, st))
	}
	if r.spec == 0 {
		r.decided = append(r.decided, t)
	}
	if k == 0 {
		r.assume(t)
		return true
	}
	r.assume(r.c.Not(t))
	return false
}

// choose is an n-way fork.
func (r *Run) choose(n int) int {
	if n == 1 {
		return 0
	}
	t := r.t
	if r.pos < len(t.choices) {
		k := t.choices[r.pos]
		r.pos++
		return k
	}
	t.choices = append(t.choices, 0)
	t.widths = append(t.widths, n)
	r.pos++
	return 0
}

// ---- obligations

func (t *TaskState) obl(name, kind string) *Obl {
	o := t.obls[name]
	if o == nil {
		o = &Obl{name: name, kind: kind}
		t.obls[name] = o
		t.order = append(t.order, name)
	}
	return o
}

func (r *Run) where(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := r.t.P.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (r *Run) oblige(kind, name string, goal *Term) bool {
	o := r.t.obl(name, kind)
	if r.t.dirty || r.t.frameDirty {
		// this pass is repeated
		r.assume(goal)
		return true
	}
	if r.valid(goal) {
		o.proofs++
		r.assume(goal)
		return true
	}
	r.fail(o, goal, goal.String())
	r.assume(goal)
	return false
}

func (r *Run) fail(o *Obl, goal *Term, msg string) {
	if r.infeasible() {
		panic(pathEnd{"infeasible"})
	}
	if len(o.fails) >= 3 {
		o.fails = append(o.fails, "")
		return
	}
	hyps := append([]*Term{}, r.pc...)
	if goal != nil {
		hyps = append(hyps, r.c.Not(goal))
	}
	res := r.t.s.check(hyps, true)
	if len(msg) > 600 {
		msg = msg[:600] + "..."
	}
	msg = fmt.Sprintf("[%s] %s", res, msg)
	if os.Getenv("GOVC_TRACE") != "" {
		msg += "\n    path: " + r.pathString()
	}
	o.fails = append(o.fails, msg)
	if res == Sat {
		o.ces = append(o.ces, r.model(hyps))
	}
}

func (r *Run) pathString() string {
	var sb strings.Builder
	for _, p := range r.pc {
		s := p.String()
		if len(s) > 200 {
			s = s[:200]
		}
		sb.WriteString("\n      " + s)
	}
	return sb.String()
}

// model extracts values of the named symbols.
func (r *Run) model(hyps []*Term) map[string]string {
	seen := map[*Term]bool{}
	var ts []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar || t.op == OApp {
			ok := true
			for _, a := range t.args {
				if !a.IsConst() {
					ok = false
				}
			}
			if ok && len(ts) < 60 {
				ts = append(ts, t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, h := range hyps {
		walk(h)
	}
	m := r.t.s.Model(hyps, ts)
	out := map[string]string{}
	for t, v := range m {
		out[t.String()] = v
	}
	return out
}

func (r *Run) safety(kind string, pos token.Pos, goal *Term) {
	if r.spec > 0 || r.t.noSafety {
		r.assume(goal)
		return
	}
	if q := r.quick(goal); q == 1 {
		r.t.obl("safety", "safety").proofs++
		return
	}
	fn := ""
	if r.fr != nil {
		fn = shortName(r.fr.fn)
	}
	r.oblige("safety", fmt.Sprintf("safety: %s in %s (%s)", kind, fn, r.where(pos)), goal)
}

// ---- types

var maxI64 = new(big.Int).Sub(pow2(63), bigOne)
var minI64 = new(big.Int).Neg(pow2(63))
var maxObj = big.NewInt(freshBase - 1)
var maxRef = pow2(41)
var maxLen = pow2(40)

type intInfo struct {
	bits   int
	signed bool
}

func intType(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return intInfo{64, true}, true
	case types.Int32:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func (ii intInfo) lo() *big.Int {
	if ii.signed {
		return new(big.Int).Neg(pow2(uint(ii.bits - 1)))
	}
	return bigZero
}
func (ii intInfo) hi() *big.Int {
	if ii.signed {
		return new(big.Int).Sub(pow2(uint(ii.bits-1)), bigOne)
	}
	return new(big.Int).Sub(pow2(uint(ii.bits)), bigOne)
}

// isBV: is this integer type represented as a bit vector in this task?
func (r *Run) isBV(t types.Type) bool {
	if r.t.mode != "mixed" {
		return false
	}
	ii, ok := intType(t)
	if !ok || ii.signed {
		return false
	}
	b := t.Underlying().(*types.Basic)
	return b.Kind() != types.Uint && b.Kind() != types.Uintptr
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Float64 || b.Kind() == types.UntypedFloat)
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return true
	}
	return false
}

// esort: sort of a row element
func (r *Run) esort(t types.Type) (Sort, *big.Int, *big.Int) {
	if ii, ok := intType(t); ok {
		if r.isBV(t) {
			return Sort(ii.bits), nil, nil
		}
		return SInt, ii.lo(), ii.hi()
	}
	if isBool(t) {
		return SBool, nil, nil
	}
	if isFloat(t) {
		return Sort(64), nil, nil
	}
	return SInt, bigZero, nil
}

var byteT = types.Typ[types.Uint8]

type fieldDesc struct {
	name string
	typ  types.Type // nil: byte sequence; see pseudo
	seq  bool
}

var seqByteT types.Type = types.NewNamed(types.NewTypeName(0, nil, "$seq", nil), types.Typ[types.String], nil)
var seqRefT types.Type = types.NewNamed(types.NewTypeName(0, nil, "$refs", nil), types.Typ[types.String], nil)

// structFields lists the fields of a struct type; types of the standard library are opaque.
func structFields(t types.Type) []fieldDesc {
	switch typeName(t) {
	case "bytes.Buffer":
		return []fieldDesc{{"$buf", seqByteT, true}}
	case "bytes.Reader":
		return []fieldDesc{{"$rest", seqByteT, true}, {"$pre", seqByteT, true}}
	case "list.List":
		return []fieldDesc{{"$tags", seqRefT, true}, {"$vals", seqRefT, true}}
	case "list.Element":
		i := types.Typ[types.Int]
		return []fieldDesc{{"$next", i, false}, {"$prev", i, false}, {"$list", i, false}, {"Value", types.NewInterfaceType(nil, nil), false}}
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), strings.TrimSuffix(modPath, "/")) {
		return nil
	}
	st := t.Underlying().(*types.Struct)
	var out []fieldDesc
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, fieldDesc{st.Field(i).Name(), st.Field(i).Type(), false})
	}
	return out
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}
func isArray(t types.Type) (*types.Array, bool) {
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

func isIface(t types.Type) bool { return types.IsInterface(t) }

// ---- type tags

func (r *Run) tagOf(t types.Type) *Term { return r.c.Int(r.t.E.tagID(t)) }

func (E *Engine) tagID(t types.Type) int64 {
	E.mu.Lock()
	defer E.mu.Unlock()
	n := types.TypeString(t, nil)
	if id, ok := E.tags[n]; ok {
		return id
	}
	// stable numbering by content
	id := int64(len(E.tags) + 1)
	E.tags[n] = id
	E.tagT[id] = t
	return id
}

// ---- symbolic and zero values

func (r *Run) zero(t types.Type) Val {
	c := r.c
	if t == seqByteT || t == seqRefT {
		return emptySeq
	}
	if ii, ok := intType(t); ok {
		if r.isBV(t) {
			return c.BVc(bigZero, ii.bits)
		}
		return c.Zero
	}
	if isBool(t) {
		return c.F
	}
	if isFloat(t) {
		return c.BVc(bigZero, 64)
	}
	if isString(t) {
		return emptySeq
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return c.Zero
	case *types.Basic: // unsafe pointer, nil
		return c.Zero
	case *types.Slice:
		return SliceV{c.Zero, c.Zero, c.Zero, c.Zero, c.T}
	case *types.Interface:
		return IfaceV{c.Zero, c.Zero}
	case *types.Signature:
		return FuncV{sym: c.Zero}
	case *types.Struct:
		var s StructV
		for _, f := range structFields(t) {
			s.f = append(s.f, r.zero(f.typ))
		}
		return s
	case *types.Array:
		var a ArrV
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, r.zero(u.Elem()))
		}
		return a
	case *types.Tuple:
		var a TupleV
		for i := 0; i < u.Len(); i++ {
			a.e = append(a.e, r.zero(u.At(i).Type()))
		}
		return a
	}
	panic(unsupported{"zero value of " + t.String()})
}

// fact assumes t once per path.
func (r *Run) fact(t *Term) {
	if len(r.bound) > 0 {
		return
	}
	r.assume(t)
}

// symVal makes the symbolic value named by (name, idx).
// refHi: references in it are at most this (maxObj: the value existed before the task started).
func (r *Run) symVal(t types.Type, name string, idx []*Term, refHi *big.Int) Val {
	c := r.c
	app := func(sfx string, s Sort, lo, hi *big.Int) *Term {
		n := name + sfx
		switch {
		case s == SInt && hi == refHi && limSfx(hi) != "":
			n += limSfx(hi)
		case s == SInt && lo != nil && hi != nil:
			n += fmt.Sprintf(":%d", hi.BitLen()*2+lo.Sign()+1)
		case s != SInt:
			n += fmt.Sprintf(":s%d", s)
		}
		return c.App(n, s, lo, hi, idx...)
	}
	if t == seqByteT || t == seqRefT {
		es, lo, hi := r.esort(byteT)
		if t == seqRefT {
			es, lo, hi = SInt, bigZero, refHi
			name += limSfx(hi)
		}
		return c.whole(c.Atom(name, idx, nil, AtomOpt{esort: es, lo: lo, hi: hi}))
	}
	if ii, ok := intType(t); ok {
		if r.isBV(t) {
			return app("", Sort(ii.bits), nil, nil)
		}
		return app("", SInt, ii.lo(), ii.hi())
	}
	if isBool(t) {
		return app("", SBool, nil, nil)
	}
	if isFloat(t) {
		return app("", Sort(64), nil, nil)
	}
	if isString(t) {
		es, lo, hi := r.esort(byteT)
		return c.whole(c.Atom(name, idx, nil, AtomOpt{esort: es, lo: lo, hi: hi}))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		return app("", SInt, bigZero, refHi)
	case *types.Slice:
		s := SliceV{ref: app("", SInt, bigOne, refHi), off: c.Zero, len: app(".len", SInt, bigZero, maxLen), cap: app(".cap", SInt, bigZero, maxLen), isnil: app(".nil", SBool, nil, nil)}
		r.fact(c.Le(s.len, s.cap))
		r.fact(c.Imp(s.isnil, c.Le(s.cap, c.Zero)))
		return s
	case *types.Interface:
		return IfaceV{app(".tag", SInt, bigZero, big.NewInt(1<<30)), app(".val", SInt, bigZero, refHi)}
	case *types.Signature:
		return FuncV{sym: app("", SInt, bigZero, refHi)}
	case *types.Struct:
		var s StructV
		for i, f := range structFields(t) {
			s.f = append(s.f, r.symVal(f.typ, fmt.Sprintf("%s.%d%s", name, i, f.name), idx, refHi))
		}
		return s
	case *types.Array:
		var a ArrV
		for i := int64(0); i < u.Len(); i++ {
			a.e = append(a.e, r.symVal(u.Elem(), fmt.Sprintf("%s[%d]", name, i), idx, refHi))
		}
		return a
	case *types.Tuple:
		var a TupleV
		for i := 0; i < u.Len(); i++ {
			a.e = append(a.e, r.symVal(u.At(i).Type(), fmt.Sprintf("%s!%d", name, i), idx, refHi))
		}
		return a
	}
	panic(unsupported{"symbolic value of " + t.String()})
}

// freshVal makes a new symbolic value.
func (r *Run) freshVal(t types.Type, name string, old bool) Val {
	r.fresh["v!"+name]++
	nm := fmt.Sprintf("%s#%d", name, r.fresh["v!"+name])
	r.noteSym(symBase(nm))
	if old {
		return r.symVal(t, nm, nil, maxObj)
	}
	return r.symVal(t, nm, nil, r.limit())
}

// ---- references

func isEmb(t *Term) bool {
	return t.op == OApp && (strings.HasPrefix(t.name, "emb!") || t.name == "within!")
}

// within stands for every object embedded in p, at any depth (in the index of a havoc or of a frame).
func (r *Run) within(p *Term) *Term { return r.c.App("within!", SInt, pow2(50), pow2(51), p) }
func isWithin(t *Term) bool         { return t.op == OApp && t.name == "within!" }

func (r *Run) emb(owner types.Type, fname string, p *Term) *Term {
	return r.c.App("emb!"+typeName(owner)+"."+fname, SInt, pow2(50), pow2(51), p)
}
func (r *Run) elemRef(elem types.Type, ref, i *Term) *Term {
	return r.c.App("emb!elem!"+typeName(elem), SInt, pow2(50), pow2(51), ref, i)
}

func (r *Run) refEq(a, b *Term) *Term {
	if a == b {
		return r.c.T
	}
	ea, eb := isEmb(a), isEmb(b)
	if ea && eb {
		if a.name != b.name {
			return r.c.F
		}
		x := r.refEq(a.args[0], b.args[0])
		for i := 1; i < len(a.args); i++ {
			x = r.c.And(x, r.c.Eq(a.args[i], b.args[i]))
		}
		return x
	}
	if ea || eb {
		return r.c.F
	}
	return r.c.Eq(a, b)
}

// cmpIdx compares location indices; element-of-row style second indices are plain integers.
func (r *Run) idxEq(a, b []*Term) *Term {
	x := r.c.T
	for i := range a {
		if isWithin(a[i]) {
			// is b an object embedded in a?
			p := a[i].args[0]
			in := r.c.F
			for t := b[i]; isEmb(t); {
				t = t.args[0]
				in = r.c.Or(in, r.refEq(p, t))
			}
			x = r.c.And(x, in)
			continue
		}
		x = r.c.And(x, r.refEq(a[i], b[i]))
	}
	return x
}

func baseRef(t *Term) *Term {
	for isEmb(t) {
		t = t.args[0]
	}
	return t
}

// ---- heap access

func (r *Run) fieldOf(key string, typ types.Type) *field {
	f := r.heap[key]
	if f == nil {
		f = &field{key: key, typ: typ}
		if a := r.heap["$any"]; a != nil && !strings.HasPrefix(key, "cell:") && !strings.HasPrefix(key, "iter:") && !strings.HasPrefix(key, "global:") {
			f.layers = a.layers[:len(a.layers):len(a.layers)]
		}
		r.heap[key] = f
	}
	return f
}

func snapshot(h map[string]*field) map[string]*field {
	out := make(map[string]*field, len(h))
	for k, f := range h {
		out[k] = &field{key: f.key, typ: f.typ, layers: f.layers[:len(f.layers):len(f.layers)]}
	}
	return out
}

func (r *Run) covers(h *havocSpec, idx []*Term) bool {
	if h.all {
		return len(idx) == 0 || r.existed(baseRef(idx[0]), h.lim)
	}
	for _, x := range h.refs {
		if len(x) > len(idx) {
			continue
		}
		e := r.idxEq(x, idx[:len(x)])
		if e.IsFalse() {
			continue
		}
		if r.decide(e) {
			return true
		}
	}
	if h.freshOnly && len(idx) > 0 {
		b := baseRef(idx[0])
		return r.existed(b, h.lim) && r.decide(r.c.Le(r.c.Int(h.from), b))
	}
	return false
}

// existed: the object was there when references went up to lim; what was made later keeps what it was made with.
func (r *Run) existed(b *Term, lim *big.Int) bool {
	if lim == nil || b.sort != SInt {
		return true
	}
	if b.hi != nil && b.hi.Cmp(lim) <= 0 {
		return true
	}
	return r.decide(r.c.Le(b, r.c.Big(lim)))
}

func (r *Run) read(key string, typ types.Type, idx ...*Term) Val {
	return r.readIn(r.fieldOf(key, typ), typ, idx)
}

func (r *Run) readIn(f *field, typ types.Type, idx []*Term) Val {
	for i := len(f.layers) - 1; i >= 0; i-- {
		L := &f.layers[i]
		if L.havoc != nil {
			if r.covers(L.havoc, idx) {
				return r.symVal(typ, f.key+"@"+L.havoc.epoch, idx, L.havoc.lim)
			}
			continue
		}
		e := r.idxEq(L.idx, idx)
		if e.IsTrue() {
			return L.val
		}
		if e.IsFalse() {
			continue
		}
		if r.decide(e) {
			return L.val
		}
	}
	if len(idx) > 0 {
		b := baseRef(idx[0])
		if b.IsConst() && r.zeroed[b.id] {
			return r.zero(typ)
		}
	}
	lim := maxObj
	if len(idx) > 0 {
		lim = r.entryLim(idx[0], lim)
	}
	v := r.symVal(typ, f.key+"@0", idx, lim)
	if t, ok := v.(*Term); ok && lim.Cmp(maxObj) > 0 && !t.IsConst() {
		if _, ptr := typ.Underlying().(*types.Pointer); ptr {
			// an object of the entry state refers to objects of the entry state
			mo := r.c.Int(int64(freshBase + r.t.initAlloc))
			r.fact(r.c.Imp(r.c.Le(idx[0], mo), r.c.Le(t, mo)))
		}
	}
	return v
}

func (r *Run) write(key string, typ types.Type, v Val, idx ...*Term) {
	f := r.fieldOf(key, typ)
	r.noteWrite(key, typ, idx)
	// drop a shadowed newest write of the same location
	if n := len(f.layers); n > 0 && f.layers[n-1].havoc == nil && sameIdx(f.layers[n-1].idx, idx) {
		nl := append([]layer{}, f.layers[:n-1]...)
		f.layers = append(nl, layer{idx: idx, val: v})
		return
	}
	f.layers = append(f.layers[:len(f.layers):len(f.layers)], layer{idx: idx, val: v})
}

func sameIdx(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (r *Run) havoc(key string, typ types.Type, h *havocSpec) {
	f := r.fieldOf(key, typ)
	if h.lim == nil {
		h.lim = r.limit()
	}
	if h.all {
		r.noteWrite(key, typ, nil)
	} else {
		for _, x := range h.refs {
			r.noteWrite(key, typ, x)
		}
		if h.freshOnly {
			r.noteWriteFresh(key, typ)
		}
	}
	f.layers = append(f.layers[:len(f.layers):len(f.layers)], layer{havoc: h})
}

func (r *Run) epoch(what string) string {
	r.fresh["epoch"]++
	ep := fmt.Sprintf("%s%d", what, r.fresh["epoch"])
	r.noteSym(ep)
	return ep
}

func fkey(t types.Type, name string) string { return typeName(t) + "." + name }

// load / store of a value of type t at pointer p.
func (r *Run) load(p Val, t types.Type) Val {
	switch p := p.(type) {
	case AddrV:
		return r.loadAddr(p, t)
	case *Term:
		if isStruct(t) {
			var s StructV
			for _, f := range structFields(t) {
				s.f = append(s.f, r.loadField(p, t, f))
			}
			return s
		}
		if a, ok := isArray(t); ok {
			var v ArrV
			for i := int64(0); i < a.Len(); i++ {
				v.e = append(v.e, r.loadElem(p, a.Elem(), r.c.Int(i)))
			}
			return v
		}
		// pointer to a plain cell
		return r.read("cell:"+typeName(t), t, p)
	}
	panic(unsupported{fmt.Sprintf("load through %T", p)})
}

func (r *Run) loadField(p *Term, owner types.Type, f fieldDesc) Val {
	if isStruct(f.typ) && !f.seq {
		return r.load(r.emb(owner, f.name, p), f.typ)
	}
	if _, ok := isArray(f.typ); ok {
		return r.load(r.emb(owner, f.name, p), f.typ)
	}
	return r.inv(owner, f, p, r.read(fkey(owner, f.name), f.typ, p))
}

func (r *Run) loadAddr(a AddrV, t types.Type) Val {
	if a.row {
		return r.loadElem(a.idx[0], t, a.idx[1])
	}
	v := r.read(a.key, t, a.idx...)
	if len(a.idx) == 1 {
		return r.invKey(a.key, t, v)
	}
	return v
}

func (r *Run) store(p Val, t types.Type, v Val) {
	switch p := p.(type) {
	case AddrV:
		if a := p; a.row {
			r.storeElem(a.idx[0], t, a.idx[1], v)
			return
		}
		r.write(p.key, t, v, p.idx...)
		return
	case *Term:
		if isStruct(t) {
			s, ok := v.(StructV)
			if !ok {
				panic(unsupported{fmt.Sprintf("store of %T", v)})
			}
			for i, f := range structFields(t) {
				r.storeField(p, t, f, s.f[i])
			}
			return
		}
		if a, ok := isArray(t); ok {
			s := v.(ArrV)
			for i := int64(0); i < a.Len(); i++ {
				r.storeElem(p, a.Elem(), r.c.Int(i), s.e[i])
			}
			return
		}
		r.write("cell:"+typeName(t), t, v, p)
		return
	}
	panic(unsupported{fmt.Sprintf("store through %T", p)})
}

func (r *Run) storeField(p *Term, owner types.Type, f fieldDesc, v Val) {
	if isStruct(f.typ) && !f.seq {
		r.store(r.emb(owner, f.name, p), f.typ, v)
		return
	}
	if _, ok := isArray(f.typ); ok {
		r.store(r.emb(owner, f.name, p), f.typ, v)
		return
	}
	r.write(fkey(owner, f.name), f.typ, v, p)
}

// ---- rows (backing arrays)

func rowKey(elem types.Type) string { return "row:" + typeName(elem) }

// components of a row element
func rowComps(elem types.Type) []string {
	switch elem.Underlying().(type) {
	case *types.Interface:
		return []string{".tag", ".val"}
	case *types.Slice:
		return []string{".ref"}
	}
	return []string{""}
}

// row returns the contents of a backing array as a sequence (of one component).
func (r *Run) row(elem types.Type, comp string, ref *Term) *Seq {
	key := rowKey(elem) + comp
	v := r.rowRead(key, elem, comp, ref)
	return v
}

// entryLim bounds the references found in an object that nothing has changed so far:
// they are no younger than the youngest object ref can denote.
func (r *Run) entryLim(ref *Term, lim *big.Int) *big.Int {
	b := baseRef(ref)
	if b.IsConst() {
		if l := r.freshObj[b.id]; l != nil {
			return l
		}
		return lim
	}
	if b.sort == SInt && (b.hi == nil || b.hi.Cmp(lim) > 0) {
		if b.hi == nil {
			return maxRef
		}
		return b.hi
	}
	return lim
}

func (r *Run) rowRead(key string, elem types.Type, comp string, ref *Term) *Seq {
	f := r.fieldOf(key, nil)
	es, lo, hi := r.esort(elem)
	mk := func(name string, lim *big.Int) *Seq {
		l, h := lo, hi
		if es == SInt && h == nil {
			l, h = bigZero, lim
			name += limSfx(lim)
		}
		return r.c.whole(r.c.Atom(name, []*Term{ref}, nil, AtomOpt{esort: es, lo: l, hi: h}))
	}
	for i := len(f.layers) - 1; i >= 0; i-- {
		L := &f.layers[i]
		if L.havoc != nil {
			if r.covers(L.havoc, []*Term{ref}) {
				return mk(f.key+"@"+L.havoc.epoch, L.havoc.lim)
			}
			continue
		}
		e := r.idxEq(L.idx, []*Term{ref})
		if e.IsTrue() {
			return L.val.(*Seq)
		}
		if e.IsFalse() {
			continue
		}
		if r.decide(e) {
			return L.val.(*Seq)
		}
	}
	lim := maxObj
	lim = r.entryLim(ref, lim)
	return mk(f.key+"@0", lim)
}

func (r *Run) setRow(elem types.Type, comp string, ref *Term, s *Seq) {
	r.write(rowKey(elem)+comp, nil, s, ref)
}

// content of a slice (component comp), as a sequence of length len
func (r *Run) content(s SliceV, elem types.Type, comp string) *Seq {
	if s.len.IsConst() && s.len.num.Sign() == 0 {
		return emptySeq
	}
	row := r.rowOf(s, elem, comp)
	for _, b := range r.bound {
		if (mentionsTerm(s.ref, b) || mentionsTerm(s.len, b)) && len(row.segs) == 1 && row.segs[0].atom != nil && row.segs[0].n == row.segs[0].atom.len {
			// under a quantifier: a slice lies within its array
			return r.c.slice(row.segs[0].atom, r.c.Add(row.segs[0].from, s.off), s.len)
		}
	}
	return r.sub(row, s.off, s.len)
}

// rowOf returns the row of a slice and makes sure that its length covers the capacity.
func (r *Run) rowOf(s SliceV, elem types.Type, comp string) *Seq {
	row := r.row(elem, comp, s.ref)
	if len(row.segs) == 1 && row.segs[0].atom != nil && strings.HasPrefix(row.segs[0].atom.fn, "row:") && row.segs[0].n == row.segs[0].atom.len {
		if len(r.bound) == 0 {
			f := r.c.Le(r.c.Add(s.off, s.cap), row.segs[0].n)
			if !s.isnil.IsFalse() {
				f = r.c.Or(s.isnil, f)
			}
			r.fact(f)
		}
	}
	return row
}

func (r *Run) loadElem(ref *Term, elem types.Type, i *Term) Val {
	if isStruct(elem) {
		return r.load(r.elemRef(elem, ref, i), elem)
	}
	if _, ok := isArray(elem); ok {
		return r.load(r.elemRef(elem, ref, i), elem)
	}
	switch elem.Underlying().(type) {
	case *types.Interface:
		return IfaceV{r.seqAt(r.row(elem, ".tag", ref), i), r.seqAt(r.row(elem, ".val", ref), i)}
	case *types.Slice, *types.Signature:
		panic(unsupported{"row of " + elem.String()})
	}
	if isString(elem) {
		return r.read("rowstr:", types.Typ[types.String], ref, i)
	}
	return r.seqAt(r.row(elem, "", ref), i)
}

func (r *Run) storeElem(ref *Term, elem types.Type, i *Term, v Val) {
	if isStruct(elem) {
		r.store(r.elemRef(elem, ref, i), elem, v)
		return
	}
	if isString(elem) {
		r.write("rowstr:", types.Typ[types.String], v, ref, i)
		return
	}
	r.aliasCheck(elem, ref)
	upd := func(comp string, x *Term) {
		row := r.row(elem, comp, ref)
		a, b := r.split(row, i)
		r.setRow(elem, comp, ref, r.c.Cat(a, r.c.unit(x), r.drop(b, r.c.One)))
	}
	switch v := v.(type) {
	case IfaceV:
		upd(".tag", v.tag)
		upd(".val", r.box(v.val))
	case *Term:
		upd("", v)
	default:
		panic(unsupported{fmt.Sprintf("store of %T into a row", v)})
	}
}

// aliasCheck: a bytes.Reader keeps a view of the bytes it was created over.
func (r *Run) aliasCheck(elem types.Type, ref *Term) {
	if ii, ok := intType(elem); !ok || ii.bits != 8 {
		return
	}
	for _, x := range r.readers {
		e := r.refEq(x, ref)
		if e.IsFalse() {
			continue
		}
		r.safety("write to bytes under a reader", token.NoPos, r.c.Not(e))
	}
}

func (r *Run) payloadEq(a, b Val) *Term {
	x, ok := a.(BoxV)
	y, ok2 := b.(BoxV)
	if ok && ok2 && typeName(x.typ) == typeName(y.typ) {
		return r.c.Eq(x.t, y.t)
	}
	return r.refEq(r.box(a), r.box(b))
}

// box turns a value into a term (payload of an interface in the heap).
func (r *Run) box(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		switch {
		case v.sort == SInt:
			return v
		case v.sort == SBool:
			return r.c.Ite(v, r.c.One, r.c.Zero)
		default:
			return r.c.BV2Int(v, false)
		}
	case *Seq:
		return r.c.App("boxstr", SInt, bigZero, maxRef, r.c.SeqID(v))
	case BoxV:
		return r.c.App("box!"+typeName(v.typ), SInt, bigZero, maxRef, v.t)
	case FuncV:
		if v.sym != nil {
			return v.sym
		}
		return r.c.Int(int64(-5000 - r.t.E.fnID(v.fn)))
	}
	return r.freshInt("box", bigZero, maxRef)
}

func (E *Engine) fnID(f *ssa.Function) int {
	E.mu.Lock()
	defer E.mu.Unlock()
	if f == nil {
		return 0
	}
	n := f.String()
	if id, ok := E.fns[n]; ok {
		return id
	}
	E.fns[n] = len(E.fns) + 1
	return E.fns[n]
}

func sortedKeys(m map[string]*field) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func mentionsTerm(t, b *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == b {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
