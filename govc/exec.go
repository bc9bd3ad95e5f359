package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Symbolic execution of SSA. One Run explores one path; forks are replayed
// from the task's choice list.

const maxInline = 24
const maxUnroll = 20

func (r *Run) val(v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return r.constant(v)
	case *ssa.Global:
		return r.global(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return BuiltinV{v.Name()}
	}
	x, ok := r.fr.env[v]
	if !ok {
		panic(unsupported{fmt.Sprintf("no value for %s in %s", v.Name(), r.fr.fn)})
	}
	return x
}

func (r *Run) global(g *ssa.Global) Val {
	t := g.Type().(*types.Pointer).Elem()
	if isStruct(t) {
		return r.c.Int(int64(500000 + r.t.E.fnIDs("glob:"+g.String())))
	}
	return AddrV{key: "global:" + g.Pkg.Pkg.Name() + "." + g.Name(), typ: t}
}

func (E *Engine) fnIDs(n string) int {
	E.mu.Lock()
	defer E.mu.Unlock()
	if id, ok := E.fns[n]; ok {
		return id
	}
	E.fns[n] = len(E.fns) + 1
	return E.fns[n]
}

func (r *Run) intConst(b *big.Int, t types.Type) *Term {
	ii, ok := intType(t)
	if ok && r.isBV(t) {
		return r.c.BVc(b, ii.bits)
	}
	return r.c.Big(b)
}

func (r *Run) strConst(s string) *Seq {
	out := &Seq{}
	for i := 0; i < len(s); i++ {
		out.segs = append(out.segs, Seg{unit: r.intConst(big.NewInt(int64(s[i])), byteT)})
	}
	return out
}

func (r *Run) constant(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return r.zero(t)
	}
	switch {
	case isBool(t):
		return r.c.Bool(constant.BoolVal(k.Value))
	case isString(t):
		return r.strConst(constant.StringVal(k.Value))
	case isFloat(t):
		f, _ := constant.Float64Val(k.Value)
		return r.c.BVc(new(big.Int).SetUint64(math.Float64bits(f)), 64)
	}
	if _, ok := intType(t); ok {
		x := constant.ToInt(k.Value)
		b, ok := new(big.Int).SetString(x.ExactString(), 10)
		if !ok {
			panic(unsupported{"constant " + k.String()})
		}
		return r.intConst(b, t)
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		panic(unsupported{"interface constant"})
	}
	panic(unsupported{"constant of type " + t.String()})
}

// callFn executes the body of fn (inlined).
func (r *Run) callFn(fn *ssa.Function, args []Val, bind []Val, path string) []Val {
	if fn.Blocks == nil {
		panic(unsupported{"no body for " + shortName(fn)})
	}
	if r.depth > maxInline {
		panic(unsupported{"inlining too deep (recursion without a contract?) at " + shortName(fn)})
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Val{}, path: path, parent: r.fr, iter: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		panic(unsupported{fmt.Sprintf("call of %s with %d arguments", shortName(fn), len(args))})
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	save := r.fr
	nc := len(r.cuts)
	r.fr = fr
	r.depth++
	r.runBlocks(fr)
	r.depth--
	r.fr = save
	r.exited = append(r.exited, r.cuts[nc:]...)
	r.cuts = r.cuts[:nc]
	return fr.results
}

func (r *Run) runBlocks(fr *frame) {
	lf := r.t.P.loopsOf(fr.fn)
	var prev *ssa.BasicBlock
	b := fr.fn.Blocks[0]
	for {
		// leaving cut loops
		for len(r.cuts) > 0 {
			k := r.cuts[len(r.cuts)-1]
			if k.fr == fr && !k.li.blocks[b] {
				if k.any {
					panic(pathEnd{"left by an arbitrary iteration"})
				}
				r.exited = append(r.exited, k)
				r.cuts = r.cuts[:len(r.cuts)-1]
			} else {
				break
			}
		}
		li := lf.byHeader[b]
		handled := false
		if li != nil && prev != nil {
			handled = r.loopHeader(fr, li, prev)
		}
		i := 0
		if prev != nil {
			// phis are evaluated in parallel
			var ph []*ssa.Phi
			var vs []Val
			for ; i < len(b.Instrs); i++ {
				p, ok := b.Instrs[i].(*ssa.Phi)
				if !ok {
					if _, dbg := b.Instrs[i].(*ssa.DebugRef); dbg {
						continue
					}
					break
				}
				if !handled {
					ph = append(ph, p)
					vs = append(vs, r.val(p.Edges[predIndex(b, prev)]))
				}
			}
			for j, p := range ph {
				fr.env[p] = vs[j]
			}
		}
		var next *ssa.BasicBlock
		for ; i < len(b.Instrs); i++ {
			r.steps++
			if r.steps > 400000 {
				panic(unsupported{"path too long"})
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.If:
				if r.decide(r.val(in.Cond).(*Term)) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				for _, x := range in.Results {
					fr.results = append(fr.results, r.val(x))
				}
				return
			case *ssa.Panic:
				r.safety("reachable panic", in.Pos(), r.c.F)
				panic(pathEnd{"panic"})
			default:
				r.instr(in)
			}
		}
		prev, b = b, next
	}
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	panic("predIndex")
}

func (r *Run) nonNil(p *Term, pos token.Pos, what string) {
	if isEmb(p) {
		return
	}
	g := r.c.Not(r.refEq(p, r.c.Zero))
	if r.fr != nil && !g.IsTrue() {
		what = what + " " + r.t.P.describe(r.fr.fn, pos)
	}
	r.safety("nil dereference"+what, pos, g)
}

func (P *Program) describe(fn *ssa.Function, pos token.Pos) string { return "" }

func (r *Run) instr(in ssa.Instruction) {
	fr := r.fr
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[in] = r.allocVal(in.Type().(*types.Pointer).Elem())
	case *ssa.BinOp:
		fr.env[in] = r.binop(in.Op, r.val(in.X), r.val(in.Y), in.X.Type(), in.Y.Type(), in.Type(), in.Pos())
	case *ssa.UnOp:
		fr.env[in] = r.unop(in)
	case *ssa.Call:
		fr.env[in] = r.call(&in.Call, in, in.Type())
	case *ssa.ChangeType:
		fr.env[in] = r.val(in.X)
	case *ssa.ChangeInterface:
		fr.env[in] = r.val(in.X)
	case *ssa.Convert:
		fr.env[in] = r.convert(r.val(in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		fr.env[in] = r.val(in.Tuple).(TupleV).e[in.Index]
	case *ssa.Field:
		fr.env[in] = r.val(in.X).(StructV).f[in.Field]
	case *ssa.FieldAddr:
		p := r.val(in.X)
		pt, ok := p.(*Term)
		if !ok {
			panic(unsupported{fmt.Sprintf("field of %T", p)})
		}
		r.nonNil(pt, in.Pos(), "")
		owner := in.X.Type().Underlying().(*types.Pointer).Elem()
		fs := structFields(owner)
		if fs == nil {
			panic(unsupported{"field of " + owner.String()})
		}
		f := fs[in.Field]
		if _, arr := isArray(f.typ); !f.seq && (isStruct(f.typ) || arr) {
			fr.env[in] = r.emb(owner, f.name, pt)
		} else {
			fr.env[in] = AddrV{key: fkey(owner, f.name), idx: []*Term{pt}, typ: f.typ}
		}
	case *ssa.Index:
		x := r.val(in.X)
		i := r.intOf(r.val(in.Index))
		switch x := x.(type) {
		case ArrV:
			r.bounds(i, r.c.Int(int64(len(x.e))), in.Pos())
			if k, ok := r.concrete(i, int64(len(x.e))); ok {
				fr.env[in] = x.e[k]
				return
			}
			panic(pathEnd{"infeasible"})
		case *Seq:
			r.bounds(i, r.c.SeqLen(x), in.Pos())
			fr.env[in] = r.seqAt(x, i)
		default:
			panic(unsupported{"index"})
		}
	case *ssa.IndexAddr:
		x := r.val(in.X)
		i := r.intOf(r.val(in.Index))
		elem := in.Type().(*types.Pointer).Elem()
		switch x := x.(type) {
		case SliceV:
			r.bounds(i, x.len, in.Pos())
			fr.env[in] = r.elemAddr(x.ref, elem, r.c.Add(x.off, i))
		case *Term:
			r.nonNil(x, in.Pos(), "")
			a, _ := isArray(in.X.Type().Underlying().(*types.Pointer).Elem())
			r.bounds(i, r.c.Int(a.Len()), in.Pos())
			fr.env[in] = r.elemAddr(x, elem, i)
		default:
			panic(unsupported{"index address"})
		}
	case *ssa.Lookup:
		fr.env[in] = r.lookup(in)
	case *ssa.MakeClosure:
		f := FuncV{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, r.val(b))
		}
		fr.env[in] = f
	case *ssa.MakeInterface:
		v := r.val(in.X)
		if t, ok := v.(*Term); ok && !isRefType(in.X.Type()) {
			v = BoxV{t, in.X.Type()}
		}
		fr.env[in] = IfaceV{r.tagOf(in.X.Type()), v}
	case *ssa.MakeMap:
		ref := r.newRef()
		r.zeroed[ref.id] = true
		fr.env[in] = ref
		r.madeMaps = append(r.madeMaps, madeMap{ref, in.Type().Underlying().(*types.Map)})
	case *ssa.MakeChan:
		fr.env[in] = r.newRef()
	case *ssa.MakeSlice:
		fr.env[in] = r.makeSlice(in.Type(), r.intOf(r.val(in.Len)), r.intOf(r.val(in.Cap)), in.Pos())
	case *ssa.MapUpdate:
		m := r.val(in.Map).(*Term)
		if r.spec == 0 {
			r.safety("write to a nil map", in.Pos(), r.c.Not(r.c.Eq(m, r.c.Zero)))
		}
		r.checkMapInv(in.Map.Type().Underlying().(*types.Map), r.val(in.Key), r.val(in.Value))
		r.mapUpdate(in.Map.Type().Underlying().(*types.Map), m, r.val(in.Key), r.val(in.Value))
	case *ssa.Range:
		fr.env[in] = r.rangeStart(in)
	case *ssa.Next:
		fr.env[in] = r.rangeNext(in)
	case *ssa.RunDefers:
	case *ssa.Slice:
		fr.env[in] = r.slice(in)
	case *ssa.Store:
		p := r.val(in.Addr)
		t := in.Addr.Type().Underlying().(*types.Pointer).Elem()
		if pt, ok := p.(*Term); ok {
			r.nonNil(pt, in.Pos(), "")
		}
		v := r.val(in.Val)
		r.checkInv(p, t, v, in.Pos())
		r.store(p, t, v)
	case *ssa.TypeAssert:
		fr.env[in] = r.typeAssert(in)
	case *ssa.Go:
		panic(unsupported{"go statement"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
}

func (r *Run) allocVal(t types.Type) Val {
	ref := r.newRef()
	r.zeroed[ref.id] = true
	r.noteAlloc(ref, t)
	if a, ok := isArray(t); ok {
		r.zeroRow(ref, a.Elem(), r.c.Int(a.Len()))
		return ref
	}
	if isStruct(t) {
		return ref
	}
	return AddrV{key: "cell:" + typeName(t), idx: []*Term{ref}, typ: t}
}

func (r *Run) zeroRow(ref *Term, elem types.Type, n *Term) {
	if isStruct(elem) || isString(elem) {
		return
	}
	if _, ok := isArray(elem); ok {
		return
	}
	switch z := r.zero(elem).(type) {
	case *Term:
		r.setRow(elem, "", ref, r.c.rep(z, n))
	case IfaceV:
		r.setRow(elem, ".tag", ref, r.c.rep(r.c.Zero, n))
		r.setRow(elem, ".val", ref, r.c.rep(r.c.Zero, n))
	}
}

func (r *Run) elemAddr(ref *Term, elem types.Type, i *Term) Val {
	if _, arr := isArray(elem); arr || isStruct(elem) {
		return r.elemRef(elem, ref, i)
	}
	return AddrV{row: true, idx: []*Term{ref, i}, typ: elem}
}

func (r *Run) bounds(i, n *Term, pos token.Pos) {
	c := r.c
	r.safety("index out of range", pos, c.And(c.Le(c.Zero, i), c.Lt(i, n)))
}

// concrete forks over the values of a small index.
func (r *Run) concrete(i *Term, n int64) (int64, bool) {
	if k, ok := i.Int64(); ok {
		return k, true
	}
	for k := int64(0); k < n; k++ {
		if r.decide(r.c.Eq(i, r.c.Int(k))) {
			return k, true
		}
	}
	return 0, false
}

// intOf turns an index/length operand into an Int term.
func (r *Run) intOf(v Val) *Term {
	t := v.(*Term)
	if t.sort > 0 {
		return r.c.BV2Int(t, false)
	}
	return t
}

func (r *Run) makeSlice(t types.Type, n, cap *Term, pos token.Pos) Val {
	c := r.c
	r.safety("makeslice: len out of range", pos, c.And(c.Le(c.Zero, n), c.Le(n, cap), c.Le(cap, c.Big(maxLen))))
	ref := r.newRef()
	r.zeroed[ref.id] = true
	elem := t.Underlying().(*types.Slice).Elem()
	r.zeroRow(ref, elem, cap)
	r.allocSize(n, pos)
	return SliceV{ref, c.Zero, n, cap, c.F}
}

func (r *Run) slice(in *ssa.Slice) Val {
	c := r.c
	x := r.val(in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return r.intOf(r.val(v))
	}
	switch x := x.(type) {
	case SliceV:
		lo, hi := get(in.Low, c.Zero), get(in.High, x.len)
		cp := x.cap
		if in.Max != nil {
			cp = get(in.Max, nil)
		}
		r.safety("slice bounds out of range", in.Pos(), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, cp), c.Le(cp, x.cap)))
		return SliceV{x.ref, c.Add(x.off, lo), c.Sub(hi, lo), c.Sub(cp, lo), x.isnil}
	case *Term:
		r.nonNil(x, in.Pos(), "")
		a, _ := isArray(in.X.Type().Underlying().(*types.Pointer).Elem())
		n := c.Int(a.Len())
		lo, hi := get(in.Low, c.Zero), get(in.High, n)
		r.safety("slice bounds out of range", in.Pos(), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, n)))
		return SliceV{x, lo, c.Sub(hi, lo), c.Sub(n, lo), c.F}
	case *Seq:
		n := c.SeqLen(x)
		lo, hi := get(in.Low, c.Zero), get(in.High, n)
		r.safety("slice bounds out of range", in.Pos(), c.And(c.Le(c.Zero, lo), c.Le(lo, hi), c.Le(hi, n)))
		return r.sub(x, lo, c.Sub(hi, lo))
	}
	panic(unsupported{"slice"})
}

func (r *Run) unop(in *ssa.UnOp) Val {
	c := r.c
	switch in.Op {
	case token.MUL:
		p := r.val(in.X)
		if t, ok := p.(*Term); ok {
			r.nonNil(t, in.Pos(), "")
		}
		return r.load(p, in.Type())
	case token.NOT:
		return c.Not(r.val(in.X).(*Term))
	case token.SUB:
		x := r.val(in.X).(*Term)
		if isFloat(in.Type()) {
			return c.bvOp("bvxor", 64, x, c.BVc(pow2(63), 64))
		}
		if x.sort > 0 {
			return c.bvOp("bvneg", x.sort, x)
		}
		return r.wrap(c.Scale(x, big.NewInt(-1)), in.Type())
	case token.XOR:
		x := r.val(in.X).(*Term)
		if x.sort > 0 {
			return c.bvOp("bvnot", x.sort, x)
		}
		ii, _ := intType(in.Type())
		if ii.signed {
			return c.Sub(c.Int(-1), x)
		}
		return c.Sub(c.Big(ii.hi()), x)
	}
	panic(unsupported{"unary " + in.Op.String()})
}

// wrap reduces a mathematical result to the range of an integer type.
func (r *Run) wrap(t *Term, typ types.Type) *Term {
	ii, ok := intType(typ)
	if !ok || inRange(t, ii.lo(), ii.hi()) {
		return t
	}
	c := r.c
	in := c.And(c.Le(c.Big(ii.lo()), t), c.Le(t, c.Big(ii.hi())))
	if len(r.bound) == 0 && r.known(in) == 1 {
		return t
	}
	if ii.signed {
		h := pow2(uint(ii.bits - 1))
		return c.Sub(c.Mod(c.Add(t, c.Big(h)), pow2(uint(ii.bits))), c.Big(h))
	}
	return c.Mod(t, pow2(uint(ii.bits)))
}

func trailingZeros(t *Term) uint {
	if t.op == OConst {
		if t.num.Sign() == 0 {
			return 1 << 20
		}
		return t.num.TrailingZeroBits()
	}
	if t.op == OLin {
		n := uint(1 << 20)
		if t.num.Sign() != 0 {
			n = t.num.TrailingZeroBits()
		}
		for i, k := range t.coefs {
			z := k.TrailingZeroBits() + trailingZeros(t.args[i])
			if z < n {
				n = z
			}
		}
		return n
	}
	if t.op == OMod {
		z := trailingZeros(t.args[0])
		if m := t.num.TrailingZeroBits(); m < z && new(big.Int).Lsh(bigOne, m).Cmp(t.num) == 0 {
			return z
		}
		return 0
	}
	return 0
}

func (r *Run) binop(op token.Token, xv, yv Val, xt, yt, rt types.Type, pos token.Pos) Val {
	c := r.c
	switch op {
	case token.EQL, token.NEQ:
		e := r.equal(xv, yv, xt)
		if op == token.NEQ {
			e = c.Not(e)
		}
		return e
	}
	if isString(xt) {
		x, y := xv.(*Seq), yv.(*Seq)
		switch op {
		case token.ADD:
			return c.Cat(x, y)
		}
		return r.freshVal(rt, "strcmp", true)
	}
	x, y := xv.(*Term), yv.(*Term)
	if isFloat(xt) {
		return r.floatOp(op, x, y)
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	ii, _ := intType(xt)
	if op == token.SHL || op == token.SHR {
		return r.shift(op, x, y, xt, yt, pos)
	}
	if x.sort > 0 {
		s := x.sort
		switch op {
		case token.ADD:
			return c.bvOp("bvadd", s, x, y)
		case token.SUB:
			return c.bvOp("bvsub", s, x, y)
		case token.MUL:
			return c.bvOp("bvmul", s, x, y)
		case token.AND:
			return c.bvOp("bvand", s, x, y)
		case token.OR:
			return c.bvOp("bvor", s, x, y)
		case token.XOR:
			return c.bvOp("bvxor", s, x, y)
		case token.AND_NOT:
			return c.bvOp("bvand", s, x, c.bvOp("bvnot", s, y))
		case token.LSS:
			return c.bvOp("bvult", SBool, x, y)
		case token.LEQ:
			return c.bvOp("bvule", SBool, x, y)
		case token.GTR:
			return c.bvOp("bvult", SBool, y, x)
		case token.GEQ:
			return c.bvOp("bvule", SBool, y, x)
		}
		panic(unsupported{"bit vector " + op.String()})
	}
	switch op {
	case token.ADD:
		return r.wrap(c.Add(x, y), rt)
	case token.SUB:
		return r.wrap(c.Sub(x, y), rt)
	case token.MUL:
		return r.wrap(c.Mul(x, y), rt)
	case token.QUO, token.REM:
		r.safety("division by zero", pos, c.Not(c.Eq(y, c.Zero)))
		if y.IsConst() && y.num.Sign() > 0 {
			q := c.Div(x, y.num)
			if x.lo == nil || x.lo.Sign() < 0 {
				neg := c.Scale(c.Div(c.Scale(x, big.NewInt(-1)), y.num), big.NewInt(-1))
				q = c.Ite(c.Le(c.Zero, x), q, neg)
			}
			if op == token.QUO {
				return q
			}
			return c.Sub(x, c.Scale(q, y.num))
		}
		panic(unsupported{"division by a variable"})
	case token.LSS:
		return c.Lt(x, y)
	case token.LEQ:
		return c.Le(x, y)
	case token.GTR:
		return c.Lt(y, x)
	case token.GEQ:
		return c.Le(y, x)
	case token.AND, token.AND_NOT:
		if x.IsConst() && !y.IsConst() && op == token.AND {
			x, y = y, x
		}
		if y.IsConst() {
			m := y.num
			if op == token.AND_NOT {
				m = new(big.Int).Not(m)
			}
			return r.andConst(x, m, ii)
		}
	case token.OR:
		if x.IsConst() && !y.IsConst() {
			x, y = y, x
		}
		if x.IsConst() && y.IsConst() {
			return c.Big(new(big.Int).Or(x.num, y.num))
		}
		for i := 0; i < 2; i++ {
			z := trailingZeros(x)
			if z > 0 && y.lo != nil && y.lo.Sign() >= 0 && y.hi != nil && uint(y.hi.BitLen()) <= z {
				return c.Add(x, y)
			}
			x, y = y, x
		}
		if y.IsConst() && y.num.Sign() >= 0 {
			// x | m = x - (x & m) + m
			return c.Add(c.Sub(x, r.andConst(x, y.num, ii)), y)
		}
		for i := 0; i < 2; i++ {
			z := trailingZeros(x)
			if z > 0 && z < 64 && r.known(c.And(c.Le(c.Zero, y), c.Lt(y, c.Big(pow2(z))))) == 1 {
				return c.Add(x, y)
			}
			x, y = y, x
		}
	case token.XOR:
		if x.IsConst() && !y.IsConst() {
			x, y = y, x
		}
		if y.IsConst() && y.num.Sign() >= 0 {
			// x ^ m = x + m - 2 (x & m)
			return c.Add(x, y, c.Scale(r.andConst(x, y.num, ii), big.NewInt(-2)))
		}
	}
	if r.spec == 0 && (op == token.OR || op == token.AND || op == token.XOR || op == token.AND_NOT) {
		// an unknown value of the type
		lo, hi := new(big.Int), new(big.Int).Sub(pow2(uint(ii.bits)), big.NewInt(1))
		if ii.signed {
			hi.Rsh(hi, 1)
			lo.Sub(lo.Neg(hi), big.NewInt(1))
		}
		z := r.freshInt("bitop", lo, hi)
		if op == token.OR {
			nn := c.And(c.Le(c.Zero, x), c.Le(c.Zero, y))
			r.assume(c.Imp(nn, c.And(c.Le(x, z), c.Le(y, z), c.Le(z, c.Add(x, y)))))
		}
		return z
	}
	panic(unsupported{fmt.Sprintf("%s on mathematical integers at %s", op, r.where(pos))})
}

// andConst: x & m for a constant m (two's complement).
func (r *Run) andConst(x *Term, m *big.Int, ii intInfo) *Term {
	c := r.c
	if x.IsConst() {
		return c.Big(new(big.Int).And(x.num, m))
	}
	if m.Sign() < 0 {
		// infinitely many leading ones: x & m = x - (x & ^m)
		return c.Sub(x, r.andConst(x, new(big.Int).Not(m), ii))
	}
	out := c.Zero
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		out = c.Add(out, c.Scale(c.Mod(c.Div(x, pow2(uint(i))), pow2(uint(j-i))), pow2(uint(i))))
		i = j
	}
	return out
}

func (r *Run) shift(op token.Token, x, y *Term, xt, yt types.Type, pos token.Pos) Val {
	c := r.c
	ii, _ := intType(xt)
	if x.sort > 0 {
		w := int(x.sort)
		var k *Term
		if y.sort > 0 {
			if int(y.sort) > w {
				panic(unsupported{"wide shift count"})
			}
			k = c.Resize(y, w, false)
		} else {
			if !y.IsConst() {
				panic(unsupported{"symbolic shift count"})
			}
			n := y.num
			if n.Cmp(big.NewInt(int64(w))) > 0 {
				n = big.NewInt(int64(w))
			}
			k = c.BVc(n, w)
			if n.Int64() >= int64(w) {
				return c.BVc(bigZero, w)
			}
		}
		if op == token.SHL {
			return c.bvOp("bvshl", x.sort, x, k)
		}
		return c.bvOp("bvlshr", x.sort, x, k)
	}
	yi := r.intOf(y)
	if yt2, ok := intType(yt); ok && yt2.signed {
		r.safety("negative shift", pos, c.Le(c.Zero, yi))
	}
	k, ok := yi.Int64()
	if !ok {
		k, ok = r.concrete(yi, 65)
		if !ok {
			panic(unsupported{"shift count"})
		}
	}
	if k > 64 {
		k = 64
	}
	if op == token.SHL {
		if k >= int64(ii.bits) {
			return c.Zero
		}
		return r.wrap(c.Scale(x, pow2(uint(k))), xt)
	}
	return c.Div(x, pow2(uint(k)))
}

// float64 values are their bit patterns.
func (r *Run) floatOp(op token.Token, x, y *Term) Val {
	c := r.c
	neg := func(t *Term) *Term {
		return c.Eq(c.bvOp("bvlshr", 64, t, c.BVc(big.NewInt(63), 64)), c.BVc(bigOne, 64))
	}
	if y.IsConst() && y.num.Sign() == 0 {
		isz := r.fZero(x)
		nan := r.fNaN(x)
		switch op {
		case token.LSS:
			return c.And(neg(x), c.Not(isz), c.Not(nan))
		case token.LEQ:
			return c.And(c.Not(nan), c.Or(neg(x), isz))
		case token.GTR:
			return c.And(c.Not(neg(x)), c.Not(isz), c.Not(nan))
		case token.GEQ:
			return c.And(c.Not(nan), c.Or(c.Not(neg(x)), isz))
		}
	}
	panic(unsupported{"float operation " + op.String()})
}
func (r *Run) fAbs(x *Term) *Term {
	return r.c.bvOp("bvand", 64, x, r.c.BVc(new(big.Int).Sub(pow2(63), bigOne), 64))
}
func (r *Run) fZero(x *Term) *Term { return r.c.Eq(r.fAbs(x), r.c.BVc(bigZero, 64)) }

var infBits = new(big.Int).SetUint64(0x7FF0000000000000)

func (r *Run) fNaN(x *Term) *Term {
	return r.c.bvOp("bvult", SBool, r.c.BVc(infBits, 64), r.fAbs(x))
}
func (r *Run) fEq(x, y *Term) *Term {
	c := r.c
	return c.And(c.Not(r.fNaN(x)), c.Not(r.fNaN(y)), c.Or(c.Eq(x, y), c.And(r.fZero(x), r.fZero(y))))
}

// equal is Go's ==.
func (r *Run) equal(a, b Val, t types.Type) *Term {
	c := r.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		if t != nil && isFloat(t) {
			return r.fEq(x, y)
		}
		if t != nil && isRefType(t) {
			return r.refEq(x, y)
		}
		return c.Eq(x, y)
	case *Seq:
		y := b.(*Seq)
		if x.key() == y.key() {
			return c.T
		}
		if len(x.segs) == 0 || len(y.segs) == 0 {
			return c.Le(c.Add(c.SeqLen(x), c.SeqLen(y)), c.Zero)
		}
		lx, okx := c.SeqLen(x).Int64()
		ly, oky := c.SeqLen(y).Int64()
		if okx && oky && lx == ly && lx < 64 {
			e := c.T
			for i := int64(0); i < lx; i++ {
				e = c.And(e, c.Eq(r.seqAt(x, c.Int(i)), r.seqAt(y, c.Int(i))))
			}
			return e
		}
		return c.App("streq", SBool, nil, nil, c.SeqID(x), c.SeqID(y))
	case SliceV: // only against nil
		y := b.(SliceV)
		if y.isnil.IsTrue() {
			return x.isnil
		}
		return y.isnil
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			break
		}
		if y.tag.IsConst() && y.tag.num.Sign() == 0 {
			return c.Eq(x.tag, c.Zero)
		}
		if x.tag.IsConst() && x.tag.num.Sign() == 0 {
			return c.Eq(y.tag, c.Zero)
		}
		return c.And(c.Eq(x.tag, y.tag), r.payloadEq(x.val, y.val))
	case FuncV:
		y := b.(FuncV)
		n := func(f FuncV) *Term {
			if f.sym != nil {
				return c.Eq(f.sym, c.Zero)
			}
			return c.F
		}
		if y.sym != nil && y.sym.IsConst() {
			return n(x)
		}
		if x.sym != nil && x.sym.IsConst() {
			return n(y)
		}
	case StructV:
		y := b.(StructV)
		fs := structFields(t)
		e := c.T
		for i := range x.f {
			e = c.And(e, r.equal(x.f[i], y.f[i], fs[i].typ))
		}
		return e
	case AddrV:
		if y, ok := b.(*Term); ok && y.IsConst() {
			return c.F
		}
	}
	if y, ok := b.(AddrV); ok {
		_ = y
		return c.F
	}
	panic(unsupported{fmt.Sprintf("comparison of %T and %T", a, b)})
}

func (r *Run) convert(v Val, from, to types.Type) Val {
	c := r.c
	fi, fok := intType(from)
	ti, tok := intType(to)
	switch {
	case fok && tok:
		x := v.(*Term)
		if r.isBV(from) {
			if r.isBV(to) {
				return c.Resize(x, ti.bits, false)
			}
			return r.wrap(c.BV2Int(x, false), to)
		}
		if r.isBV(to) {
			return c.Int2BV(x, ti.bits)
		}
		if fi == ti {
			return x
		}
		return r.wrap(x, to)
	case isString(from) && isString(to):
		return v
	case isString(from):
		if st, ok := to.Underlying().(*types.Slice); ok {
			s := v.(*Seq)
			ref := r.newRef()
			n := c.SeqLen(s)
			r.setRow(st.Elem(), "", ref, s)
			return SliceV{ref, c.Zero, n, n, c.F}
		}
	case isString(to):
		if st, ok := from.Underlying().(*types.Slice); ok {
			return r.content(v.(SliceV), st.Elem(), "")
		}
		return r.freshVal(to, "str", true)
	case isFloat(from) && isFloat(to):
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	panic(unsupported{fmt.Sprintf("conversion %s -> %s", from, to)})
}

func (r *Run) typeAssert(in *ssa.TypeAssert) Val {
	c := r.c
	x, ok := r.val(in.X).(IfaceV)
	if !ok {
		panic(unsupported{"type assertion"})
	}
	var cond *Term
	var v Val
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		v = x
		if k, isc := x.tag.Int64(); isc {
			if k == 0 {
				cond = c.F
			} else {
				t := r.t.E.tagT[k]
				cond = c.Bool(types.Implements(t, it))
			}
		} else if types.IsInterface(in.X.Type()) && types.Implements(in.X.Type(), it) {
			cond = c.Not(c.Eq(x.tag, c.Zero))
		} else {
			cond = c.F
			for _, t := range r.t.P.implementers(it) {
				cond = c.Or(cond, c.Eq(x.tag, r.tagOf(t)))
			}
		}
	} else {
		cond = c.Eq(x.tag, r.tagOf(in.AssertedType))
		v = r.unbox(x, in.AssertedType)
	}
	if in.CommaOk {
		if r.decide(cond) {
			return TupleV{[]Val{v, c.T}}
		}
		return TupleV{[]Val{r.zero(in.AssertedType), c.F}}
	}
	r.safety("failing type assertion", in.Pos(), cond)
	return v
}

func (r *Run) unbox(x IfaceV, t types.Type) Val {
	switch v := x.val.(type) {
	case *Term:
		if isRefType(t) {
			return v
		}
		if v.op == OApp && len(v.args) == 1 && v.name == "box!"+typeName(t) {
			return v.args[0]
		}
		return r.symVal(t, "unbox!"+typeName(t), []*Term{v}, r.limit())
	case BoxV:
		if typeName(v.typ) != typeName(t) {
			return r.symVal(t, "unbox!"+typeName(t), []*Term{r.box(v)}, r.limit())
		}
		return v.t
	default:
		return v
	}
}
