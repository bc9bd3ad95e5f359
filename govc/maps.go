package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Maps: domain and values as heap functions of (map, key).

func (r *Run) keyTerms(k Val) []*Term {
	switch k := k.(type) {
	case *Term:
		if k.sort == SInt {
			return []*Term{k}
		}
		return []*Term{r.box(k)}
	case *Seq:
		return []*Term{r.box(k)}
	case IfaceV:
		return []*Term{k.tag, r.box(k.val)}
	}
	panic(unsupported{fmt.Sprintf("map key %T", k)})
}

func mapName(mt *types.Map) string { return typeName(mt) }

func (r *Run) mapHas(mt *types.Map, m *Term, k Val) *Term {
	idx := append([]*Term{m}, r.keyTerms(k)...)
	in := r.read("mapdom:"+mapName(mt), types.Typ[types.Bool], idx...).(*Term)
	if m.IsConst() && m.num.Sign() == 0 {
		return r.c.F
	}
	has := in
	if !m.IsConst() && !in.IsFalse() {
		// a nil map has no entries
		has = r.c.And(in, r.c.Not(r.c.Eq(m, r.c.Zero)))
	}
	// a map with an entry is not empty
	if len(r.bound) == 0 && !has.IsTrue() && !has.IsFalse() {
		r.fact(r.c.Imp(has, r.c.Le(r.c.One, r.read("maplen:"+mapName(mt), seqLenT, m).(*Term))))
	}
	return has
}

func (r *Run) mapGet(mt *types.Map, m *Term, k Val) Val {
	idx := append([]*Term{m}, r.keyTerms(k)...)
	return r.mapInv(mt, m, k, r.read("mapval:"+mapName(mt), mt.Elem(), idx...))
}

func (r *Run) mapLen(mt *types.Map, m *Term) *Term {
	if m.IsConst() && m.num.Sign() == 0 {
		return r.c.Zero
	}
	t := r.read("maplen:"+mapName(mt), seqLenT, m).(*Term)
	r.fact(r.c.Le(r.c.Zero, t))
	return t
}

var seqLenT types.Type = types.Typ[types.Int]

func (r *Run) mapUpdate(mt *types.Map, m *Term, k, v Val) {
	c := r.c
	idx := append([]*Term{m}, r.keyTerms(k)...)
	has := r.mapHas(mt, m, k)
	n := r.mapLen(mt, m)
	r.write("maplen:"+mapName(mt), seqLenT, c.Add(n, c.Ite(has, c.Zero, c.One)), m)
	r.write("mapdom:"+mapName(mt), types.Typ[types.Bool], c.T, idx...)
	r.write("mapval:"+mapName(mt), mt.Elem(), v, idx...)
}

func (r *Run) mapDelete(mt *types.Map, m *Term, k Val) {
	c := r.c
	if m.IsConst() && m.num.Sign() == 0 {
		return
	}
	idx := append([]*Term{m}, r.keyTerms(k)...)
	has := r.mapHas(mt, m, k)
	n := r.mapLen(mt, m)
	r.write("maplen:"+mapName(mt), seqLenT, c.Sub(n, c.Ite(has, c.One, c.Zero)), m)
	r.write("mapdom:"+mapName(mt), types.Typ[types.Bool], c.F, idx...)
}

func (r *Run) lookup(in *ssa.Lookup) Val {
	x := r.val(in.X)
	if s, ok := x.(*Seq); ok {
		i := r.intOf(r.val(in.Index))
		r.bounds(i, r.c.SeqLen(s), in.Pos())
		return r.seqAt(s, i)
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m := x.(*Term)
	k := r.val(in.Index)
	has := r.mapHas(mt, m, k)
	if in.CommaOk {
		if r.decide(has) {
			return TupleV{[]Val{r.mapGet(mt, m, k), r.c.T}}
		}
		return TupleV{[]Val{r.zero(mt.Elem()), r.c.F}}
	}
	// boolean maps need no fork
	if r.decide(has) {
		return r.mapGet(mt, m, k)
	}
	return r.zero(mt.Elem())
}

// keysOf: the (arbitrary) iteration order of a map as ghost sequences.
type mapOrder struct {
	n    *Term
	keys []*Seq // one per key component
}

func (r *Run) rangeStart(in *ssa.Range) Val {
	x := r.val(in.X)
	if s, ok := x.(*Seq); ok {
		_ = s
		panic(unsupported{"range over a string"})
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m := x.(*Term)
	it := r.newRef()
	r.write("iter:pos", seqLenT, r.c.Zero, it)
	return IterV{it, m, mt}
}

// orderAtom names the iteration order chosen for iterator it.
func (r *Run) orderKey(it IterV, i *Term) Val {
	mk := func(sfx string, lo, hi *big.Int) *Term {
		return r.c.App("iterkey"+sfx+"!"+mapName(it.mt), SInt, lo, hi, it.id, it.m, i)
	}
	switch kt := it.mt.Key().Underlying().(type) {
	case *types.Interface:
		return IfaceV{mk(".tag", bigOne, big.NewInt(1<<30)), mk(".val", bigZero, maxRef)}
	default:
		if ii, ok := intType(kt); ok {
			return mk("", ii.lo(), ii.hi())
		}
		if isString(kt) {
			return r.c.whole(r.c.Atom("iterkeystr", []*Term{it.id, it.m, i}, nil, AtomOpt{esort: SInt, lo: bigZero, hi: big.NewInt(255)}))
		}
	}
	panic(unsupported{"range over map with key " + it.mt.Key().String()})
}

func (r *Run) rangeNext(in *ssa.Next) Val {
	c := r.c
	it := r.val(in.Iter).(IterV)
	pos := r.read("iter:pos", seqLenT, it.id).(*Term)
	r.fact(c.Le(c.Zero, pos))
	n := r.mapLen(it.mt, it.m)
	tt := in.Type().(*types.Tuple)
	if !r.decide(c.Lt(pos, n)) {
		return TupleV{[]Val{c.F, r.zeroOr(tt.At(1).Type()), r.zeroOr(tt.At(2).Type())}}
	}
	k := r.orderKey(it, pos)
	// the key at this position is in the map
	idx := append([]*Term{it.m}, r.keyTerms(k)...)
	dom := r.read("mapdom:"+mapName(it.mt), types.Typ[types.Bool], idx...).(*Term)
	r.assume(dom)
	r.iterFacts(it, k, pos)
	v := r.mapGet(it.mt, it.m, k)
	r.write("iter:pos", seqLenT, c.Add(pos, c.One), it.id)
	return TupleV{[]Val{c.T, k, v}}
}

func (r *Run) zeroOr(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return r.c.Zero
	}
	return r.zero(t)
}

// iterFacts: the iteration order is a bijection between positions and keys;
// the inverse function gives distinctness.
func (r *Run) iterFacts(it IterV, k Val, pos *Term) {
	ks := append([]*Term{it.id, it.m}, r.keyTerms(k)...)
	r.assume(r.c.Eq(r.c.App("iterpos!"+mapName(it.mt), SInt, nil, nil, ks...), pos))
}

// madeMap: a map the code under contract made.
type madeMap struct {
	ref *Term
	mt  *types.Map
}
