package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Terms: hash-consed, normalised first-order terms over Bool, Int and bit vectors.

type Sort int

const (
	SBool Sort = 0
	SInt  Sort = -1
	// n > 0: bit vector of width n
)

type Op uint8

const (
	OConst Op = iota // Int or BV constant
	OBool            // true/false (num 1/0)
	OVar
	OApp // uninterpreted function
	OLin // sum coefs[i]*args[i] + num
	ODiv // floor div by positive constant
	OMod // floor mod by positive constant
	OMul // nonlinear product
	OIte
	OEq
	OLe // args[0] <= 0 (args[0] linear)
	ONot
	OAnd
	OOr
	OBV     // bit-vector operation, name = SMT operator
	OForall // bound variable args[0], body args[1]; quantified hypothesis
)

type Term struct {
	id     int
	op     Op
	sort   Sort
	args   []*Term
	coefs  []*big.Int
	num    *big.Int
	name   string
	lo, hi *big.Int // static interval, Int only (nil: unbounded)
}

type Ctx struct {
	kbuf     []byte
	nots     map[*Term]*Term
	tab      map[string]*Term
	n        int
	T, F     *Term
	Zero     *Term
	One      *Term
	hasBV    bool
	seqs     map[string]*Atom
	seqID    map[string]*Term
	crcAtoms map[string]*Atom
	smallCRC bool // checksums of sequences of at most one octet are expanded
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, seqs: map[string]*Atom{}, seqID: map[string]*Term{}}
	c.T = c.mk(&Term{op: OBool, sort: SBool, num: big.NewInt(1)})
	c.F = c.mk(&Term{op: OBool, sort: SBool, num: big.NewInt(0)})
	c.Zero = c.Int(0)
	c.One = c.Int(1)
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	kb := c.kbuf[:0]
	kb = strconv.AppendInt(kb, int64(t.op), 10)
	kb = append(kb, '|')
	kb = strconv.AppendInt(kb, int64(t.sort), 10)
	kb = append(kb, '|')
	kb = append(kb, t.name...)
	kb = append(kb, '|')
	if t.num != nil {
		kb = t.num.Append(kb, 10)
	}
	for i, a := range t.args {
		kb = append(kb, ',')
		kb = strconv.AppendInt(kb, int64(a.id), 10)
		if t.coefs != nil {
			kb = append(kb, '*')
			kb = t.coefs[i].Append(kb, 10)
		}
	}
	c.kbuf = kb
	if x, ok := c.tab[string(kb)]; ok {
		return x
	}
	k := string(kb)
	c.n++
	t.id = c.n
	c.tab[k] = t
	return t
}

func (c *Ctx) Int(v int64) *Term { return c.Big(big.NewInt(v)) }
func (c *Ctx) Big(v *big.Int) *Term {
	return c.mk(&Term{op: OConst, sort: SInt, num: v, lo: v, hi: v})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *Ctx) BVc(v *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	return c.mk(&Term{op: OConst, sort: Sort(w), num: x})
}

// Var declares a constant symbol. Bounds are part of its identity (name must be unique).
func (c *Ctx) Var(name string, s Sort, lo, hi *big.Int) *Term {
	return c.mk(&Term{op: OVar, sort: s, name: name, lo: lo, hi: hi})
}
func (c *Ctx) App(name string, s Sort, lo, hi *big.Int, args ...*Term) *Term {
	return c.mk(&Term{op: OApp, sort: s, name: name, args: args, lo: lo, hi: hi})
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OBool && t.num.Sign() != 0 }
func (t *Term) IsFalse() bool { return t.op == OBool && t.num.Sign() == 0 }
func (t *Term) Int64() (int64, bool) {
	if t.op == OConst && t.sort == SInt && t.num.IsInt64() {
		return t.num.Int64(), true
	}
	return 0, false
}

// ---- linear arithmetic normal form

type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func (c *Ctx) linOf(t *Term) lin {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	c.addTo(&l, t, big.NewInt(1))
	return l
}

func (c *Ctx) addTo(l *lin, t *Term, k *big.Int) {
	switch t.op {
	case OConst:
		l.c.Add(l.c, new(big.Int).Mul(t.num, k))
	case OLin:
		l.c.Add(l.c, new(big.Int).Mul(t.num, k))
		for i, a := range t.args {
			l.acc(a, new(big.Int).Mul(t.coefs[i], k))
		}
	default:
		l.acc(t, k)
	}
}
func (l *lin) acc(a *Term, k *big.Int) {
	x := l.m[a]
	if x == nil {
		x = new(big.Int)
		l.m[a] = x
	}
	x.Add(x, k)
	if x.Sign() == 0 {
		delete(l.m, a)
	}
}

// modParts views t as (x div d) mod m.
func modParts(t *Term) (x *Term, d, m *big.Int, ok bool) {
	if t.op != OMod {
		return
	}
	y := t.args[0]
	if y.op == ODiv {
		return y.args[0], y.num, t.num, true
	}
	return y, big.NewInt(1), t.num, true
}

func (c *Ctx) fromLin(l lin) *Term {
	// combine  k*a*((x/(d*a)) mod b) + k*((x/d) mod a)  into  k*((x/d) mod (a*b))
	// and      k*a*(x/(d*a)) + k*((x/d) mod a)          into  k*(x/d)
again:
	if len(l.m) >= 2 {
		var ks []*Term
		for t := range l.m {
			ks = append(ks, t)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
		for _, t := range ks {
			x, d, a, ok := modParts(t)
			if !ok {
				continue
			}
			k := l.m[t]
			da := new(big.Int).Mul(d, a)
			ka := new(big.Int).Mul(k, a)
			for _, u := range ks {
				if u == t {
					continue
				}
				if l.m[u].Cmp(ka) != 0 {
					continue
				}
				if u.op == ODiv && u.args[0] == x && u.num.Cmp(da) == 0 {
					delete(l.m, t)
					delete(l.m, u)
					c.addTo(&l, c.Div(x, d), k)
					goto again
				}
				x2, d2, b2, ok2 := modParts(u)
				if ok2 && x2 == x && d2.Cmp(da) == 0 {
					delete(l.m, t)
					delete(l.m, u)
					c.addTo(&l, c.Mod(c.Div(x, d), new(big.Int).Mul(a, b2)), k)
					goto again
				}
			}
		}
	}
	if len(l.m) == 0 {
		return c.Big(new(big.Int).Set(l.c))
	}
	var as []*Term
	for a := range l.m {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.c.Sign() == 0 && l.m[as[0]].Cmp(bigOne) == 0 {
		return as[0]
	}
	t := &Term{op: OLin, sort: SInt, num: new(big.Int).Set(l.c), args: as}
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, a := range as {
		k := new(big.Int).Set(l.m[a])
		t.coefs = append(t.coefs, k)
		alo, ahi := a.lo, a.hi
		if k.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil {
			if alo == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(alo, k))
			}
		}
		if hi != nil {
			if ahi == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(ahi, k))
			}
		}
	}
	t.lo, t.hi = lo, hi
	return c.mk(t)
}

var bigOne = big.NewInt(1)
var bigZero = big.NewInt(0)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

func (c *Ctx) Add(ts ...*Term) *Term {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	for _, t := range ts {
		c.addTo(&l, t, bigOne)
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := c.linOf(a)
	c.addTo(&l, b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) Scale(a *Term, k *big.Int) *Term {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	if k.Sign() == 0 {
		return c.Zero
	}
	c.addTo(&l, a, k)
	return c.fromLin(l)
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() {
		return c.Scale(b, a.num)
	}
	if b.IsConst() {
		return c.Scale(a, b.num)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b > 0 so it is floor
	return q
}

func inRange(t *Term, lo, hi *big.Int) bool {
	return t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0
}

func (c *Ctx) Div(x *Term, d *big.Int) *Term {
	if d.Cmp(bigOne) == 0 {
		return x
	}
	if x.IsConst() {
		return c.Big(floorDiv(x.num, d))
	}
	if x.op == ODiv {
		return c.Div(x.args[0], new(big.Int).Mul(x.num, d))
	}
	if x.op == OMod {
		// (y mod ab) div b = (y div b) mod a
		q, r := new(big.Int), new(big.Int)
		q.DivMod(x.num, d, r)
		if r.Sign() == 0 {
			return c.Mod(c.Div(x.args[0], d), q)
		}
	}
	if x.op == OIte {
		if x.args[1].IsConst() && x.args[2].IsConst() {
			return c.Ite(x.args[0], c.Div(x.args[1], d), c.Div(x.args[2], d))
		}
	}
	l := c.linOf(x)
	out := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	rest := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	for a, k := range l.m {
		q, r := new(big.Int), new(big.Int)
		q.DivMod(k, d, r)
		if r.Sign() == 0 {
			out.acc(a, q)
		} else {
			rest.acc(a, k)
		}
	}
	q, r := new(big.Int), new(big.Int)
	q.DivMod(l.c, d, r)
	out.c.Add(out.c, q)
	rest.c.Add(rest.c, r)
	rt := c.fromLin(rest)
	if rt.lo != nil && rt.hi != nil {
		ql, qh := floorDiv(rt.lo, d), floorDiv(rt.hi, d)
		if ql.Cmp(qh) == 0 {
			out.c.Add(out.c, ql)
			return c.fromLin(out)
		}
	}
	if rt == x {
		var lo, hi *big.Int
		if x.lo != nil {
			lo = floorDiv(x.lo, d)
		}
		if x.hi != nil {
			hi = floorDiv(x.hi, d)
		}
		return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{x}, num: d, lo: lo, hi: hi})
	}
	c.addTo(&out, c.Div(rt, d), bigOne)
	return c.fromLin(out)
}

func (c *Ctx) Mod(x *Term, m *big.Int) *Term {
	if m.Cmp(bigOne) == 0 {
		return c.Zero
	}
	if x.IsConst() {
		return c.Big(new(big.Int).Mod(x.num, m))
	}
	if inRange(x, bigZero, new(big.Int).Sub(m, bigOne)) {
		return x
	}
	if x.op == OIte {
		if x.args[1].IsConst() && x.args[2].IsConst() {
			return c.Ite(x.args[0], c.Mod(x.args[1], m), c.Mod(x.args[2], m))
		}
	}
	l := c.linOf(x)
	rest := lin{m: map[*Term]*big.Int{}, c: new(big.Int).Mod(l.c, m)}
	for a, k := range l.m {
		r := new(big.Int).Mod(k, m)
		if r.Sign() == 0 {
			continue
		}
		// drop an inner mod of a multiple modulus
		if a.op == OMod && new(big.Int).Mod(a.num, m).Sign() == 0 {
			c.addTo(&rest, a.args[0], r)
			continue
		}
		// k*(y mod n) with m | k*n : k*y
		if a.op == OMod && new(big.Int).Mod(new(big.Int).Mul(a.num, r), m).Sign() == 0 {
			c.addTo(&rest, a.args[0], r)
			continue
		}
		rest.acc(a, r)
	}
	// re-reduce after substitution
	for a, k := range rest.m {
		rest.m[a] = new(big.Int).Mod(k, m)
		if rest.m[a].Sign() == 0 {
			delete(rest.m, a)
		}
	}
	rest.c.Mod(rest.c, m)
	rt := c.fromLin(rest)
	// split off a subtrahend so that small values stay recognisable
	if rt.lo != nil && rt.hi != nil {
		ql, qh := floorDiv(rt.lo, m), floorDiv(rt.hi, m)
		if ql.Cmp(qh) == 0 {
			return c.Sub(rt, c.Big(new(big.Int).Mul(ql, m)))
		}
	}
	if rt.IsConst() {
		return c.Big(new(big.Int).Mod(rt.num, m))
	}
	return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{rt}, num: m, lo: bigZero, hi: new(big.Int).Sub(m, bigOne)})
}

// ---- booleans

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case OBool:
		return c.Bool(a.IsFalse())
	case ONot:
		return a.args[0]
	case OLe: // not (x <= 0)  ==  1 - x <= 0
		return c.le0(c.Sub(c.One, a.args[0]))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

// NotOf is Not, remembered.
func (c *Ctx) NotOf(a *Term) *Term {
	if n, ok := c.nots[a]; ok {
		return n
	}
	n := c.Not(a)
	if c.nots == nil {
		c.nots = map[*Term]*Term{}
	}
	c.nots[a] = n
	return n
}

func (c *Ctx) nary(op Op, unit, zero *Term, ts []*Term) *Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !walk(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, sort: SBool, args: out})
}
func (c *Ctx) And(ts ...*Term) *Term { return c.nary(OAnd, c.T, c.F, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(OOr, c.F, c.T, ts) }
func (c *Ctx) Imp(a, b *Term) *Term  { return c.Or(c.Not(a), b) }

func (c *Ctx) le0(t *Term) *Term {
	if t.hi != nil && t.hi.Sign() <= 0 {
		return c.T
	}
	if t.lo != nil && t.lo.Sign() > 0 {
		return c.F
	}
	if t.op == OLin {
		// divide by gcd of coefficients
		g := new(big.Int)
		for _, k := range t.coefs {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bigOne) > 0 {
			l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
			for i, a := range t.args {
				l.m[a] = new(big.Int).Div(t.coefs[i], g)
			}
			// sum + c <= 0  <=>  sum <= -c  <=> sum/g <= floor(-c/g)
			f := floorDiv(new(big.Int).Neg(t.num), g)
			l.c.Neg(f)
			return c.le0(c.fromLin(l))
		}
	}
	if t.op == OLin && len(t.args) == 1 && new(big.Int).Abs(t.coefs[0]).Cmp(bigOne) == 0 && t.args[0].op == OBV && t.args[0].name == "ubv2int" {
		x := t.args[0].args[0]
		w := int(x.sort)
		if t.coefs[0].Sign() > 0 { // x <= -num
			return c.bvOp("bvule", SBool, x, c.BVc(new(big.Int).Neg(t.num), w))
		}
		return c.bvOp("bvule", SBool, c.BVc(t.num, w), x) // num <= x
	}
	if t.op == OLin || t.op == OIte {
		if b := c.bv64(t, 0); b != nil {
			return c.bvOp("bvsle", SBool, b, c.BVc(bigZero, 64))
		}
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{t}})
}

// bv64: the 64 bit two's complement form of an integer term made from bit-vectors, nil if it is not one.
func (c *Ctx) bv64(t *Term, depth int) *Term {
	if t.IsConst() {
		if t.num.IsInt64() {
			return c.BVc(t.num, 64)
		}
		return nil
	}
	if depth > 12 || !c.hasBV {
		return nil
	}
	if t.lo == nil || t.hi == nil || !t.lo.IsInt64() || !t.hi.IsInt64() {
		return nil
	}
	switch t.op {
	case OBV:
		if t.name == "ubv2int" || t.name == "sbv2int" {
			return c.Resize(t.args[0], 64, t.name == "sbv2int")
		}
	case OIte:
		a, b := c.bv64(t.args[1], depth+1), c.bv64(t.args[2], depth+1)
		if a != nil && b != nil {
			return c.Ite(t.args[0], a, b)
		}
	case OLin:
		sum := c.BVc(t.num, 64)
		for i, a := range t.args {
			b := c.bv64(a, depth+1)
			if b == nil {
				return nil
			}
			k := t.coefs[i]
			if k.Cmp(bigOne) == 0 {
				sum = c.bvOp("bvadd", 64, b, sum)
				continue
			}
			if new(big.Int).Neg(k).Cmp(bigOne) == 0 {
				sum = c.bvOp("bvsub", 64, sum, b)
				continue
			}
			if k.Sign() > 0 && k.BitLen() <= 63 && pow2(uint(k.BitLen()-1)).Cmp(k) == 0 {
				sum = c.bvOp("bvadd", 64, c.bvOp("bvshl", 64, b, c.BVc(big.NewInt(int64(k.BitLen()-1)), 64)), sum)
				continue
			}
			sum = c.bvOp("bvadd", 64, c.bvOp("bvmul", 64, b, c.BVc(k, 64)), sum)
		}
		return sum
	case OMod:
		if t.num.BitLen() <= 63 && pow2(uint(t.num.BitLen()-1)).Cmp(t.num) == 0 {
			if b := c.bv64(t.args[0], depth+1); b != nil {
				return c.bvOp("bvand", 64, b, c.BVc(new(big.Int).Sub(t.num, bigOne), 64))
			}
		}
	case ODiv:
		if t.num.BitLen() <= 63 && pow2(uint(t.num.BitLen()-1)).Cmp(t.num) == 0 {
			if b := c.bv64(t.args[0], depth+1); b != nil {
				return c.bvOp("bvashr", 64, b, c.BVc(big.NewInt(int64(t.num.BitLen()-1)), 64))
			}
		}
	}
	return nil
}
func (c *Ctx) Le(a, b *Term) *Term { return c.le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.le0(c.Add(c.Sub(a, b), c.One)) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %d %d: %s = %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SInt:
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.num.Sign() == 0)
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return c.F
		}
		if a.op == OIte && b.IsConst() && (a.args[1].IsConst() || a.args[2].IsConst()) {
			return c.Or(c.And(a.args[0], c.Eq(a.args[1], b)), c.And(c.Not(a.args[0]), c.Eq(a.args[2], b)))
		}
		if b.op == OIte && a.IsConst() {
			return c.Eq(b, a)
		}
		if d.op == OLin {
			g := new(big.Int)
			for _, k := range d.coefs {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if new(big.Int).Mod(d.num, g).Sign() != 0 {
				return c.F
			}
			neg := d.coefs[0].Sign() < 0
			if g.Cmp(bigOne) != 0 || neg {
				l := lin{m: map[*Term]*big.Int{}, c: new(big.Int).Div(d.num, g)}
				for i, x := range d.args {
					l.m[x] = new(big.Int).Div(d.coefs[i], g)
					if neg {
						l.m[x].Neg(l.m[x])
					}
				}
				if neg {
					l.c.Neg(l.c)
				}
				d = c.fromLin(l)
				if d.IsConst() {
					return c.Bool(d.num.Sign() == 0)
				}
			}
			if d.op == OLin && len(d.args) == 1 && d.coefs[0].Cmp(bigOne) == 0 && d.args[0].op == OIte && (d.args[0].args[1].IsConst() || d.args[0].args[2].IsConst()) {
				return c.Eq(d.args[0], c.Big(new(big.Int).Neg(d.num)))
			}
		}
		if d.op == OLin && len(d.args) == 1 && d.coefs[0].Cmp(bigOne) == 0 && d.args[0].op == OBV && d.args[0].name == "ubv2int" {
			return c.Eq(d.args[0].args[0], c.BVc(new(big.Int).Neg(d.num), int(d.args[0].args[0].sort)))
		}
		if c.hasBV {
			if x := c.bv64(d, 0); x != nil {
				if d.op == OLin && len(d.args) == 2 && d.num.Sign() == 0 {
					if y, z := c.bv64(d.args[0], 0), c.bv64(d.args[1], 0); y != nil && d.coefs[0].Cmp(bigOne) == 0 && new(big.Int).Neg(d.coefs[1]).Cmp(bigOne) == 0 {
						return c.Eq(y, z)
					}
				}
				return c.Eq(x, c.BVc(bigZero, 64))
			}
		}
		return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{d, c.Zero}})
	case SBool:
		if a.op == OBool {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.Not(a)
		}
	default:
		if a.IsConst() && b.IsConst() {
			return c.Bool(a.num.Cmp(b.num) == 0)
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() && a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
			return c.Or(c.And(a.args[0], c.Eq(a.args[1], b)), c.And(c.Not(a.args[0]), c.Eq(a.args[2], b)))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (c *Ctx) Ite(b, x, y *Term) *Term {
	if b.IsTrue() || x == y {
		return x
	}
	if b.IsFalse() {
		return y
	}
	if x.sort == SBool {
		if x.IsTrue() {
			return c.Or(b, y)
		}
		if x.IsFalse() {
			return c.And(c.Not(b), y)
		}
		if y.IsTrue() {
			return c.Or(c.Not(b), x)
		}
		if y.IsFalse() {
			return c.And(b, x)
		}
	}
	if b.op == ONot {
		return c.Ite(b.args[0], y, x)
	}
	return c.mk(&Term{op: OIte, sort: x.sort, args: []*Term{b, x, y}, lo: minB(x.lo, y.lo), hi: maxB(x.hi, y.hi)})
}

// Forall: hypothesis "for all v (Int): body"; v is an OVar term.
func (c *Ctx) Forall(v, body *Term) *Term {
	if body.IsTrue() {
		return body
	}
	return c.mk(&Term{op: OForall, sort: SBool, args: []*Term{v, body}})
}

// Subst replaces variables.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = c.Subst(a, m, memo)
		ch = ch || as[i] != a
	}
	r := t
	if ch {
		switch t.op {
		case OApp:
			r = c.App(t.name, t.sort, t.lo, t.hi, as...)
		case OLin:
			l := lin{m: map[*Term]*big.Int{}, c: new(big.Int).Set(t.num)}
			for i, a := range as {
				c.addTo(&l, a, t.coefs[i])
			}
			r = c.fromLin(l)
		case ODiv:
			r = c.Div(as[0], t.num)
		case OMod:
			r = c.Mod(as[0], t.num)
		case OMul:
			r = c.Mul(as[0], as[1])
		case OIte:
			r = c.Ite(as[0], as[1], as[2])
		case OEq:
			r = c.Eq(as[0], as[1])
		case OLe:
			r = c.le0(as[0])
		case ONot:
			r = c.Not(as[0])
		case OAnd:
			r = c.And(as...)
		case OOr:
			r = c.Or(as...)
		case OBV:
			r = c.bvOp(t.name, t.sort, as...)
		case OForall:
			r = c.Forall(as[0], as[1])
		}
	}
	memo[t] = r
	return r
}

// ---- bit vectors

func (c *Ctx) bvOp(name string, s Sort, as ...*Term) *Term {
	allc := true
	for _, a := range as {
		if !a.IsConst() {
			allc = false
		}
	}
	if allc {
		if r := c.bvFold(name, s, as); r != nil {
			return r
		}
	}
	w := 0
	if len(as) > 0 {
		w = int(as[0].sort)
	}
	isC := func(i int, v int64) bool { return as[i].IsConst() && as[i].num.Cmp(big.NewInt(v)) == 0 }
	allOnes := func(i int) bool {
		return as[i].IsConst() && as[i].num.Cmp(new(big.Int).Sub(pow2(uint(w)), bigOne)) == 0
	}
	switch name {
	case "bvand":
		if isC(0, 0) || isC(1, 0) {
			return c.BVc(bigZero, w)
		}
		if allOnes(0) || as[0] == as[1] {
			return as[1]
		}
		if allOnes(1) {
			return as[0]
		}
	case "bvor", "bvxor", "bvadd":
		if isC(0, 0) {
			return as[1]
		}
		if isC(1, 0) {
			return as[0]
		}
	case "bvsub", "bvshl", "bvlshr", "bvashr":
		if isC(1, 0) {
			return as[0]
		}
		if name != "bvsub" && name != "bvashr" && as[1].IsConst() && as[1].num.Cmp(big.NewInt(int64(w))) >= 0 {
			return c.BVc(bigZero, w)
		}
	}
	if strings.HasPrefix(name, "zext") || strings.HasPrefix(name, "sext") {
		if as[0].sort == s {
			return as[0]
		}
	}
	if strings.HasPrefix(name, "extract") && as[0].sort == s {
		return as[0]
	}
	return c.mk(&Term{op: OBV, sort: s, name: name, args: as})
}

func signedBV(v *big.Int, w int) *big.Int {
	if v.Bit(w-1) == 1 {
		return new(big.Int).Sub(v, pow2(uint(w)))
	}
	return v
}

func (c *Ctx) bvFold(name string, s Sort, as []*Term) *Term {
	w := int(as[0].sort)
	a := as[0].num
	var b *big.Int
	if len(as) > 1 {
		b = as[1].num
	}
	r := new(big.Int)
	switch {
	case name == "bvadd":
		r.Add(a, b)
	case name == "bvsub":
		r.Sub(a, b)
	case name == "bvmul":
		r.Mul(a, b)
	case name == "bvand":
		r.And(a, b)
	case name == "bvor":
		r.Or(a, b)
	case name == "bvxor":
		r.Xor(a, b)
	case name == "bvnot":
		r.Sub(pow2(uint(w)), bigOne)
		r.Sub(r, a)
	case name == "bvneg":
		r.Neg(a)
	case name == "bvshl":
		if b.Cmp(big.NewInt(int64(w))) < 0 {
			r.Lsh(a, uint(b.Int64()))
		}
	case name == "bvlshr":
		if b.Cmp(big.NewInt(int64(w))) < 0 {
			r.Rsh(a, uint(b.Int64()))
		}
	case name == "bvashr":
		n := uint(w)
		if b.Cmp(big.NewInt(int64(w))) < 0 {
			n = uint(b.Int64())
		}
		r.Rsh(signedBV(a, w), n)
	case name == "bvult":
		return c.Bool(a.Cmp(b) < 0)
	case name == "bvule":
		return c.Bool(a.Cmp(b) <= 0)
	case name == "bvslt":
		return c.Bool(signedBV(a, w).Cmp(signedBV(b, w)) < 0)
	case name == "bvsle":
		return c.Bool(signedBV(a, w).Cmp(signedBV(b, w)) <= 0)
	case name == "zext":
		r.Set(a)
	case name == "sext":
		r.Set(signedBV(a, w))
	case strings.HasPrefix(name, "extract"):
		r.Set(a)
	case name == "ubv2int":
		return c.Big(a)
	case name == "sbv2int":
		return c.Big(signedBV(a, w))
	default:
		return nil
	}
	return c.BVc(r, int(s))
}

// Resize converts a bit vector to another width.
func (c *Ctx) Resize(a *Term, w int, signed bool) *Term {
	aw := int(a.sort)
	switch {
	case aw == w:
		return a
	case aw > w:
		if a.op == OBV && (a.name == "zext" || a.name == "sext") && int(a.args[0].sort) == w {
			return a.args[0]
		}
		return c.bvOp("extract", Sort(w), a)
	case signed:
		return c.bvOp("sext", Sort(w), a)
	default:
		return c.bvOp("zext", Sort(w), a)
	}
}

// BV2Int / Int2BV
func (c *Ctx) BV2Int(a *Term, signed bool) *Term {
	w := uint(a.sort)
	n, lo, hi := "ubv2int", bigZero, new(big.Int).Sub(pow2(w), bigOne)
	if signed {
		n, lo, hi = "sbv2int", new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), bigOne)
	}
	if a.IsConst() {
		return c.bvFold(n, SInt, []*Term{a})
	}
	if !signed && a.op == OBV && a.name == "zext" {
		return c.BV2Int(a.args[0], false)
	}
	c.hasBV = true
	t := c.mk(&Term{op: OBV, sort: SInt, name: n, args: []*Term{a}, lo: lo, hi: hi})
	return t
}
func (c *Ctx) Int2BV(a *Term, w int) *Term {
	if a.IsConst() {
		return c.BVc(a.num, w)
	}
	if a.op == OBV && (a.name == "ubv2int" || a.name == "sbv2int") {
		return c.Resize(a.args[0], w, a.name == "sbv2int")
	}
	if a.op == OIte {
		return c.Ite(a.args[0], c.Int2BV(a.args[1], w), c.Int2BV(a.args[2], w))
	}
	if w <= 64 && c.hasBV {
		if b := c.bv64(a, 0); b != nil {
			return c.Resize(b, w, true)
		}
		if a.op == OMod {
			// the modulus is a multiple of 2^w: the same low bits
			if a.num.BitLen() > w && pow2(uint(a.num.BitLen()-1)).Cmp(a.num) == 0 {
				return c.Int2BV(a.args[0], w)
			}
		}
	}
	return c.mk(&Term{op: OBV, sort: Sort(w), name: "int2bv", args: []*Term{a}})
}

// ---- printing

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func smtName(s string) string { return "|" + s + "|" }

func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb, shortLet)
	return sb.String()
}

var shortLet = map[*Term]string{nil: "short"}

func (t *Term) print(sb *strings.Builder, let map[*Term]string) {
	if let != nil {
		if let[nil] != "" && sb.Len() > 3000 {
			sb.WriteString("...")
			return
		}
		if n, ok := let[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.printTop(sb, let)
}

func (t *Term) printTop(sb *strings.Builder, let map[*Term]string) {
	rec := func(op string) {
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.print(sb, let)
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case OConst:
		if t.sort == SInt {
			sb.WriteString(numStr(t.num))
		} else {
			fmt.Fprintf(sb, "(_ bv%s %d)", t.num.String(), int(t.sort))
		}
	case OBool:
		if t.IsTrue() {
			sb.WriteString("true")
		} else {
			sb.WriteString("false")
		}
	case OVar:
		sb.WriteString(smtName(t.name))
	case OApp:
		if len(t.args) == 0 {
			sb.WriteString(smtName(t.name))
		} else {
			rec(smtName(t.name))
		}
	case OLin:
		sb.WriteString("(+")
		for i, a := range t.args {
			sb.WriteByte(' ')
			if t.coefs[i].Cmp(bigOne) == 0 {
				a.print(sb, let)
			} else {
				sb.WriteString("(* " + numStr(t.coefs[i]) + " ")
				a.print(sb, let)
				sb.WriteByte(')')
			}
		}
		sb.WriteString(" " + numStr(t.num) + ")")
	case ODiv, OMod:
		o := "div"
		if t.op == OMod {
			o = "mod"
		}
		sb.WriteString("(" + o + " ")
		t.args[0].print(sb, let)
		sb.WriteString(" " + t.num.String() + ")")
	case OMul:
		rec("*")
	case OIte:
		rec("ite")
	case OEq:
		rec("=")
	case OLe:
		sb.WriteString("(<= ")
		t.args[0].print(sb, let)
		sb.WriteString(" 0)")
	case ONot:
		rec("not")
	case OAnd:
		rec("and")
	case OOr:
		rec("or")
	case OForall:
		sb.WriteString("(forall ((" + smtName(t.args[0].name) + " Int)) ")
		t.args[1].print(sb, nil)
		sb.WriteByte(')')
	case OBV:
		switch t.name {
		case "zext", "sext":
			o := "zero_extend"
			if t.name == "sext" {
				o = "sign_extend"
			}
			fmt.Fprintf(sb, "((_ %s %d) ", o, int(t.sort)-int(t.args[0].sort))
			t.args[0].print(sb, let)
			sb.WriteByte(')')
		case "extract":
			fmt.Fprintf(sb, "((_ extract %d 0) ", int(t.sort)-1)
			t.args[0].print(sb, let)
			sb.WriteByte(')')
		case "ubv2int":
			rec("bv2nat")
		case "sbv2int":
			w := uint(t.args[0].sort)
			sb.WriteString("(let ((sv ")
			t.args[0].print(sb, let)
			fmt.Fprintf(sb, ")) (ite (bvslt sv (_ bv0 %d)) (- (bv2nat sv) %s) (bv2nat sv)))", w, pow2(w).String())
		case "int2bv":
			fmt.Fprintf(sb, "((_ int2bv %d) ", int(t.sort))
			t.args[0].print(sb, let)
			sb.WriteByte(')')
		default:
			rec(t.name)
		}
	}
}

func sortStr(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}
