package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"
)

// Defined sequences. An atom definition gives the octets of a value; a fold
// applies an element definition to every element of a sequence and is kept
// normalised over the segments of its argument.

type atomDef struct {
	name   string
	minLen int64
	maxLen int64
	nargs  int
	// def returns the octets (case splits fork the path); nil: opaque
	def func(r *Run, a []*Term) *Seq
	// fold: element-wise
	elem  func(r *Run, x *Term) *Seq
	esort func(r *Run) Sort // sort of the elements folded over
}

func byteU(r *Run, t *Term) *Seq {
	if r.isBV(byteT) && t.sort == SInt {
		t = r.c.Int2BV(t, 8)
	}
	return r.c.unit(t)
}

func (r *Run) octet(t *Term, k uint) *Term { // (t >> 8k) mod 256
	return r.c.Mod(r.c.Div(t, pow2(8*k)), big.NewInt(256))
}

func (r *Run) bigEndian(t *Term, n uint) *Seq {
	out := emptySeq
	for k := int(n) - 1; k >= 0; k-- {
		out = r.c.Cat(out, byteU(r, r.octet(t, uint(k))))
	}
	return out
}

var atomDefs map[string]*atomDef

func init() {
	atomDefs = map[string]*atomDef{
		// BER definite length octets, shortest form
		"LEN": {name: "LEN", minLen: 1, maxLen: 5, nargs: 1, def: func(r *Run, a []*Term) *Seq {
			c := r.c
			n := a[0]
			if r.decide(c.Le(n, c.Int(0x7f))) {
				return byteU(r, n)
			}
			for k := uint(1); k <= 4; k++ {
				if k == 4 || r.decide(c.Lt(n, c.Big(pow2(8*k)))) {
					return c.Cat(byteU(r, c.Int(int64(0x80+k))), r.bigEndian(n, k))
				}
			}
			return nil
		}},
		// length octet and shortest two's complement octets
		"INTB": {name: "INTB", minLen: 2, maxLen: 9, nargs: 1, def: func(r *Run, a []*Term) *Seq {
			c := r.c
			i := a[0]
			for k := uint(1); k <= 8; k++ {
				h := pow2(8*k - 1)
				if k == 8 || r.decide(c.And(c.Le(c.Big(new(big.Int).Neg(h)), i), c.Lt(i, c.Big(h)))) {
					return c.Cat(byteU(r, c.Int(int64(k))), r.bigEndian(i, k))
				}
			}
			return nil
		}},
		// base 128 subidentifier
		"SUB": {name: "SUB", minLen: 1, maxLen: 5, nargs: 1, def: func(r *Run, a []*Term) *Seq {
			c := r.c
			v := a[0]
			for k := uint(1); k <= 5; k++ {
				if k == 5 || r.decide(c.Lt(v, c.Big(pow2(7*k)))) {
					out := emptySeq
					for j := int(k) - 1; j >= 0; j-- {
						d := c.Mod(c.Div(v, pow2(7*uint(j))), big.NewInt(128))
						if j > 0 {
							d = c.Add(d, c.Int(128))
						}
						out = c.Cat(out, byteU(r, d))
					}
					return out
				}
			}
			return nil
		}},
		"OIDF": {name: "OIDF", maxLen: 5, elem: func(r *Run, x *Term) *Seq {
			return r.c.whole(r.atomOf(atomDefs["SUB"], []*Term{x}))
		}},
		// octets of a REAL value (after the tag), see C06
		"REALB": {name: "REALB", minLen: 1, maxLen: 12, nargs: 1},
		// S101 escaping
		"ESC1": {name: "ESC1", minLen: 1, maxLen: 2, nargs: 1, def: func(r *Run, a []*Term) *Seq {
			c := r.c
			x := a[0]
			xi := x
			if x.sort != SInt {
				xi = c.BV2Int(x, false)
			}
			if r.decide(c.Lt(xi, c.Int(0xF8))) {
				return c.unit(x)
			}
			// x ^ 0x20 for x in F8..FF is x - 0x20
			if x.sort != SInt {
				return c.Cat(byteU(r, c.Int(0xFD)), c.unit(c.bvOp("bvxor", Sort(8), x, c.BVc(big.NewInt(0x20), 8))))
			}
			return c.Cat(c.unit(c.Int(0xFD)), c.unit(c.Sub(x, c.Int(0x20))))
		}},
		"ESC": {name: "ESC", maxLen: 2, elem: func(r *Run, x *Term) *Seq {
			if k, ok := x.Int64(); ok && k < 0xF8 {
				return r.c.unit(x)
			}
			return r.c.whole(r.atomOf(atomDefs["ESC1"], []*Term{x}))
		}},
	}
}

func (r *Run) atomOf(d *atomDef, args []*Term) *Atom {
	es, lo, hi := r.esort(byteT)
	a := r.c.Atom(d.name, args, nil, AtomOpt{minLen: d.minLen, esort: es, lo: lo, hi: hi})
	if d.maxLen > 0 && a.len.op == OApp && len(r.bound) == 0 {
		r.fact(r.c.Le(a.len, r.c.Int(d.maxLen)))
	}
	return a
}

// fold applies a fold to a sequence, segment by segment.
func (r *Run) fold(d *atomDef, s *Seq) *Seq {
	c := r.c
	out := emptySeq
	es, lo, hi := r.esort(byteT)
	for _, g := range s.segs {
		if g.unit != nil {
			out = c.Cat(out, d.elem(r, g.unit))
			continue
		}
		if g.atom.fn == "rep" {
			panic(unsupported{"fold over a repetition"})
		}
		a := c.Atom(d.name, nil, []*Seq{{segs: []Seg{g}}}, AtomOpt{esort: es, lo: lo, hi: hi})
		r.foldFacts(d, a)
		out = c.Cat(out, c.whole(a))
	}
	return out
}

// foldFacts: lengths of a fold, and its splitting at every other fold of a prefix of the same elements.
func (r *Run) foldFacts(d *atomDef, a *Atom) {
	if len(r.bound) > 0 || a.len.IsConst() {
		return
	}
	if r.folds == nil {
		r.folds = map[string][]*Atom{}
	}
	c := r.c
	in := a.sargs[0].segs[0]
	k := fmt.Sprintf("%s|%p|%d", d.name, in.atom, in.from.id)
	for _, h := range r.folds[k] {
		if h == a {
			return
		}
	}
	r.folds[k] = append(r.folds[k], a)
	r.fact(c.Le(in.n, a.len))
	r.fact(c.Imp(c.Le(in.n, c.Zero), c.Le(a.len, c.Zero)))
	if d.maxLen > 0 {
		r.fact(c.Le(a.len, c.Mul(in.n, c.Int(d.maxLen))))
	}
	if r.folding {
		return
	}
	r.folding = true
	defer func() { r.folding = false }()
	pair := func(h, g *Atom) { // h a prefix of g
		x, y := h.sargs[0].segs[0], g.sargs[0].segs[0]
		n := c.Sub(y.n, x.n)
		if n.IsConst() || r.known(c.Le(x.n, y.n)) != 1 {
			return
		}
		rest := r.fold(d, c.slice(y.atom, c.Add(y.from, x.n), n))
		r.fact(c.Eq(g.len, c.Add(h.len, c.SeqLen(rest))))
	}
	for _, h := range append([]*Atom{}, r.folds[k]...) {
		if h != a {
			pair(h, a)
			pair(a, h)
		}
	}
}

// foldPrefix: a known fold h of a prefix of a's elements with n = len(h) + delta.
func (r *Run) foldPrefix(a *Atom, n *Term) (*Atom, int64) {
	if n.IsConst() {
		return nil, 0
	}
	in := a.sargs[0].segs[0]
	for _, h := range r.folds[fmt.Sprintf("%s|%p|%d", a.fn, in.atom, in.from.id)] {
		if h == a {
			continue
		}
		d := r.c.Sub(n, h.len)
		if v, ok := d.Int64(); ok && v >= 0 && v < 16 && r.known(r.c.Le(h.sargs[0].segs[0].n, in.n)) == 1 {
			return h, v
		}
	}
	return nil, 0
}

func (e *Env) atom(d *atomDef, x *ast.CallExpr) *Seq {
	r := e.r
	if d.elem != nil {
		return r.fold(d, e.seq(x.Args[0]))
	}
	var args []*Term
	for _, a := range x.Args {
		t := e.term(a)
		args = append(args, t)
	}
	if len(args) != d.nargs {
		e.fail(x, "arguments")
	}
	return r.c.whole(r.atomOf(d, args))
}

func isFold(a *Atom) bool {
	d := atomDefs[a.fn]
	return d != nil && d.elem != nil
}

func hasDef(r *Run, a *Atom) bool {
	d := atomDefs[a.fn]
	return d != nil && (d.def != nil || d.elem != nil)
}

// unfold replaces a slice of a defined atom by its definition (nil: no definition applies).
func (r *Run) unfold(g Seg) *Seq {
	c := r.c
	d := atomDefs[g.atom.fn]
	if d == nil {
		return nil
	}
	wholeSlice := g.from.IsConst() && g.from.num.Sign() == 0 && g.n == g.atom.len
	if d.def != nil {
		s := d.def(r, g.atom.args)
		if s == nil {
			return nil
		}
		n := c.SeqLen(s)
		r.assume(c.Eq(g.atom.len, n))
		for i, u := range s.segs {
			if u.unit != nil && u.unit.sort == g.atom.esort {
				t := c.App(fmt.Sprintf("at!%s!%d", g.atom.fn, g.atom.esort), g.atom.esort, g.atom.lo, g.atom.hi, append(append([]*Term{}, g.atom.ids...), c.Int(int64(i)))...)
				r.atDefs(t, u.unit)
			}
		}
		if wholeSlice {
			return s
		}
		return r.sub(s, g.from, g.n)
	}
	if d.elem != nil {
		in := g.atom.sargs[0].segs[0]
		if !wholeSlice {
			return nil
		}
		if !r.decide(c.Lt(c.Zero, in.n)) {
			r.assume(c.Eq(g.atom.len, c.Zero))
			return emptySeq
		}
		h := d.elem(r, c.atomAt(in.atom, in.from))
		t := r.fold(d, c.slice(in.atom, c.Add(in.from, c.One), c.Sub(in.n, c.One)))
		s := c.Cat(h, t)
		r.assume(c.Eq(g.atom.len, c.SeqLen(s)))
		return s
	}
	return nil
}

// atDefs remembers the value of an element of an unfolded atom.
func (r *Run) atDefs(t, v *Term) {
	if t == v {
		return
	}
	r.assume(r.c.Eq(t, v))
}

// matchFold compares two folds of the same kind over slices of one atom with the same start.
func (r *Run) matchFold(g, h Seg) (*Seq, *Seq, bool) {
	c := r.c
	d := atomDefs[g.atom.fn]
	z := func(s Seg) bool { return s.from.IsConst() && s.from.num.Sign() == 0 && s.n == s.atom.len }
	if !z(g) || !z(h) {
		return nil, nil, false
	}
	if g.atom == h.atom {
		return emptySeq, emptySeq, true
	}
	x, y := g.atom.sargs[0].segs[0], h.atom.sargs[0].segs[0]
	if x.atom != y.atom || !r.valid(c.Eq(x.from, y.from)) {
		return nil, nil, false
	}
	if r.valid(c.Eq(x.n, y.n)) {
		return emptySeq, emptySeq, true
	}
	if r.valid(c.Le(x.n, y.n)) {
		return emptySeq, r.fold(d, c.slice(y.atom, c.Add(y.from, x.n), c.Sub(y.n, x.n))), true
	}
	if r.valid(c.Le(y.n, x.n)) {
		return r.fold(d, c.slice(x.atom, c.Add(x.from, y.n), c.Sub(x.n, y.n))), emptySeq, true
	}
	return nil, nil, false
}

// splitFold cuts a slice of a defined atom.
func (r *Run) splitFold(g Seg, n *Term) []*Seq {
	if !hasDef(r, g.atom) {
		return nil
	}
	d := atomDefs[g.atom.fn]
	if d.elem != nil {
		in := g.atom.sargs[0].segs[0]
		if h, delta := r.foldPrefix(g.atom, r.c.Add(g.from, n)); h != nil && g.from.IsConst() && g.from.num.Sign() == 0 {
			x := h.sargs[0].segs[0]
			rest := r.fold(d, r.c.slice(in.atom, r.c.Add(in.from, x.n), r.c.Sub(in.n, x.n)))
			a, b := r.split(rest, r.c.Int(delta))
			return []*Seq{r.c.Cat(r.c.whole(h), a), b}
		}
		if r.known(r.c.Lt(r.c.Zero, in.n)) != 1 {
			return nil
		}
	}
	u := r.unfold(g)
	if u == nil {
		return nil
	}
	if len(u.segs) == 1 && u.segs[0].atom == g.atom {
		return nil
	}
	a, b := r.split(u, n)
	return []*Seq{a, b}
}

// svalSeq: the two's complement value of a short byte sequence.
func (r *Run) svalSeq(s *Seq) *Term {
	c := r.c
	s = r.norm(s)
	t := c.Zero
	n := 0
	for i, g := range s.segs {
		if g.unit == nil {
			k, ok := g.n.Int64()
			if !ok || k > 8 {
				panic(unsupported{"value of a sequence of unknown length"})
			}
			for j := int64(0); j < k; j++ {
				t = c.Add(c.Mul(t, c.Int(256)), r.u2i(c.atomAt(g.atom, c.Add(g.from, c.Int(j)))))
				n++
			}
			continue
		}
		_ = i
		t = c.Add(c.Mul(t, c.Int(256)), r.u2i(g.unit))
		n++
	}
	if n == 0 {
		return c.Zero
	}
	m := pow2(uint(8 * n))
	return c.Ite(c.Lt(t, c.Big(pow2(uint(8*n-1)))), t, c.Sub(t, c.Big(m)))
}

func (r *Run) u2i(t *Term) *Term {
	if t.sort > 0 {
		return r.c.BV2Int(t, false)
	}
	return t
}

// instances: axioms of the checksum fold for the applications in a query.
func (c *Ctx) instances(order []*Term) []*Term {
	var out []*Term
	for i, a := range order {
		if a.op != OApp || !strings.HasPrefix(a.name, "crc!") {
			continue
		}
		n := len(a.args)
		for j, b := range order {
			if i == j || b.op != OApp || b.name != a.name {
				continue
			}
			d := c.Sub(b.args[n-1], a.args[n-1])
			same := c.Eq(d, c.One)
			for k := 0; k < n-1; k++ {
				same = c.And(same, c.Eq(a.args[k], b.args[k]))
			}
			if same.IsFalse() {
				continue
			}
			if at := c.crcAtoms[a.name]; at != nil {
				out = append(out, c.Imp(same, c.Eq(b, crcStep(c, a, c.atomAt(at, c.Add(a.args[1], a.args[n-1]))))))
			}
		}
		if a.args[n-1].IsConst() && a.args[n-1].num.Sign() == 0 {
			out = append(out, c.Eq(a, a.args[0]))
		} else if at := c.crcAtoms[a.name]; c.smallCRC && at != nil {
			out = append(out, c.Imp(c.Eq(a.args[n-1], c.Zero), c.Eq(a, a.args[0])))
			out = append(out, c.Imp(c.Eq(a.args[n-1], c.One), c.Eq(a, crcStep(c, a.args[0], c.atomAt(at, a.args[1])))))
		}
	}
	return out
}

// crcStep: one octet of the reflected CRC-16 with polynomial 0x1021, bit by bit.
func crcStep(c *Ctx, crc, b *Term) *Term {
	w := Sort(16)
	x := c.bvOp("bvxor", w, crc, c.Resize(b, 16, false))
	one := c.BVc(bigOne, 16)
	for i := 0; i < 8; i++ {
		sh := c.bvOp("bvlshr", w, x, one)
		x = c.Ite(c.Eq(c.bvOp("bvand", w, x, one), one), c.bvOp("bvxor", w, sh, c.BVc(big.NewInt(0x8408), 16)), sh)
	}
	return x
}

// crcOf: checksum state after the octets of s (bit-vector mode).
func (r *Run) crcOf(st *Term, s *Seq) *Term {
	c := r.c
	for _, g := range r.norm(s).segs {
		if g.unit != nil {
			st = crcStep(c, st, g.unit)
			continue
		}
		if hasDef(r, g.atom) {
			if u := r.unfold(g); u != nil && isFold(g.atom) == false {
				st = r.crcOf(st, u)
				continue
			}
		}
		name := "crc!" + g.atom.key
		if c.crcAtoms == nil {
			c.crcAtoms = map[string]*Atom{}
		}
		c.crcAtoms[name] = g.atom
		st = c.App(name, Sort(16), nil, nil, st, g.from, g.n)
	}
	return st
}

var specFuncs map[string]func(e *Env, x *ast.CallExpr) sv

func init() {
	specFuncs = map[string]func(e *Env, x *ast.CallExpr) sv{
		"CRC": func(e *Env, x *ast.CallExpr) sv {
			return sv{e.r.crcOf(e.r.c.BVc(big.NewInt(0xFFFF), 16), e.seq(x.Args[0])), types.Typ[types.Uint16]}
		},
		"bit": func(e *Env, x *ast.CallExpr) sv { // bit k of an octet
			r, c := e.r, e.r.c
			t := e.term(x.Args[0])
			k, _ := e.intTerm(x.Args[1]).Int64()
			if t.sort > 0 {
				w := t.sort
				return sv{c.Eq(c.bvOp("bvand", w, t, c.BVc(pow2(uint(k)), int(w))), c.BVc(pow2(uint(k)), int(w))), boolT}
			}
			_ = r
			return sv{c.Eq(c.Mod(c.Div(t, pow2(uint(k))), big.NewInt(2)), c.One), boolT}
		},
		"xor20": func(e *Env, x *ast.CallExpr) sv { // the escape of an octet
			c := e.r.c
			t := e.term(x.Args[0])
			if t.sort == SInt {
				t = c.Int2BV(t, 8)
			}
			return sv{c.bvOp("bvxor", Sort(8), t, c.BVc(big.NewInt(0x20), 8)), byteT}
		},
		"crcstep": func(e *Env, x *ast.CallExpr) sv {
			return sv{crcStep(e.r.c, e.term(x.Args[0]), e.term(x.Args[1])), types.Typ[types.Uint16]}
		},
		"not16": func(e *Env, x *ast.CallExpr) sv {
			return sv{e.r.c.bvOp("bvnot", Sort(16), e.term(x.Args[0])), types.Typ[types.Uint16]}
		},
		"lo8": func(e *Env, x *ast.CallExpr) sv {
			return sv{e.r.c.Resize(e.term(x.Args[0]), 8, false), byteT}
		},
		"hi8": func(e *Env, x *ast.CallExpr) sv {
			c := e.r.c
			t := e.term(x.Args[0])
			return sv{c.Resize(c.bvOp("bvlshr", Sort(16), t, c.BVc(big.NewInt(8), 16)), 8, false), byteT}
		},
	}
}
