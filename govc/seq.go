package main

import (
	"fmt"
	"math/big"
	"os"
	"strings"
)

// Sequences are kept by the engine as a concatenation of units and slices of
// atoms; they never reach the solver except through len and at terms.

type Atom struct {
	fn     string
	args   []*Term
	sargs  []*Seq
	len    *Term
	esort  Sort
	lo, hi *big.Int // element bounds (Int elements)
	key    string
	ids    []*Term
}

type Seg struct {
	unit    *Term
	atom    *Atom
	from, n *Term
}

type Seq struct{ segs []Seg }

var emptySeq = &Seq{}

func (s *Seq) key() string {
	var sb strings.Builder
	for _, g := range s.segs {
		if g.unit != nil {
			fmt.Fprintf(&sb, "u%d;", g.unit.id)
		} else {
			fmt.Fprintf(&sb, "%s[%d+%d];", g.atom.key, g.from.id, g.n.id)
		}
	}
	return sb.String()
}

func (s *Seq) String() string {
	var p []string
	for _, g := range s.segs {
		if g.unit != nil {
			p = append(p, g.unit.String())
		} else {
			a := g.atom.String()
			if g.from == nil || !(g.from.IsConst() && g.from.num.Sign() == 0) || g.n != g.atom.len {
				a += fmt.Sprintf("[%s;+%s]", g.from, g.n)
			}
			p = append(p, a)
		}
	}
	return "<" + strings.Join(p, " ") + ">"
}

func (a *Atom) String() string {
	var p []string
	for _, x := range a.args {
		p = append(p, x.String())
	}
	for _, x := range a.sargs {
		p = append(p, x.String())
	}
	return a.fn + "(" + strings.Join(p, ",") + ")"
}

// seqID interns a sequence as an Int constant (used as argument of uninterpreted functions).
func (c *Ctx) SeqID(s *Seq) *Term {
	k := s.key()
	if t, ok := c.seqID[k]; ok {
		return t
	}
	t := c.Int(int64(-1000 - len(c.seqID)))
	c.seqID[k] = t
	return t
}

type AtomOpt struct {
	len    *Term // known length (nil: uninterpreted)
	minLen int64
	esort  Sort
	lo, hi *big.Int
}

func (c *Ctx) Atom(fn string, args []*Term, sargs []*Seq, o AtomOpt) *Atom {
	var sb strings.Builder
	sb.WriteString(fn + "(")
	ids := append([]*Term{}, args...)
	for _, s := range sargs {
		ids = append(ids, c.SeqID(s))
	}
	for _, t := range ids {
		fmt.Fprintf(&sb, "%d,", t.id)
	}
	fmt.Fprintf(&sb, ")%d", o.esort)
	if o.len != nil {
		fmt.Fprintf(&sb, "#%d", o.len.id)
	}
	k := sb.String()
	if a, ok := c.seqs[k]; ok {
		return a
	}
	a := &Atom{fn: fn, args: args, sargs: sargs, esort: o.esort, lo: o.lo, hi: o.hi, key: k, ids: ids}
	if o.len != nil {
		a.len = o.len
	} else {
		a.len = c.App("len!"+fn, SInt, big.NewInt(o.minLen), pow2(40), ids...)
	}
	c.seqs[k] = a
	return a
}

func (c *Ctx) atomAt(a *Atom, k *Term) *Term {
	if a.fn == "rep" {
		return a.args[0]
	}
	return c.App(fmt.Sprintf("at!%s!%d", a.fn, a.esort), a.esort, a.lo, a.hi, append(append([]*Term{}, a.ids...), k)...)
}

func (c *Ctx) whole(a *Atom) *Seq {
	return c.slice(a, c.Zero, a.len)
}
func (c *Ctx) slice(a *Atom, from, n *Term) *Seq {
	if n.IsConst() && n.num.Sign() <= 0 {
		return emptySeq
	}
	if v, ok := n.Int64(); ok && v == 1 && a.fn != "rep" {
		return c.unit(c.atomAt(a, from))
	}
	if v, ok := n.Int64(); ok && a.fn == "rep" && v <= 16 {
		s := &Seq{}
		for i := int64(0); i < v; i++ {
			s.segs = append(s.segs, Seg{unit: a.args[0]})
		}
		return s
	}
	return &Seq{segs: []Seg{{atom: a, from: from, n: n}}}
}
func (c *Ctx) unit(t *Term) *Seq { return &Seq{segs: []Seg{{unit: t}}} }

// rep is the sequence of n copies of v.
func (c *Ctx) rep(v, n *Term) *Seq {
	a := c.Atom("rep", []*Term{v, n}, nil, AtomOpt{len: n, esort: v.sort})
	return c.slice(a, c.Zero, n)
}

func (c *Ctx) segLen(g Seg) *Term {
	if g.unit != nil {
		return c.One
	}
	return g.n
}

func (c *Ctx) SeqLen(s *Seq) *Term {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	for _, g := range s.segs {
		c.addTo(&l, c.segLen(g), bigOne)
	}
	return c.fromLin(l)
}

func (c *Ctx) Cat(ss ...*Seq) *Seq {
	out := &Seq{}
	for _, s := range ss {
		for _, g := range s.segs {
			c.push(out, g)
		}
	}
	return out
}

func (c *Ctx) push(out *Seq, g Seg) {
	if g.atom != nil && g.n.IsConst() && g.n.num.Sign() <= 0 {
		return
	}
	if n := len(out.segs); n > 0 {
		p := out.segs[n-1]
		if p.atom != nil {
			end := c.Add(p.from, p.n)
			if g.atom == p.atom && g.from == end {
				out.segs[n-1] = Seg{atom: p.atom, from: p.from, n: c.Add(p.n, g.n)}
				return
			}
			if g.unit != nil && p.atom.fn != "rep" && c.atomAt(p.atom, end) == g.unit {
				out.segs[n-1] = Seg{atom: p.atom, from: p.from, n: c.Add(p.n, c.One)}
				return
			}
		} else if g.atom != nil && g.atom.fn != "rep" {
			j := c.Sub(g.from, c.One)
			if p.unit.op == OApp && c.atomAt(g.atom, j) == p.unit {
				out.segs = out.segs[:n-1]
				c.push(out, Seg{atom: g.atom, from: j, n: c.Add(g.n, c.One)})
				return
			}
		} else if g.unit != nil && p.unit.op == OApp && g.unit.op == OApp && p.unit.name == g.unit.name && strings.HasPrefix(p.unit.name, "at!") {
			// two consecutive elements of one atom: merge into a slice
			if a := c.atomOfAt(p.unit); a != nil {
				k := p.unit.args[len(p.unit.args)-1]
				if c.atomAt(a, c.Add(k, c.One)) == g.unit {
					out.segs = out.segs[:n-1]
					c.push(out, Seg{atom: a, from: k, n: c.Int(2)})
					return
				}
			}
		}
	}
	out.segs = append(out.segs, g)
}

func (c *Ctx) atomOfAt(t *Term) *Atom {
	fn := strings.TrimPrefix(t.name, "at!")
	i := strings.LastIndex(fn, "!")
	es := fn[i+1:]
	fn = fn[:i]
	var sb strings.Builder
	sb.WriteString(fn + "(")
	for _, a := range t.args[:len(t.args)-1] {
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	sb.WriteString(")" + es)
	return c.seqs[sb.String()]
}

// ---- operations that may need decisions under the path condition

func (r *Run) seqAt(s *Seq, k *Term) *Term {
	c := r.c
	if v := c.tableAt(s, k); v != nil {
		return v
	}
	var conds, vals []*Term
	cum := c.Zero
	for i, g := range s.segs {
		kk := c.Sub(k, cum)
		var v *Term
		if g.unit != nil {
			v = g.unit
		} else {
			v = r.atomAtDef(g, kk)
		}
		L := c.segLen(g)
		if i == len(s.segs)-1 {
			conds = append(conds, c.T)
			vals = append(vals, v)
			break
		}
		in := c.Lt(kk, L)
		if !in.IsTrue() && !in.IsFalse() && len(r.bound) == 0 {
			switch r.known(in) {
			case 1:
				in = c.T
			case -1:
				in = c.F
			}
		}
		if in.IsTrue() {
			conds = append(conds, c.T)
			vals = append(vals, v)
			break
		}
		if !in.IsFalse() {
			conds = append(conds, in)
			vals = append(vals, v)
		}
		cum = c.Add(cum, L)
	}
	if len(vals) == 0 {
		return c.Int(0)
	}
	res := vals[len(vals)-1]
	for i := len(vals) - 2; i >= 0; i-- {
		res = c.Ite(conds[i], vals[i], res)
	}
	return res
}

// tableAt: a constant table of 2^m entries indexed by a bit-vector, as a decision tree over the bits of the index.
func (c *Ctx) tableAt(s *Seq, k *Term) *Term {
	n := len(s.segs)
	if n < 16 || n&(n-1) != 0 || k.IsConst() {
		return nil
	}
	b := c.bv64(k, 0)
	if b == nil {
		return nil
	}
	if k.op == OBV && k.name == "ubv2int" {
		b = k.args[0]
	}
	for _, g := range s.segs {
		if g.unit == nil || !g.unit.IsConst() {
			return nil
		}
	}
	w := int(b.sort)
	m := 0
	for 1<<uint(m) < n {
		m++
	}
	if w < m {
		return nil
	}
	var rec func(lo, bit int) *Term
	rec = func(lo, bit int) *Term {
		if bit < 0 {
			return s.segs[lo].unit
		}
		z := c.Eq(c.bvOp("bvand", Sort(w), b, c.BVc(pow2(uint(bit)), w)), c.BVc(bigZero, w))
		return c.Ite(z, rec(lo, bit-1), rec(lo+1<<uint(bit), bit-1))
	}
	return rec(0, m-1)
}

// split cuts s after n elements (0 <= n <= len(s) must hold on the path).
func (r *Run) split(s *Seq, n *Term) (*Seq, *Seq) {
	c := r.c
	out := &Seq{}
	for i, g := range s.segs {
		if n.IsConst() && n.num.Sign() <= 0 {
			return out, &Seq{segs: append([]Seg{}, s.segs[i:]...)}
		}
		L := c.segLen(g)
		whole := c.Le(L, n)
		if i == len(s.segs)-1 && g.unit == nil && atomDefs[g.atom.fn] == nil && r.known(whole) == 0 && r.known(c.Le(n, L)) == 1 {
			// the rest may be empty; no need to know
			a := c.Cat(out, c.slice(g.atom, g.from, n))
			return a, c.slice(g.atom, c.Add(g.from, n), c.Sub(L, n))
		}
		if r.decide(whole) {
			c.push(out, g)
			n = c.Sub(n, L)
			continue
		}
		// n < L
		if g.unit != nil {
			return out, &Seq{segs: append([]Seg{}, s.segs[i:]...)} // n < 1
		}
		if r.known(c.Eq(n, c.Zero)) == 1 {
			return out, &Seq{segs: append([]Seg{}, s.segs[i:]...)}
		}
		if r.unfolds > 12 {
			panic(unsupported{"split of a fold at an unknown position"})
		}
		d := func() []*Seq {
			r.unfolds++
			defer func() { r.unfolds-- }()
			return r.splitFold(g, n)
		}()
		if d != nil {
			return c.Cat(out, d[0]), c.Cat(d[1], &Seq{segs: s.segs[i+1:]})
		}
		a := c.Cat(out, c.slice(g.atom, g.from, n))
		b := c.Cat(c.slice(g.atom, c.Add(g.from, n), c.Sub(L, n)), &Seq{segs: s.segs[i+1:]})
		return a, b
	}
	return out, emptySeq
}

func (r *Run) take(s *Seq, n *Term) *Seq { a, _ := r.split(s, n); return a }
func (r *Run) drop(s *Seq, n *Term) *Seq { _, b := r.split(s, n); return b }
func (r *Run) sub(s *Seq, from, n *Term) *Seq {
	return r.take(r.drop(s, from), n)
}

// norm drops slices that are known to be empty.
func (r *Run) norm(s *Seq) *Seq {
	c := r.c
	out := &Seq{}
	for _, g := range s.segs {
		if g.atom != nil && !(g.n.lo != nil && g.n.lo.Sign() > 0) {
			if r.known(c.Le(g.n, c.Zero)) == 1 {
				continue
			}
		}
		c.push(out, g)
	}
	return out
}

// seqEq proves a == b; it returns the list of goals that are left (all have to hold),
// or ok=false with a reason.
func (r *Run) seqEq(a, b *Seq) (bool, string) {
	c := r.c
	if a.key() == b.key() {
		return true, ""
	}
	prove := func(t *Term) bool { return r.valid(t) }
	x, y := r.norm(a), r.norm(b)
	for steps := 0; steps < 4000; steps++ {
		if len(x.segs) == 0 && len(y.segs) == 0 {
			return true, ""
		}
		if len(x.segs) == 0 || len(y.segs) == 0 {
			z := x
			if len(z.segs) == 0 {
				z = y
			}
			if prove(c.Le(c.SeqLen(z), c.Zero)) {
				return true, ""
			}
			// a fold or defined atom may unfold to nothing
			if z.segs[0].atom != nil {
				if u := r.unfold(z.segs[0]); u != nil {
					nz := c.Cat(u, &Seq{segs: z.segs[1:]})
					if z == x {
						x = r.norm(nz)
					} else {
						y = r.norm(nz)
					}
					continue
				}
			}
			if os.Getenv("GOVC_PC") != "" {
				for _, t := range r.pc {
					fmt.Println("      pc", t)
				}
			}
			return false, fmt.Sprintf("remaining %s has no counterpart in %s vs %s", z, a, b)
		}
		g, h := x.segs[0], y.segs[0]
		xr, yr := &Seq{segs: x.segs[1:]}, &Seq{segs: y.segs[1:]}
		switch {
		case g.unit != nil && h.unit != nil:
			if !prove(c.Eq(g.unit, h.unit)) {
				return false, fmt.Sprintf("element %s differs from %s", g.unit, h.unit)
			}
			x, y = xr, yr
			continue
		case g.atom != nil && h.atom != nil && g.atom.fn == h.atom.fn && len(g.atom.args) == len(h.atom.args) && len(g.atom.sargs) == len(h.atom.sargs):
			if isFold(g.atom) {
				if nx, ny, ok := r.matchFold(g, h); ok {
					x, y = r.norm(c.Cat(nx, xr)), r.norm(c.Cat(ny, yr))
					continue
				}
			}
			same := g.atom == h.atom
			if !same {
				same = true
				for i := range g.atom.args {
					if g.atom.args[i].sort != h.atom.args[i].sort || !prove(c.Eq(g.atom.args[i], h.atom.args[i])) {
						same = false
						break
					}
				}
				for i := range g.atom.sargs {
					if !same {
						break
					}
					if ok, _ := r.seqEq(g.atom.sargs[i], h.atom.sargs[i]); !ok {
						same = false
					}
				}
			}
			if same && (g.atom.fn == "rep" || prove(c.Eq(g.from, h.from))) {
				if g.n == h.n || prove(c.Eq(g.n, h.n)) {
					x, y = xr, yr
					continue
				}
				if prove(c.Lt(g.n, h.n)) {
					x = xr
					y = c.Cat(c.slice(h.atom, c.Add(h.from, g.n), c.Sub(h.n, g.n)), yr)
					continue
				}
				if prove(c.Lt(h.n, g.n)) {
					y = yr
					x = c.Cat(c.slice(g.atom, c.Add(g.from, h.n), c.Sub(g.n, h.n)), xr)
					continue
				}
			}
		case g.unit != nil && h.atom != nil:
			if !hasDef(r, h.atom) && prove(c.Le(c.One, h.n)) {
				if !prove(c.Eq(g.unit, c.atomAt(h.atom, h.from))) {
					return false, fmt.Sprintf("element %s differs from %s", g.unit, c.atomAt(h.atom, h.from))
				}
				x = xr
				y = c.Cat(c.slice(h.atom, c.Add(h.from, c.One), c.Sub(h.n, c.One)), yr)
				continue
			}
		case g.atom != nil && h.unit != nil:
			if !hasDef(r, g.atom) && prove(c.Le(c.One, g.n)) {
				if !prove(c.Eq(h.unit, c.atomAt(g.atom, g.from))) {
					return false, fmt.Sprintf("element %s differs from %s", h.unit, c.atomAt(g.atom, g.from))
				}
				y = yr
				x = c.Cat(c.slice(g.atom, c.Add(g.from, c.One), c.Sub(g.n, c.One)), xr)
				continue
			}
		}
		// unfold definitions
		if g.atom != nil {
			if u := r.unfold(g); u != nil {
				x = r.norm(c.Cat(u, xr))
				continue
			}
		}
		if h.atom != nil {
			if u := r.unfold(h); u != nil {
				y = r.norm(c.Cat(u, yr))
				continue
			}
		}
		// pointwise
		if !prove(c.Eq(c.SeqLen(x), c.SeqLen(y))) {
			return false, fmt.Sprintf("lengths differ: %s vs %s", x, y)
		}
		k := r.freshInt("k", bigZero, pow2(40))
		r.bound = append(r.bound, k)
		in := c.Lt(k, c.SeqLen(x))
		ex, ey := r.seqAt(x, k), r.seqAt(y, k)
		r.bound = r.bound[:len(r.bound)-1]
		if ex.sort == ey.sort && prove(c.Imp(in, c.Eq(ex, ey))) {
			return true, ""
		}
		return false, fmt.Sprintf("sequences differ: %s vs %s", x, y)
	}
	return false, "sequence comparison too long"
}

// atomAtDef: element kk of a segment; definitional atoms are opened so that their octets are known.
func (r *Run) atomAtDef(g Seg, kk *Term) *Term {
	c := r.c
	if d := atomDefs[g.atom.fn]; d != nil && d.def != nil && kk.IsConst() && kk.num.Sign() >= 0 && len(r.bound) == 0 && g.from.IsConst() {
		if s := r.unfold(Seg{atom: g.atom, from: c.Zero, n: g.atom.len}); s != nil {
			if x, ok := c.Add(g.from, kk).Int64(); ok && x < int64(len(s.segs)) && s.segs[x].unit != nil {
				return s.segs[x].unit
			}
		}
	}
	if isFold(g.atom) && len(r.bound) == 0 {
		k := c.Add(g.from, kk)
		in := g.atom.sargs[0].segs[0]
		if !k.IsConst() && r.known(c.Eq(k, c.Sub(g.atom.len, c.One))) == 1 && r.known(c.Lt(c.Zero, in.n)) == 1 {
			// the last octet belongs to the last element
			last := atomDefs[g.atom.fn].elem(r, c.atomAt(in.atom, c.Add(in.from, c.Sub(in.n, c.One))))
			r.fold(atomDefs[g.atom.fn], c.slice(in.atom, in.from, c.Sub(in.n, c.One)))
			if n := len(last.segs); n == 1 && last.segs[0].atom != nil {
				last = r.unfold(last.segs[0])
			}
			if last != nil {
				if u := last.segs[len(last.segs)-1]; u.unit != nil {
					return u.unit
				}
			}
		}
		if h, delta := r.foldPrefix(g.atom, k); h != nil {
			in, x := g.atom.sargs[0].segs[0], h.sargs[0].segs[0]
			if r.known(c.Lt(x.n, in.n)) == 1 {
				s := r.fold(atomDefs[g.atom.fn], c.slice(in.atom, c.Add(in.from, x.n), c.Sub(in.n, x.n)))
				if len(s.segs) > 0 && s.segs[0].unit == nil && isFold(s.segs[0].atom) {
					s = r.unfold(s.segs[0])
				}
				if s != nil {
					return r.seqAt(s, c.Int(delta))
				}
			}
		}
	}
	return c.atomAt(g.atom, c.Add(g.from, kk))
}

// nonZero: the number of elements of a sequence that are not zero. Slices of an
// atom are differences of its prefix counts; the counts at the positions spoken
// of are related by the definition (one step) and by monotonicity.
func (r *Run) nonZero(s *Seq) *Term {
	c := r.c
	one := func(x *Term) *Term {
		z := c.Zero
		if x.sort > 0 {
			z = c.Int2BV(c.Zero, int(x.sort))
		}
		return c.Ite(c.Eq(x, z), c.Zero, c.One)
	}
	out := c.Zero
	for _, g := range r.norm(s).segs {
		switch {
		case g.unit != nil:
			out = c.Add(out, one(g.unit))
		case g.atom.fn == "rep":
			if !g.atom.args[0].IsConst() {
				panic(unsupported{"count of a repetition"})
			}
			if g.atom.args[0].num.Sign() != 0 {
				out = c.Add(out, g.n)
			}
		default:
			out = c.Add(out, c.Sub(r.nzPrefix(g.atom, c.Add(g.from, g.n), one), r.nzPrefix(g.atom, g.from, one)))
		}
	}
	return out
}

func (r *Run) nzPrefix(a *Atom, k *Term, one func(*Term) *Term) *Term {
	c := r.c
	at := func(k *Term) *Term {
		return c.App("nz!"+a.fn, SInt, bigZero, maxLen, append(append([]*Term{}, a.ids...), k)...)
	}
	if r.nzPts == nil {
		r.nzPts = map[string][]*Term{}
	}
	t := at(k)
	for _, x := range r.nzPts[a.key] {
		if x == k {
			return t
		}
	}
	if len(r.nzPts[a.key]) == 0 {
		r.assume(c.Eq(at(c.Zero), c.Zero))
	}
	// the step at k
	n := at(c.Add(k, c.One))
	in := c.And(c.Le(c.Zero, k), c.Lt(k, a.len))
	r.assume(c.Imp(in, c.Eq(n, c.Add(t, one(c.atomAt(a, k))))))
	mono := func(x, y *Term) {
		d := c.Sub(at(y), at(x))
		r.assume(c.Imp(c.And(c.Le(c.Zero, x), c.Le(x, y), c.Le(y, a.len)), c.And(c.Le(c.Zero, d), c.Le(d, c.Sub(y, x)))))
	}
	for _, x := range append([]*Term{c.Zero}, r.nzPts[a.key]...) {
		if x == k {
			continue
		}
		mono(x, k)
		mono(k, x)
		mono(c.Add(x, c.One), k)
		mono(c.Add(k, c.One), x)
	}
	r.nzPts[a.key] = append(r.nzPts[a.key], k)
	return t
}
