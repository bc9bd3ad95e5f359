package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Queries with bit vectors are split into components that share no symbol;
// a component whose integers are all bounded becomes a pure bit-vector query
// (integers as signed vectors wide enough for every intermediate value).

func hasBVTerm(t *Term, memo map[*Term]bool) bool {
	if v, ok := memo[t]; ok {
		return v
	}
	memo[t] = false
	r := t.sort > 0 || t.op == OBV
	for _, a := range t.args {
		if hasBVTerm(a, memo) {
			r = true
		}
	}
	memo[t] = r
	return r
}

// components partitions the hypotheses by shared variables and functions; nil when one cannot be split off.
func components(hs []*Term) [][]*Term {
	parent := map[string]string{}
	var find func(x string) string
	find = func(x string) string {
		if p := parent[x]; p != "" && p != x {
			r := find(p)
			parent[x] = r
			return r
		}
		return x
	}
	seen := map[*Term]string{} // representative symbol of a term, "" if ground
	var walk func(t *Term) (string, bool)
	walk = func(t *Term) (string, bool) {
		if s, ok := seen[t]; ok {
			return s, true
		}
		if t.op == OForall || t.op == OApp && strings.HasPrefix(t.name, "crc!") {
			return "", false
		}
		rep := ""
		if t.op == OVar || t.op == OApp {
			rep = t.name
			if parent[rep] == "" {
				parent[rep] = rep
			}
		}
		for _, a := range t.args {
			r, ok := walk(a)
			if !ok {
				return "", false
			}
			if r != "" {
				if rep == "" {
					rep = r
				} else {
					parent[find(r)] = find(rep)
				}
			}
		}
		seen[t] = rep
		return rep, true
	}
	reps := make([]string, len(hs))
	for i, h := range hs {
		r, ok := walk(h)
		if !ok {
			return nil
		}
		reps[i] = r
	}
	idx := map[string]int{}
	var out [][]*Term
	for i, h := range hs {
		k := ""
		if reps[i] != "" {
			k = find(reps[i])
		}
		j, ok := idx[k]
		if !ok {
			j = len(out)
			idx[k] = j
			out = append(out, nil)
		}
		out[j] = append(out[j], h)
	}
	return out
}

type bvTr struct {
	W       int
	need    int
	let     map[*Term]string
	sb      strings.Builder
	decl    map[string]bool
	apps    map[string]int
	lo      map[*Term]*big.Int
	hi      map[*Term]*big.Int
	rangeOK map[*Term]bool
}

func (b *bvTr) widen(v *big.Int) {
	if n := v.BitLen() + 2; n > b.need {
		b.need = n
	}
}

// bounds computes an interval of every integer subterm and the width all of them need.
func (b *bvTr) bounds(t *Term) bool {
	if v, ok := b.rangeOK[t]; ok {
		return v
	}
	b.rangeOK[t] = false
	if t.op == OForall || t.op == OMul {
		return false
	}
	for _, a := range t.args {
		if !b.bounds(a) {
			return false
		}
	}
	if t.sort != SInt {
		b.rangeOK[t] = true
		return true
	}
	var lo, hi *big.Int
	switch t.op {
	case OConst:
		lo, hi = t.num, t.num
	case OVar, OApp:
		lo, hi = t.lo, t.hi
	case OBV:
		w := uint(t.args[0].sort)
		if t.name == "ubv2int" {
			lo, hi = bigZero, new(big.Int).Sub(pow2(w), bigOne)
		} else if t.name == "sbv2int" {
			lo, hi = new(big.Int).Neg(pow2(w-1)), new(big.Int).Sub(pow2(w-1), bigOne)
		}
	case OLin:
		lo, hi = new(big.Int).Set(t.num), new(big.Int).Set(t.num)
		mag := new(big.Int).Abs(t.num)
		for i, a := range t.args {
			x := new(big.Int).Mul(t.coefs[i], b.lo[a])
			y := new(big.Int).Mul(t.coefs[i], b.hi[a])
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
			m := new(big.Int).Abs(x)
			if n := new(big.Int).Abs(y); n.Cmp(m) > 0 {
				m = n
			}
			mag.Add(mag, m)
		}
		b.widen(mag)
	case ODiv, OMod:
		p2 := t.num.Sign() > 0 && pow2(uint(t.num.BitLen()-1)).Cmp(t.num) == 0
		if !p2 && b.lo[t.args[0]].Sign() < 0 {
			return false
		}
		b.widen(t.num)
		if t.op == OMod {
			lo, hi = bigZero, new(big.Int).Sub(t.num, bigOne)
		} else {
			lo, hi = floorDiv(b.lo[t.args[0]], t.num), floorDiv(b.hi[t.args[0]], t.num)
		}
	case OIte:
		lo, hi = minB2(b.lo[t.args[1]], b.lo[t.args[2]]), maxB2(b.hi[t.args[1]], b.hi[t.args[2]])
	}
	if lo == nil || hi == nil {
		return false
	}
	b.widen(lo)
	b.widen(hi)
	b.lo[t], b.hi[t] = lo, hi
	b.rangeOK[t] = true
	return true
}

func minB2(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB2(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (b *bvTr) num(v *big.Int) string {
	x := new(big.Int).Mod(v, pow2(uint(b.W)))
	return fmt.Sprintf("(_ bv%s %d)", x.String(), b.W)
}

func (b *bvTr) sortOf(t *Term) string {
	if t.sort == SInt {
		return fmt.Sprintf("(_ BitVec %d)", b.W)
	}
	return sortStr(t.sort)
}

func (b *bvTr) tr(t *Term) string {
	if s, ok := b.let[t]; ok {
		return s
	}
	var as []string
	if t.op != OApp {
		for _, a := range t.args {
			as = append(as, b.tr(a))
		}
	}
	s := ""
	rec := func(op string) string { return "(" + op + " " + strings.Join(as, " ") + ")" }
	switch t.op {
	case OConst:
		if t.sort == SInt {
			s = b.num(t.num)
		} else {
			s = fmt.Sprintf("(_ bv%s %d)", t.num.String(), int(t.sort))
		}
	case OBool:
		s = "true"
		if t.IsFalse() {
			s = "false"
		}
	case OVar, OApp:
		n := t.name
		if t.op == OApp {
			n = fmt.Sprintf("app!%d!%s", t.id, t.name)
			b.apps[t.name]++
		}
		s = smtName(n)
		fmt.Fprintf(&b.sb, "(declare-const %s %s)\n", s, b.sortOf(t))
		if t.sort == SInt {
			fmt.Fprintf(&b.sb, "(assert (and (bvsle %s %s) (bvsle %s %s)))\n", b.num(t.lo), s, s, b.num(t.hi))
		}
		b.let[t] = s
		return s
	case OLin:
		var ps []string
		for i, a := range as {
			if t.coefs[i].Cmp(bigOne) == 0 {
				ps = append(ps, a)
			} else {
				ps = append(ps, "(bvmul "+b.num(t.coefs[i])+" "+a+")")
			}
		}
		s = b.num(t.num)
		for _, p := range ps {
			s = "(bvadd " + p + " " + s + ")"
		}
	case ODiv, OMod:
		p2 := pow2(uint(t.num.BitLen()-1)).Cmp(t.num) == 0
		switch {
		case p2 && t.op == ODiv:
			s = "(bvashr " + as[0] + " " + b.num(big.NewInt(int64(t.num.BitLen()-1))) + ")"
		case p2:
			s = "(bvand " + as[0] + " " + b.num(new(big.Int).Sub(t.num, bigOne)) + ")"
		case t.op == ODiv:
			s = "(bvudiv " + as[0] + " " + b.num(t.num) + ")"
		default:
			s = "(bvurem " + as[0] + " " + b.num(t.num) + ")"
		}
	case OIte:
		s = rec("ite")
	case OEq:
		s = rec("=")
	case OLe:
		s = "(bvsle " + as[0] + " " + b.num(bigZero) + ")"
	case ONot:
		s = rec("not")
	case OAnd:
		s = rec("and")
	case OOr:
		s = rec("or")
	case OBV:
		switch t.name {
		case "zext":
			s = fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort)-int(t.args[0].sort), as[0])
		case "sext":
			s = fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort)-int(t.args[0].sort), as[0])
		case "extract":
			s = fmt.Sprintf("((_ extract %d 0) %s)", int(t.sort)-1, as[0])
		case "ubv2int":
			s = fmt.Sprintf("((_ zero_extend %d) %s)", b.W-int(t.args[0].sort), as[0])
		case "sbv2int":
			s = fmt.Sprintf("((_ sign_extend %d) %s)", b.W-int(t.args[0].sort), as[0])
		case "int2bv":
			w := int(t.sort)
			switch {
			case w < b.W:
				s = fmt.Sprintf("((_ extract %d 0) %s)", w-1, as[0])
			case w > b.W:
				s = fmt.Sprintf("((_ sign_extend %d) %s)", w-b.W, as[0])
			default:
				s = as[0]
			}
		default:
			s = rec(t.name)
		}
	}
	if len(t.args) > 0 {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&b.sb, "(define-fun %s () %s %s)\n", n, b.sortOf(t), s)
		s = n
	}
	b.let[t] = s
	return s
}

// bvQuery renders hs as a pure bit-vector query; exact is false when a model need not be one of hs.
func bvQuery(hs []*Term) (q string, exact, ok bool) {
	b := &bvTr{let: map[*Term]string{}, apps: map[string]int{}, lo: map[*Term]*big.Int{}, hi: map[*Term]*big.Int{}, rangeOK: map[*Term]bool{}}
	for _, h := range hs {
		if !b.bounds(h) {
			return "", false, false
		}
	}
	b.W = b.need
	if b.W < 2 {
		b.W = 2
	}
	b.sb.WriteString("(set-logic QF_BV)\n")
	for _, h := range hs {
		s := b.tr(h)
		b.sb.WriteString("(assert " + s + ")\n")
	}
	exact = true
	for _, n := range b.apps {
		if n > 1 {
			exact = false
		}
	}
	return b.sb.String(), exact, true
}

// bvCheck decides a conjunction with bit vectors component by component.
func (s *Solver) bvCheck(hs []*Term) SatRes {
	comps := components(hs)
	if comps == nil {
		return Unknown
	}
	res := Sat
	memo := map[*Term]bool{}
	for _, k := range comps {
		var kb strings.Builder
		for _, h := range k {
			fmt.Fprintf(&kb, "%d,", h.id)
		}
		key := "c" + kb.String()
		r, hit := s.cache[key]
		if !hit {
			bv := false
			for _, h := range k {
				if hasBVTerm(h, memo) {
					bv = true
				}
			}
			if !bv {
				r = s.inc.check(k)
			} else if q, exact, ok := bvQuery(k); ok {
				r = s.z3(q, s.Timeout)
				if r == Sat && !exact {
					r = Unknown
				}
			}
			s.cache[key] = r
		}
		if r == Unsat {
			return Unsat
		}
		if r == Unknown {
			res = Unknown
		}
	}
	return res
}
