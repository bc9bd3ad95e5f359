package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- locations of modifies clauses

type loc struct {
	key      string
	typ      types.Type
	idx      []*Term
	all, any bool
}

func (e *Env) locs(x ast.Expr) []loc {
	r := e.r
	switch y := x.(type) {
	case *ast.Ident:
		if y.Name == "any" {
			return []loc{{any: true}}
		}
		if y.Name == "nothing" {
			return nil
		}
	case *ast.CallExpr:
		switch exprStr(y.Fun) {
		case "buf":
			return []loc{{key: "bytes.Buffer.$buf", typ: seqByteT, idx: []*Term{e.bufRef(y.Args[0])}}}
		case "rest":
			ref := e.rdrRef(y.Args[0])
			return []loc{{key: "bytes.Reader.$rest", typ: seqByteT, idx: []*Term{ref}}, {key: "bytes.Reader.$pre", typ: seqByteT, idx: []*Term{ref}}}
		case "content":
			v := e.eval(y.Args[0])
			s := v.v.(SliceV)
			var out []loc
			el := sliceElem(v.t)
			for _, k := range rowComps(el) {
				out = append(out, loc{key: rowKey(el) + k, typ: nil, idx: []*Term{s.ref}})
			}
			return out
		case "list":
			l := e.term(y.Args[0])
			return []loc{{key: "list.List.$tags", typ: seqRefT, idx: []*Term{l}}, {key: "list.List.$vals", typ: seqRefT, idx: []*Term{l}}}
		case "mapof":
			m := e.eval(y.Args[0])
			mt := m.t.Underlying().(*types.Map)
			n := mapName(mt)
			ref := m.v.(*Term)
			return []loc{{key: "mapdom:" + n, typ: boolT, idx: []*Term{ref}}, {key: "mapval:" + n, typ: mt.Elem(), idx: []*Term{ref}}, {key: "maplen:" + n, typ: seqLenT, idx: []*Term{ref}}}
		case "mapat": // one entry of a map
			m := e.eval(y.Args[0])
			mt := m.t.Underlying().(*types.Map)
			n := mapName(mt)
			ref := m.v.(*Term)
			idx := append([]*Term{ref}, r.keyTerms(e.eval(y.Args[1]).v)...)
			return []loc{{key: "mapdom:" + n, typ: boolT, idx: idx}, {key: "mapval:" + n, typ: mt.Elem(), idx: idx}, {key: "maplen:" + n, typ: seqLenT, idx: []*Term{ref}}}
		case "fields":
			v := e.eval(y.Args[0])
			return r.fieldLocs(v.t.Underlying().(*types.Pointer).Elem(), v.v.(*Term))
		case "every":
			k := strings.Trim(exprStr(y.Args[0]), "\"")
			var t types.Type
			if i := strings.LastIndex(k, "."); i >= 0 {
				if n := r.t.P.types[k[:i]]; n != nil {
					for _, f := range structFields(n) {
						if f.name == k[i+1:] {
							t = f.typ
						}
					}
				}
			}
			return []loc{{key: k, typ: t, all: true}}
		case "everymap":
			k := strings.Trim(exprStr(y.Args[0]), "\"")
			var out []loc
			for _, p := range []string{"mapdom:", "mapval:", "maplen:"} {
				f := r.heap[p+k]
				var t types.Type = boolT
				if f != nil {
					t = f.typ
				}
				out = append(out, loc{key: p + k, typ: t, all: true})
			}
			return out
		}
	case *ast.SelectorExpr:
		b := e.eval(y.X)
		pt, ok := b.t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		for _, f := range structFields(pt.Elem()) {
			if f.name == y.Sel.Name {
				p := b.v.(*Term)
				_, arr := isArray(f.typ)
				if !f.seq && (isStruct(f.typ) || arr) {
					return r.fieldLocs(f.typ, r.emb(pt.Elem(), f.name, p))
				}
				return []loc{{key: fkey(pt.Elem(), f.name), typ: f.typ, idx: []*Term{p}}}
			}
		}
	}
	e.fail(x, "not a location")
	return nil
}

func (r *Run) fieldLocs(t types.Type, p *Term) []loc {
	var out []loc
	if a, ok := isArray(t); ok {
		if isStruct(a.Elem()) {
			for _, l := range r.fieldLocs(a.Elem(), r.elemRef(a.Elem(), p, r.c.Zero)) {
				out = append(out, loc{key: l.key, typ: l.typ, idx: []*Term{r.within(p)}})
			}
			return out
		}
		for _, k := range rowComps(a.Elem()) {
			out = append(out, loc{key: rowKey(a.Elem()) + k, idx: []*Term{p}})
		}
		return out
	}
	for _, f := range structFields(t) {
		_, arr := isArray(f.typ)
		if !f.seq && (isStruct(f.typ) || arr) {
			out = append(out, r.fieldLocs(f.typ, r.emb(t, f.name, p))...)
			continue
		}
		out = append(out, loc{key: fkey(t, f.name), typ: f.typ, idx: []*Term{p}})
	}
	return out
}

// ---- pattern matching of sequences

func (e *Env) boundExpr(x ast.Expr, unbound map[string]string) bool {
	ok := true
	ast.Inspect(x, func(n ast.Node) bool {
		if id, is := n.(*ast.Ident); is {
			if _, u := unbound[id.Name]; u {
				ok = false
			}
		}
		return ok
	})
	return ok
}

func ghostType(t string) types.Type {
	switch t {
	case "int":
		return nil
	case "bool":
		return boolT
	case "float64":
		return types.Typ[types.Float64]
	case "int64":
		return types.Typ[types.Int64]
	case "int32":
		return types.Typ[types.Int32]
	case "uint8", "byte":
		return types.Typ[types.Uint8]
	}
	return nil
}

type lateTerm struct {
	x   ast.Expr
	act *Term
}

func (e *Env) matchTerm(x ast.Expr, act *Term, unbound map[string]string) bool {
	r := e.r
	if id, ok := x.(*ast.Ident); ok {
		if gt, u := unbound[id.Name]; u {
			t := ghostType(gt)
			if t == nil {
				t = intT
				if act.sort > 0 {
					act = r.c.BV2Int(act, false)
				}
			}
			delete(unbound, id.Name)
			e.vars[id.Name] = sv{act, t}
			return true
		}
	}
	if c, ok := x.(*ast.CallExpr); ok && exprStr(c.Fun) == "len" {
		if id, ok := c.Args[0].(*ast.Ident); ok {
			if _, u := unbound[id.Name]; u {
				if e.lens == nil {
					e.lens = map[string]*Term{}
				}
				e.lens[id.Name] = act
				return true
			}
		}
	}
	if !e.boundExpr(x, unbound) {
		if c, ok := x.(*ast.CallExpr); ok && exprStr(c.Fun) == "len" && e.later != nil {
			// compared once the rest of the pattern has bound the names
			*e.later = append(*e.later, lateTerm{x, act})
			return true
		}
		return false
	}
	t := e.term(x)
	if t.sort != act.sort {
		if t.sort > 0 {
			t = r.c.BV2Int(t, false)
		}
		if act.sort > 0 {
			act = r.c.BV2Int(act, false)
		}
	}
	return r.validQ(r.c.Eq(t, act))
}

func (e *Env) match(pat ast.Expr, act *Seq, unbound map[string]string, last bool) (*Seq, bool) {
	r, c := e.r, e.r.c
	switch p := pat.(type) {
	case *ast.ParenExpr:
		return e.match(p.X, act, unbound, last)
	case *ast.Ident:
		if _, u := unbound[p.Name]; u {
			var v, rest *Seq
			if n := e.lens[p.Name]; n != nil {
				// without forks where possible
				v, rest = r.split(act, n)
			} else if last {
				v, rest = act, emptySeq
			} else {
				return act, false
			}
			delete(unbound, p.Name)
			e.vars[p.Name] = sv{v, seqT}
			return rest, true
		}
	case *ast.CallExpr:
		name := exprStr(p.Fun)
		switch name {
		case "cat":
			for i, a := range p.Args {
				var ok bool
				act, ok = e.match(a, act, unbound, last && i == len(p.Args)-1)
				if !ok {
					return act, false
				}
			}
			return act, true
		case "unit":
			for _, a := range p.Args {
				if r.known(c.Lt(c.Zero, c.SeqLen(act))) != 1 {
					return act, false
				}
				h, t := r.head(act)
				if !e.matchTerm(a, h, unbound) {
					return act, false
				}
				act = t
			}
			return act, true
		case "empty":
			return act, true
		}
		if d := atomDefs[name]; d != nil {
			act = r.norm(act)
			if d.elem == nil && len(act.segs) > 0 {
				g := act.segs[0]
				if g.atom != nil && g.atom.fn == name && g.from.IsConst() && g.from.num.Sign() == 0 && g.n == g.atom.len {
					ok := true
					for i, a := range p.Args {
						if !e.matchTerm(a, g.atom.args[i], unbound) {
							ok = false
							break
						}
					}
					if ok {
						return &Seq{segs: act.segs[1:]}, true
					}
					return act, false
				}
			}
			if d.elem != nil {
				if id, ok := p.Args[0].(*ast.Ident); ok {
					if _, u := unbound[id.Name]; u {
						v := emptySeq
						segs := act.segs
						for len(segs) > 0 {
							if u := segs[0].unit; u != nil && name == "ESC" && r.known(c.Lt(r.u2i(u), c.Int(0xF8))) == 1 {
								v = c.Cat(v, c.unit(u))
								segs = segs[1:]
								continue
							}
							if name == "ESC" && len(segs) > 1 {
								if x := r.unescaped(segs[0].unit, segs[1].unit); x != nil {
									v = c.Cat(v, c.unit(x))
									segs = segs[2:]
									continue
								}
							}
							if segs[0].atom == nil || segs[0].n != segs[0].atom.len {
								break
							}
							a := segs[0].atom
							if a.fn == name {
								v = c.Cat(v, a.sargs[0])
							} else if a.fn == "SUB" && name == "OIDF" || a.fn == "ESC1" && name == "ESC" {
								v = c.Cat(v, c.unit(a.args[0]))
							} else {
								break
							}
							segs = segs[1:]
						}
						delete(unbound, id.Name)
						e.vars[id.Name] = sv{v, seqT}
						return &Seq{segs: segs}, true
					}
				}
			}
		}
		if m := r.t.E.S.macros[name]; m != nil {
			e2 := *e
			var later []lateTerm
			e2.vars, e2.later = map[string]sv{}, &later
			for k, v := range e.vars {
				e2.vars[k] = v
			}
			ub := map[string]string{}
			back := map[string]string{}
			for i, q := range m.params {
				if id, ok := p.Args[i].(*ast.Ident); ok {
					if gt, u := unbound[id.Name]; u {
						ub[q] = gt
						back[q] = id.Name
						if n := e.lens[id.Name]; n != nil {
							if e2.lens == nil {
								e2.lens = map[string]*Term{}
							}
							e2.lens[q] = n
						}
						delete(e2.vars, q)
						continue
					}
				}
				if !e.boundExpr(p.Args[i], unbound) {
					return act, false
				}
				e2.vars[q] = e.eval(p.Args[i])
			}
			rest, ok := e2.match(m.body, act, ub, last)
			e2.later = nil
			for _, l := range later {
				ok = ok && e2.matchTerm(l.x, l.act, ub)
			}
			if !ok {
				return act, false
			}
			for q, n := range back {
				if _, still := ub[q]; !still {
					e.vars[n] = e2.vars[q]
					delete(unbound, n)
				}
			}
			return rest, true
		}
	}
	if !e.boundExpr(pat, unbound) {
		return act, false
	}
	s := r.norm(e.seq(pat))
	return r.matchPrefix(s, r.norm(act))
}

// unescaped: the octet x >= 0xF8 whose escaped form is the pair (a, b).
func (r *Run) unescaped(a, b *Term) *Term {
	if a == nil || b == nil {
		return nil
	}
	if k, ok := r.u2i(a).Int64(); !ok || k != 0xFD {
		return nil
	}
	if b.op != OApp && len(b.args) == 2 && strings.Contains(b.String(), "bvxor") && b.args[1].IsConst() && b.args[1].num.Int64() == 0x20 {
		if x := b.args[0]; r.known(r.c.Le(r.c.Int(0xF8), r.u2i(x))) == 1 {
			return x
		}
	}
	return nil
}

// matchPrefix removes the prefix s from act.
func (r *Run) matchPrefix(s, act *Seq) (*Seq, bool) {
	i := 0
	for i < len(s.segs) && i < len(act.segs) {
		a, b := s.segs[i], act.segs[i]
		if a.unit != nil && a.unit == b.unit || a.atom != nil && a.atom == b.atom && a.from == b.from && a.n == b.n {
			i++
			continue
		}
		break
	}
	s, act = &Seq{segs: s.segs[i:]}, &Seq{segs: act.segs[i:]}
	if len(s.segs) == 0 {
		return act, true
	}
	n := r.c.SeqLen(s)
	if !r.validQ(r.c.Le(n, r.c.SeqLen(act))) {
		return act, false
	}
	x, y := r.split(act, n)
	ok, _ := r.seqEq(s, x)
	return y, ok
}

// ---- results

func (e *Env) returnOpt(x ast.Expr, t types.Type) Val {
	r := e.r
	mk := func() *Term {
		ref := r.newRef()
		r.freshObj[ref.id] = r.limit()
		return ref
	}
	switch y := x.(type) {
	case *ast.Ident:
		if y.Name == "nil" {
			return r.zero(t)
		}
		if y.Name == "fresh" {
			if _, ok := t.Underlying().(*types.Slice); ok {
				s := r.ownedSlice(t, "ret")
				r.assume(r.c.Not(s.isnil))
				return s
			}
			return mk()
		}
		if y.Name == "owned" {
			return r.ownedSlice(t, "ret")
		}
	case *ast.CallExpr:
		if exprStr(y.Fun) == "fresh" {
			ref := mk()
			if lit, ok := y.Args[0].(*ast.BasicLit); ok {
				ty := r.t.P.typeNamed(strings.Trim(lit.Value, "\""))
				return IfaceV{r.tagOf(ty), ref}
			}
			owner := t.Underlying().(*types.Pointer).Elem()
			for _, a := range y.Args {
				n := exprStr(a)
				for _, f := range structFields(owner) {
					if f.name == n {
						r.write(fkey(owner, n), f.typ, mk(), ref)
					}
				}
			}
			return ref
		}
	}
	v := e.eval(x)
	if v.v == nil {
		return r.zero(t)
	}
	return v.v
}

// isFresh: the object did not exist when the function under verification started.
func (r *Run) isFresh(t *Term) bool {
	b := baseRef(t)
	if n, ok := b.Int64(); ok {
		return n > int64(freshBase+r.oldAlloc) && n < 1<<41
	}
	return b.hi != nil && b.hi.Cmp(maxObj) > 0 && r.validQ(r.c.Lt(r.c.Int(int64(freshBase+r.oldAlloc)), b))
}

// isOpt: the result is one the option allows.
func (e *Env) isOpt(x ast.Expr, v sv) bool {
	r := e.r
	fresh := func(t *Term) bool {
		return r.isFresh(t)
	}
	switch y := x.(type) {
	case *ast.Ident:
		switch y.Name {
		case "nil":
			if w, ok := v.v.(SliceV); ok && w.isnil.op != OBool {
				return r.decide(w.isnil)
			}
			e2 := e.bind("$v", v)
			return r.validQ(e2.equal(ast.NewIdent("$v"), ast.NewIdent("nil")))
		case "fresh", "owned":
			switch w := v.v.(type) {
			case *Term:
				return fresh(w)
			case SliceV:
				return (y.Name == "owned" && r.validQ(w.isnil)) || (fresh(w.ref) && (y.Name == "owned" || r.validQ(r.c.Not(w.isnil))))
			}
			return false
		}
	case *ast.CallExpr:
		if exprStr(y.Fun) == "fresh" {
			if lit, ok := y.Args[0].(*ast.BasicLit); ok {
				w, ok := v.v.(IfaceV)
				if !ok {
					return false
				}
				ty := r.t.P.typeNamed(strings.Trim(lit.Value, "\""))
				p, ok := w.val.(*Term)
				return ok && r.validQ(r.c.Eq(w.tag, r.tagOf(ty))) && fresh(p)
			}
			w, ok := v.v.(*Term)
			if !ok || !fresh(w) {
				return false
			}
			owner := v.t.Underlying().(*types.Pointer).Elem()
			for _, a := range y.Args {
				n := exprStr(a)
				for _, f := range structFields(owner) {
					if f.name == n {
						p, ok := r.read(fkey(owner, n), f.typ, w).(*Term)
						if !ok || !fresh(p) {
							return false
						}
					}
				}
			}
			return true
		}
	}
	w := e.eval(x)
	return r.validQ(r.same(v.v, w.v, v.t))
}

// ---- invariants

func (r *Run) invHolds(iv Invariant, v Val, t types.Type) *Term {
	e := &Env{r: r, vars: map[string]sv{"v": {v, t}}}
	return e.term(iv.e)
}

func constVal(v Val) bool {
	switch v := v.(type) {
	case *Term:
		return v.IsConst()
	case IfaceV:
		return v.tag.IsConst()
	case SliceV:
		return v.isnil.op == OBool
	}
	return false
}

func (r *Run) inv(owner types.Type, f fieldDesc, p *Term, v Val) Val {
	return r.invKey(fkey(owner, f.name), f.typ, v)
}

func (r *Run) invKey(key string, t types.Type, v Val) Val {
	is := r.t.E.S.inv[key]
	if len(is) == 0 || len(r.bound) > 0 || constVal(v) {
		return v
	}
	for _, iv := range is {
		r.assume(r.invHolds(iv, v, t))
	}
	r.t.assump["type invariant "+key+" (checked at every store and construction)"] = true
	return v
}

func (r *Run) mapInv(mt *types.Map, m *Term, k, v Val) Val {
	iv, ok := r.t.E.S.mapInv[typeName(mt)]
	if !ok || len(r.bound) > 0 || constVal(v) {
		return v
	}
	has := r.mapHas(mt, m, k)
	r.assume(r.c.Imp(has, r.mapInvHolds(iv, mt, k, v)))
	return v
}

func (r *Run) mapInvHolds(iv Invariant, mt *types.Map, k, v Val) *Term {
	e := &Env{r: r, vars: map[string]sv{"v": {v, mt.Elem()}, "k": {k, mt.Key()}}}
	return e.term(iv.e)
}

func (r *Run) checkMapInv(mt *types.Map, k, v Val) {
	iv, ok := r.t.E.S.mapInv[typeName(mt)]
	if !ok {
		return
	}
	r.spec++
	g := r.mapInvHolds(iv, mt, k, v)
	r.spec--
	r.oblige("invariant", "invariant of "+typeName(mt)+": "+iv.text, g)
}

func (r *Run) checkInv(p Val, t types.Type, v Val, pos interface{}) {
	one := func(key string, v Val, ft types.Type) {
		for _, iv := range r.t.E.S.inv[key] {
			r.spec++
			g := r.invHolds(iv, v, ft)
			r.spec--
			r.oblige("invariant", "invariant "+key+": "+iv.text, g)
		}
	}
	switch p := p.(type) {
	case AddrV:
		if !p.row {
			one(p.key, v, t)
		}
	case *Term:
		if s, ok := v.(StructV); ok {
			for i, f := range structFields(t) {
				one(fkey(t, f.name), s.f[i], f.typ)
			}
		}
	}
}

func (r *Run) hasInv(t types.Type) bool {
	if !isStruct(t) {
		return false
	}
	for _, f := range structFields(t) {
		if len(r.t.E.S.inv[fkey(t, f.name)]) > 0 {
			return true
		}
	}
	return false
}

func (r *Run) noteAlloc(ref *Term, t types.Type) {
	if r.hasInv(t) {
		r.allocs = append(r.allocs, allocRec{ref, t})
	}
}

func (r *Run) flushInv() {
	as := r.allocs
	r.allocs = nil
	for _, a := range as {
		for _, f := range structFields(a.t) {
			for _, iv := range r.t.E.S.inv[fkey(a.t, f.name)] {
				v := r.read(fkey(a.t, f.name), f.typ, a.ref)
				r.spec++
				g := r.invHolds(iv, v, f.typ)
				r.spec--
				r.oblige("invariant", "invariant "+fkey(a.t, f.name)+": "+iv.text, g)
			}
		}
	}
}

func (r *Run) allocSize(n *Term, pos interface{}) {
	if r.allocBound != nil {
		r.oblige("allocation", "allocation bounded by the remaining input", r.c.Le(n, r.allocBound))
	}
}

// ---- recursion

func (E *Engine) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if cc.IsInvoke() {
				if ts, ok := madeFrom(cc.Value, map[ssa.Value]bool{}); ok {
					for _, t := range ts {
						if f := E.P.lookupMethod(t, cc.Method.Name(), cc.Method.Pkg()); f != nil {
							out = append(out, f)
						}
					}
					continue
				}
				if u, ok := cc.Value.Type().Underlying().(*types.Interface); ok && !openWorld[typeName(cc.Value.Type())] {
					for _, t := range E.P.implementers(u) {
						if f := E.P.lookupMethod(t, cc.Method.Name(), cc.Method.Pkg()); f != nil {
							out = append(out, f)
						}
					}
				}
				continue
			}
			if f := cc.StaticCallee(); f != nil && inModule(f) {
				out = append(out, f)
			}
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && inModule(f) {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// madeFrom: the types an interface value is made from, when the function itself makes it.
func madeFrom(v ssa.Value, seen map[ssa.Value]bool) ([]types.Type, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{v.X.Type()}, true
	case *ssa.ChangeInterface:
		return madeFrom(v.X, seen)
	case *ssa.Const:
		return nil, v.Value == nil
	case *ssa.Phi:
		var out []types.Type
		for _, e := range v.Edges {
			ts, ok := madeFrom(e, seen)
			if !ok {
				return nil, false
			}
			out = append(out, ts...)
		}
		return out, true
	}
	return nil, false
}

func (E *Engine) reach(n string) map[string]bool {
	E.mu.Lock()
	if m, ok := E.scc[n]; ok {
		E.mu.Unlock()
		return m
	}
	E.mu.Unlock()
	m := map[string]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		for _, g := range E.callees(f) {
			k := shortName(g)
			if !m[k] {
				m[k] = true
				walk(g)
			}
		}
	}
	if f := E.P.funcs[n]; f != nil {
		walk(f)
	}
	E.mu.Lock()
	E.scc[n] = m
	E.mu.Unlock()
	return m
}

func (E *Engine) sameSCC(a, b string) bool { return E.reach(a)[b] && E.reach(b)[a] }

// ---- verification of one behaviour against the body

func (E *Engine) verify(b *Behavior, budget time.Duration) *TaskState {
	t := &TaskState{P: E.P, E: E, name: b.id(), mode: b.mode, con: b.c, beh: b,
		obls: map[string]*Obl{}, loops: map[string]*loopCut{}, used: map[string]bool{}, inlined: map[string]bool{},
		assump: map[string]bool{}, ended: map[string]int{}, unsup: map[string]int{}, noContract: map[string]bool{}}
	t.trackStack = b.trackStack
	t.deadline = time.Now().Add(budget)
	if !E.deadline.IsZero() && t.deadline.After(E.deadline) {
		t.deadline = E.deadline
	}
	t.c = NewCtx()
	t.c.smallCRC = b.smallCRC
	t.s = NewSolver(t.c, E.qms, E.rms)
	defer t.s.Close()
	fn := E.P.funcs[b.c.fn]
	if fn == nil {
		t.unsup["function "+b.c.fn+" not found"]++
		return t
	}
	t.initGlobals()
	for pass := 0; pass < 400; pass++ {
		t.runs++
		t.dirty, t.frameDirty = false, false
		t.obls = map[string]*Obl{}
		t.order = nil
		t.ended = map[string]int{}
		t.unsup = map[string]int{}
		t.paths, t.reached = 0, 0
		for _, lc := range t.loops {
			lc.rankInit, lc.backs, lc.ranked = false, 0, map[string]bool{}
			lc.eachOK, lc.eachBad = map[string]bool{}, map[string]string{}
		}
		again := t.explore(fn)
		if os.Getenv("GOVC_V") != "" {
			fmt.Printf("  explored: %v %v\n", t.ended, t.unsup)
		}
		if time.Now().After(t.deadline) {
			t.unsup["time budget of the task exhausted"]++
			break
		}
		if !again && !t.dirty {
			break
		}
		if os.Getenv("GOVC_V") != "" {
			fmt.Printf("  pass %d: paths %d dirty %v restart %v ended %v\n", pass, t.paths, t.dirty, again, t.ended)
		}
	}
	for n, ls := range b.loops {
		if len(ls.each)+len(ls.entry) == 0 {
			continue
		}
		o := t.obl("each iteration of the loop of "+ls.name, "ensures")
		var why []string
		for _, lc := range t.loops {
			for k := range lc.eachOK {
				if strings.HasPrefix(k, fmt.Sprintf("%d|", n)) && lc.eachBad[k] == "" {
					o.proofs++
				}
			}
			for k, w := range lc.eachBad {
				if w != "unbound" && strings.HasPrefix(k, fmt.Sprintf("%d|", n)) {
					why = append(why, w)
				}
			}
		}
		if o.proofs == 0 || ls.every && len(why) > 0 {
			sort.Strings(why)
			o.fails = append(o.fails, strings.Join(append(why, "no loop of the function does this"), "; "))
		}
	}
	if !b.partial {
		var ks []string
		for k := range t.loops {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			lc := t.loops[k]
			if lc.cut && lc.rankInit {
				o := t.obl("termination: loop in "+lc.desc, "termination")
				if len(lc.ranked) > 0 {
					o.proofs++
				} else {
					o.fails = append(o.fails, "no ranking function decreases on every back edge of "+k)
				}
			}
		}
	}
	return t
}

// explore runs all paths; true: a loop frame was discovered, start again.
func (t *TaskState) explore(fn *ssa.Function) (again bool) {
	t.choices, t.widths = nil, nil
	defer func() {
		if x := recover(); x != nil {
			if rs, ok := x.(restart); ok {
				t.resetLoops()
				if os.Getenv("GOVC_V") != "" {
					fmt.Println("  restart:", rs.why)
				}
				again = true
				return
			}
			panic(x)
		}
	}()
	for {
		if t.paths > t.E.maxPaths {
			t.unsup["too many paths"]++
			return false
		}
		t.onePath(fn)
		t.paths++
		n := len(t.choices)
		for n > 0 && t.choices[n-1] == t.widths[n-1]-1 {
			n--
		}
		if n == 0 {
			if t.frameDirty {
				t.resetLoops()
			}
			return t.frameDirty
		}
		t.choices[n-1]++
		t.choices = t.choices[:n]
		t.widths = t.widths[:n]
		if time.Now().After(t.deadline) {
			return false
		}
	}
}

// resetLoops: clauses dropped while the frame was incomplete get another chance.
func (t *TaskState) resetLoops() {
	for _, lc := range t.loops {
		lc.dropped, lc.ranked, lc.rankInit = map[string]bool{}, map[string]bool{}, false
	}
}

func (t *TaskState) newRun() *Run {
	r := &Run{t: t, c: t.c, pcset: map[int]bool{}, heap: map[string]*field{}, zeroed: map[int]bool{}, fresh: map[string]int{},
		facts: map[string]bool{}, callNo: map[string]int{}, params: map[string]Val{}, ghosts: map[string]Val{},
		specVars: map[string]sv{}, superseded: map[int]bool{}, front: map[int]*Term{}, freshObj: map[int]*big.Int{}}
	return r
}

// initGlobals executes the package initialisers once.
func (t *TaskState) initGlobals() {
	r := t.newRun()
	con, beh := t.con, t.beh
	t.con, t.beh = nil, nil
	t.noSafety = true
	func() {
		defer func() {
			if x := recover(); x != nil {
				switch y := x.(type) {
				case unsupported:
					t.assump["package initialisation not followed: "+y.msg] = true
				case pathEnd:
					t.assump["package initialisation ends early"] = true
				default:
					panic(x)
				}
			}
		}()
		for _, p := range t.P.pkgs {
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					et := g.Type().(*types.Pointer).Elem()
					if isStruct(et) {
						r.zeroed[r.global(g).(*Term).id] = true
						continue
					}
					if _, arr := isArray(et); arr {
						continue
					}
					a := r.global(g).(AddrV)
					r.write(a.key, et, r.zero(et))
				}
			}
		}
		for _, p := range t.P.pkgs {
			if f := p.Func("init"); f != nil {
				r.runInit(f)
			}
		}
	}()
	t.noSafety = false
	t.con, t.beh = con, beh
	// globals written outside the initialisers are arbitrary
	for k := range t.E.mutGlobals {
		delete(r.heap, k)
	}
	t.initHeap = snapshot(r.heap)
	t.initAlloc = r.allocN
	t.initZero = r.zeroed
	t.choices, t.widths = nil, nil
	t.initGarbage = r.pc
}

func (r *Run) runInit(f *ssa.Function) {
	fr := &frame{fn: f, env: map[ssa.Value]Val{}, path: "init", iter: map[*ssa.BasicBlock]int{}}
	save := r.fr
	r.fr = fr
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && g.Name() == "init" {
					continue
				}
				r.instr(in)
			case *ssa.Store:
				if g, ok := in.Addr.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$guard") {
					continue
				}
				r.instr(in)
			case *ssa.UnOp:
				if g, ok := in.X.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$guard") {
					continue
				}
				r.instr(in)
			default:
				r.instr(in)
			}
		}
	}
	r.fr = save
}

func findMutGlobals(P *Program) map[string]bool {
	out := map[string]bool{}
	for _, fn := range P.funcs {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						out["global:"+g.Pkg.Pkg.Name()+"."+g.Name()] = true
					}
				}
			}
		}
	}
	return out
}

func (t *TaskState) onePath(fn *ssa.Function) {
	r := t.newRun()
	r.heap = snapshot(t.initHeap)
	r.allocN = t.initAlloc
	for k, v := range t.initZero {
		r.zeroed[k] = v
	}
	if debugDec {
		defer func() {
			fmt.Printf("PATH %d:\n  %s\n", t.paths, strings.Join(r.trail, "\n  "))
		}()
	}
	defer func() {
		if x := recover(); x != nil {
			switch y := x.(type) {
			case pathEnd:
				t.ended[y.why]++
				if debugDec {
					r.trail = append(r.trail, "END "+y.why)
				}
			case unsupported:
				if (t.deadline.IsZero() || time.Now().Before(t.deadline)) && r.t.s.check(append([]*Term{}, r.pc...), false) == Unsat {
					t.ended["infeasible"]++
					return
				}
				if _, seen := t.unsup[y.msg]; !seen && os.Getenv("GOVC_TRACE") != "" {
					fmt.Println("unsupported:", y.msg, r.pathString())
				}
				t.unsup[y.msg]++
			default:
				panic(x)
			}
		}
	}()
	b := t.beh
	con := t.con
	var args []Val
	var pts []types.Type
	for i, p := range fn.Params {
		nm := p.Name()
		if i < len(con.params) {
			nm = con.params[i]
		}
		v := r.freshVal(p.Type(), "in."+nm, true)
		args = append(args, v)
		pts = append(pts, p.Type())
		r.paramSlice(v, p.Type())
	}
	e := r.contractEnv(con, pts, args, fn.Signature.Results())
	r.spec++
	for _, p := range b.nonNil(e) {
		r.assume(r.c.Not(r.refEq(p.t, r.c.Zero)))
	}
	for _, g := range b.ghosts {
		e.vars[g.name] = r.ghost(g)
	}
	e.inMatch = true
	for _, m := range b.matches {
		be := m.e.(*ast.BinaryExpr)
		if !e.assign(be.X, be.Y) {
			panic(unsupported{"match clause is not a location"})
		}
	}
	e.inMatch = false
	for _, q := range b.requires {
		e.assumeF(q.e)
	}
	r.oldHeap = snapshot(r.heap)
	r.oldAlloc = r.allocN
	e.old = r.oldHeap
	r.entryEvents = 0
	r.specVars = e.vars
	if b.decr != nil {
		r.measure0 = e.intTerm(b.decr)
	}
	if b.alloc != nil {
		r.allocBound = e.intTerm(b.alloc)
	}
	var locs []loc
	for _, m := range b.modifies {
		locs = append(locs, e.locs(m.e)...)
	}
	r.spec--
	nfresh := r.allocN
	_ = nfresh
	results := r.callFn(fn, args, nil, "")
	for _, cs := range r.exited {
		if cs.any {
			panic(pathEnd{"left by an arbitrary iteration"})
		}
	}
	t.reached++
	r.flushInv()
	r.spec++
	defer func() { r.spec-- }()
	rt := fn.Signature.Results()
	e2 := &Env{r: r, vars: map[string]sv{}, old: r.oldHeap}
	for k, v := range e.vars {
		e2.vars[k] = v
	}
	for i, n := range con.results {
		e2.vars[n] = sv{results[i], rt.At(i).Type()}
	}
	r.bindExited(e2)
	if len(r.exited) == 1 && r.exited[0].hheap != nil { // head(x): at the last head of the only loop
		e2.head = r.exited[0].hheap
	}
	if b.step {
		e2.head = nil
		// a path through the loop is one with an iteration under the hypothesis (the others have ended)
		for _, cs := range r.exited {
			if cs.given {
				e2.head = cs.hheap
			}
		}
		if e2.head == nil {
			r.endIfInfeasible()
			r.fail(t.obl("reaches the loop", "ensures"), nil, "returns before the loop is reached")
			t.ended["return"]++
			return
		}
	}
	if b.emits == -1 && !b.step && !r.mentionsEvents(b) {
		// callers take the contract to say that nothing is called or written
		o := t.obl("calls no user function and writes to no connection", "frame")
		if len(r.events) == 0 {
			o.proofs++
		} else {
			r.fail(o, nil, "event "+r.events[0].kind)
		}
	}
	for _, rr := range b.returns {
		o := t.obl("returns "+rr.name+" "+strings.Join(rr.text, " | "), "ensures")
		ok := false
		for _, x := range rr.opts {
			if e2.isOpt(x, e2.vars[rr.name]) {
				ok = true
				break
			}
		}
		if ok {
			o.proofs++
		} else {
			r.fail(o, nil, fmt.Sprintf("result %v is none of the options", valStr(e2.vars[rr.name].v)))
		}
	}
	for _, q := range b.ensures {
		o := t.obl("ensures "+q.text, "ensures")
		ok, why := e2.prove(q.e, true)
		if ok {
			o.proofs++
		} else {
			var goal *Term
			func() {
				defer func() {
					if x := recover(); x != nil {
						if _, is := x.(unsupported); !is {
							if _, is := x.(pathEnd); !is {
								panic(x)
							}
						}
					}
				}()
				goal = e2.term(q.e)
			}()
			r.fail(o, goal, why)
		}
	}
	r.frame(locs)
	t.ended["return"]++
}

func valStr(v Val) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case *Seq:
		return v.String()
	case SliceV:
		return fmt.Sprintf("slice(%s+%s,len %s,nil %s)", v.ref, v.off, v.len, v.isnil)
	case IfaceV:
		return fmt.Sprintf("iface(%s,%s)", v.tag, valStr(v.val))
	}
	return fmt.Sprintf("%T", v)
}

func (r *Run) paramSlice(v Val, t types.Type) {}

func (r *Run) ghost(g typedVar) sv {
	switch g.typ {
	case "seq", "seq8":
		es, lo, hi := r.esort(byteT)
		return sv{r.c.whole(r.c.Atom("ghost."+g.name, nil, nil, AtomOpt{esort: es, lo: lo, hi: hi})), seqT}
	case "seq32":
		es, lo, hi := r.esort(types.Typ[types.Int32])
		return sv{r.c.whole(r.c.Atom("ghost."+g.name, nil, nil, AtomOpt{esort: es, lo: lo, hi: hi})), seqT}
	case "int":
		return sv{r.c.Var("ghost."+g.name, SInt, nil, nil), intT}
	}
	t := r.t.P.typeNamed(g.typ)
	if t == nil {
		panic(unsupported{"ghost type " + g.typ})
	}
	return sv{r.symVal(t, "ghost."+g.name, nil, maxObj), t}
}

// frame: everything written is fresh or listed in the modifies clause.
func (r *Run) frame(locs []loc) {
	for _, l := range locs {
		if l.any {
			return
		}
	}
	c := r.c
	o := r.t.obl("modifies only what the contract lists", "frame")
	for _, k := range sortedKeys(r.heap) {
		if strings.HasPrefix(k, "cell:") || strings.HasPrefix(k, "iter:") || k == "list.Element.Value" {
			continue
		}
		if k == "errors.ErrorStruct.Stack" && !r.t.trackStack || k == "rowstr:" && !r.t.trackStack {
			continue
		}
		f := r.heap[k]
		var base []layer
		if of := r.oldHeap[k]; of != nil {
			base = of.layers
		}
		i := 0
		for i < len(base) && i < len(f.layers) && sameLayer(base[i], f.layers[i]) {
			i++
		}
		for _, L := range f.layers[i:] {
			check := func(idx []*Term, val Val, isWrite bool) {
				if len(idx) > 0 {
					if r.isFresh(idx[0]) {
						return
					}
				}
				g := c.F
				for _, l := range locs {
					if l.key != k {
						continue
					}
					if l.all {
						return
					}
					if len(l.idx) <= len(idx) {
						g = c.Or(g, r.idxEq(l.idx, idx[:len(l.idx)]))
					}
				}
				if g.IsTrue() || r.validQ(g) {
					return
				}
				// the value may be what it was
				if isWrite && f.typ != seqByteT && f.typ != seqRefT && f.typ != nil {
					cur := r.readIn(f, f.typ, idx)
					save := r.heap
					r.heap = r.oldHeap
					old := r.read(k, f.typ, idx...)
					r.heap = save
					if r.valid(c.Or(g, r.same(cur, old, f.typ))) {
						return
					}
				}
				if f.typ == seqByteT || f.typ == seqRefT || f.typ == nil {
					if s, ok := val.(*Seq); ok {
						save := r.heap
						r.heap = r.oldHeap
						var old Val
						if f.typ == nil {
							old = r.rowReadKey(k, idx[0], s)
						} else {
							old = r.read(k, f.typ, idx...)
						}
						r.heap = save
						if os, ok := old.(*Seq); ok {
							if ok, _ := r.seqEq(s, os); ok {
								return
							}
						}
					}
				}
				r.fail(o, g, "writes "+k+" of "+fmt.Sprint(idx))
			}
			if L.havoc == nil {
				check(L.idx, L.val, true)
				continue
			}
			if L.havoc.all {
				ok := false
				for _, l := range locs {
					if l.key == k && l.all {
						ok = true
					}
				}
				if !ok {
					r.fail(o, nil, "may write any "+k)
				}
				continue
			}
			for _, x := range L.havoc.refs {
				check(x, nil, false)
			}
		}
	}
	o.proofs++
}

func (r *Run) rowReadKey(k string, ref *Term, like *Seq) Val {
	for _, t := range []types.Type{byteT, types.Typ[types.Int32]} {
		if rowKey(t) == k {
			return r.row(t, "", ref)
		}
	}
	return nil
}

// identical: the very same value (no reasoning).
func identical(a, b Val) bool {
	all := func(x, y []Val) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identical(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Seq:
		y, ok := b.(*Seq)
		if !ok || len(x.segs) != len(y.segs) {
			return false
		}
		for i := range x.segs {
			if x.segs[i] != y.segs[i] {
				return false
			}
		}
		return true
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.tag == y.tag && identical(x.val, y.val)
	case BoxV:
		y, ok := b.(BoxV)
		return ok && x.t == y.t && x.typ == y.typ
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.fn == y.fn && x.sym == y.sym && all(x.bind, y.bind)
	case StructV:
		y, ok := b.(StructV)
		return ok && all(x.f, y.f)
	case ArrV:
		y, ok := b.(ArrV)
		return ok && all(x.e, y.e)
	case TupleV:
		y, ok := b.(TupleV)
		return ok && all(x.e, y.e)
	}
	return false
}

func sameLayer(a, b layer) bool {
	if a.havoc != nil || b.havoc != nil {
		return a.havoc == b.havoc
	}
	if len(a.idx) != len(b.idx) {
		return false
	}
	return sameIdx(a.idx, b.idx) && identical(a.val, b.val)
}

var _ = big.NewInt
