package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Calls: builtins, models of the standard library, interface dispatch,
// contracts, and inlining of everything else.

type Engine struct {
	P          *Program
	S          *Specs
	mu         sync.Mutex
	tags       map[string]int64
	tagT       map[int64]types.Type
	fns        map[string]int
	dir        string
	scc        map[string]map[string]bool
	mutGlobals map[string]bool
	maxPaths   int
	qms, rms   int       // solver time limits
	deadline   time.Time // of the whole run, if set
}

func (r *Run) tuple(rt types.Type, vs []Val) Val {
	if tt, ok := rt.(*types.Tuple); ok {
		if len(vs) != tt.Len() {
			panic(unsupported{fmt.Sprintf("call returns %d values instead of %d", len(vs), tt.Len())})
		}
		return TupleV{vs}
	}
	if len(vs) != 1 {
		panic(unsupported{"call without a result"})
	}
	return vs[0]
}

func (r *Run) call(cc *ssa.CallCommon, in ssa.Instruction, rt types.Type) Val {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, r.val(a))
	}
	if cc.IsInvoke() {
		recv, ok := r.val(cc.Value).(IfaceV)
		if !ok {
			panic(unsupported{"invoke on a non-interface"})
		}
		return r.tuple(rt, r.invoke(recv, cc, args, in, rt))
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return r.builtin(f.Name(), cc, args, in, rt)
	case *ssa.Function:
		return r.tuple(rt, r.callFunction(f, args, nil, in))
	}
	fv, ok := r.val(cc.Value).(FuncV)
	if !ok {
		panic(unsupported{"call of a non-function"})
	}
	if fv.fn != nil {
		return r.tuple(rt, r.callFunction(fv.fn, args, fv.bind, in))
	}
	r.safety("call of a nil function", in.Pos(), r.c.Not(r.c.Eq(fv.sym, r.c.Zero)))
	r.event("call", append([]Val{fv.sym}, args...))
	return r.freshResult(rt, "cb")
}

func (r *Run) freshResult(rt types.Type, name string) Val {
	r.gap()
	tt, ok := rt.(*types.Tuple)
	if !ok {
		return r.freshVal(rt, name, false)
	}
	var vs []Val
	for i := 0; i < tt.Len(); i++ {
		vs = append(vs, r.freshVal(tt.At(i).Type(), name, false))
	}
	return TupleV{vs}
}

func (r *Run) event(kind string, args []Val) {
	if kind == "call" {
		r.t.assump["functions supplied by the user do not change the state of the object that calls them while they run"] = true
	}
	r.events = append(r.events, Event{kind, args})
}

func (r *Run) errIface() IfaceV {
	v := r.freshInt("errval", bigOne, maxRef)
	return IfaceV{r.c.Int(r.t.E.tagID(types.NewPointer(types.Universe.Lookup("error").Type()))), v}
}
func (r *Run) nilIface() IfaceV { return IfaceV{r.c.Zero, r.c.Zero} }

// ---- builtins

func (r *Run) builtin(name string, cc *ssa.CallCommon, args []Val, in ssa.Instruction, rt types.Type) Val {
	c := r.c
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if name == "cap" {
				return x.cap
			}
			return x.len
		case *Seq:
			return c.SeqLen(x)
		case ArrV:
			return c.Int(int64(len(x.e)))
		case *Term:
			switch u := cc.Args[0].Type().Underlying().(type) {
			case *types.Map:
				return r.mapLen(u, x)
			case *types.Pointer:
				if a, ok := isArray(u.Elem()); ok {
					return c.Int(a.Len())
				}
			}
		}
	case "append":
		return r.appendSlice(args[0].(SliceV), args[1], cc.Args[0].Type())
	case "copy":
		dst := args[0].(SliceV)
		elem := sliceElem(cc.Args[0].Type())
		var src *Seq
		switch s := args[1].(type) {
		case *Seq:
			src = s
		case SliceV:
			if isStruct(elem) || isString(elem) || isIface(elem) {
				panic(unsupported{"copy of " + elem.String()})
			}
			src = r.content(s, elem, "")
		}
		n := c.SeqLen(src)
		if !r.decide(c.Le(n, dst.len)) {
			n = dst.len
			src = r.take(src, n)
		}
		if r.decide(c.Le(n, c.Zero)) {
			return n
		}
		r.aliasCheck(elem, dst.ref)
		r.supersededCheck(dst.ref)
		row := r.rowOf(dst, elem, "")
		a, b := r.split(row, dst.off)
		r.setRow(elem, "", dst.ref, c.Cat(a, src, r.drop(b, n)))
		return n
	case "delete":
		r.mapDelete(cc.Args[0].Type().Underlying().(*types.Map), args[0].(*Term), args[1])
		return TupleV{}
	case "ssa:wrapnilchk":
		r.nonNil(args[0].(*Term), in.Pos(), "")
		return args[0]
	case "print", "println":
		return TupleV{}
	}
	panic(unsupported{"builtin " + name})
}

func (r *Run) supersededCheck(ref *Term) {
	if r.superseded[ref.id] {
		panic(unsupported{"write to a backing array shared by an appended slice"})
	}
}

func (r *Run) appendSlice(s SliceV, more Val, t types.Type) Val {
	c := r.c
	elem := sliceElem(t)
	var dlen *Term
	var dv SliceV
	var dseq *Seq
	switch d := more.(type) {
	case SliceV:
		dlen, dv = d.len, d
	case *Seq:
		dlen, dseq = c.SeqLen(d), d
	}
	if dlen.IsConst() && dlen.num.Sign() == 0 {
		return s
	}
	comps := rowComps(elem)
	if isStruct(elem) {
		panic(unsupported{"append of " + elem.String()})
	}
	get := func(v SliceV, comp string) *Seq { return r.content(v, elem, comp) }
	more2 := map[string]*Seq{}
	old := map[string]*Seq{}
	strs := isString(elem)
	if !strs {
		for _, k := range comps {
			if dseq != nil {
				more2[k] = dseq
			} else {
				more2[k] = get(dv, k)
			}
			old[k] = get(s, k)
		}
	}
	n := c.Add(s.len, dlen)
	fresh := isOwnedSlice(s) && !r.superseded[s.ref.id]
	if !fresh {
		if s.isnil.IsTrue() {
			fresh = true
		} else if r.known(c.Eq(s.len, s.cap)) == 1 {
			fresh = true
		} else if r.decide(c.Le(n, s.cap)) {
			// in place
			r.supersededCheck(s.ref)
			r.aliasCheck(elem, s.ref)
			if !strs {
				for _, k := range comps {
					row := r.rowOf(s, elem, k)
					a, b := r.split(row, c.Add(s.off, s.len))
					r.setRow(elem, k, s.ref, c.Cat(a, more2[k], r.drop(b, dlen)))
				}
			} else {
				r.noteWrite("rowstr:", types.Typ[types.String], []*Term{s.ref})
			}
			return SliceV{s.ref, s.off, n, s.cap, s.isnil}
		}
	}
	ref := r.newRef()
	cp := r.freshInt("cap", bigZero, maxLen)
	r.assume(c.Le(n, cp))
	if fresh && isOwnedSlice(s) && !s.isnil.IsTrue() {
		r.superseded[s.ref.id] = true
	}
	if strs {
		r.assume(c.Le(c.Zero, cp))
	} else {
		es, lo, hi := r.esort(elem)
		if es == SInt && hi == nil {
			hi = maxRef
		}
		for _, k := range comps {
			r.fresh["tail"]++
			nm := fmt.Sprintf("row:%s%s#tail%d", typeName(elem), k, r.fresh["tail"])
			r.noteSym(nm)
			a := c.Atom(nm, nil, nil, AtomOpt{len: c.Sub(cp, n), esort: es, lo: lo, hi: hi})
			r.setRow(elem, k, ref, c.Cat(old[k], more2[k], c.whole(a)))
		}
	}
	nl := c.F
	if !s.isnil.IsFalse() && !(dlen.lo != nil && dlen.lo.Sign() > 0) {
		nl = c.And(s.isnil, c.Le(dlen, c.Zero))
	}
	return SliceV{ref, c.Zero, n, cp, nl}
}

// ---- bytes.Reader

func (r *Run) readerRest(ref *Term) *Seq {
	return r.read("bytes.Reader.$rest", seqByteT, ref).(*Seq)
}
func (r *Run) readerPre(ref *Term) *Seq {
	return r.read("bytes.Reader.$pre", seqByteT, ref).(*Seq)
}
func (r *Run) setRest(ref *Term, s *Seq) {
	r.write("bytes.Reader.$rest", seqByteT, s, ref)
	es, lo, hi := r.esort(byteT)
	r.fresh["pre"]++
	nm := fmt.Sprintf("pre#%d", r.fresh["pre"])
	r.noteSym(nm)
	r.write("bytes.Reader.$pre", seqByteT, r.c.whole(r.c.Atom(nm, nil, nil, AtomOpt{esort: es, lo: lo, hi: hi})), ref)
}

// head splits off the first element (the sequence is known not to be empty).
func (r *Run) head(s *Seq) (*Term, *Seq) {
	c := r.c
	for guard := 0; guard < 64; guard++ {
		s = r.norm(s)
		if len(s.segs) == 0 {
			panic(pathEnd{"infeasible"})
		}
		g := s.segs[0]
		tail := &Seq{segs: s.segs[1:]}
		if g.unit != nil {
			return g.unit, tail
		}
		if hasDef(r, g.atom) {
			if u := r.unfold(g); u != nil {
				s = c.Cat(u, tail)
				continue
			}
		}
		if !(g.n.lo != nil && g.n.lo.Sign() > 0) && !r.decide(c.Lt(c.Zero, g.n)) {
			s = tail
			continue
		}
		return c.atomAt(g.atom, g.from), c.Cat(c.slice(g.atom, c.Add(g.from, c.One), c.Sub(g.n, c.One)), tail)
	}
	panic(unsupported{"head of a sequence"})
}

// last splits off the last element.
func (r *Run) last(s *Seq) (*Seq, *Term) {
	c := r.c
	for {
		s = r.norm(s)
		n := len(s.segs)
		if n == 0 {
			panic(pathEnd{"infeasible"})
		}
		g := s.segs[n-1]
		init := &Seq{segs: s.segs[: n-1 : n-1]}
		if g.unit != nil {
			return init, g.unit
		}
		if !r.decide(c.Lt(c.Zero, g.n)) {
			s = init
			continue
		}
		return c.Cat(init, c.slice(g.atom, g.from, c.Sub(g.n, c.One))), c.atomAt(g.atom, c.Sub(c.Add(g.from, g.n), c.One))
	}
}

// ---- standard library

func (r *Run) stdlib(fn *ssa.Function, args []Val, in ssa.Instruction) []Val {
	c := r.c
	name := fn.String()
	ptr := func(i int) *Term {
		p, ok := args[i].(*Term)
		if !ok {
			panic(unsupported{"argument of " + name})
		}
		r.nonNil(p, in.Pos(), "")
		return p
	}
	buf := func(p *Term) *Seq { return r.read("bytes.Buffer.$buf", seqByteT, p).(*Seq) }
	setBuf := func(p *Term, s *Seq) {
		if n := c.SeqLen(s); !n.IsConst() {
			r.assume(c.Lt(n, c.Big(maxLen)))
			r.t.assump["memory is not exhausted: no buffer reaches 2^40 octets"] = true
		}
		r.write("bytes.Buffer.$buf", seqByteT, s, p)
	}
	r.t.assump["model of "+name] = true
	switch name {
	case "bytes.NewReader":
		s := args[0].(SliceV)
		ref := r.newRef()
		r.write("bytes.Reader.$rest", seqByteT, r.content(s, byteT, ""), ref)
		r.write("bytes.Reader.$pre", seqByteT, emptySeq, ref)
		if !(s.len.IsConst() && s.len.num.Sign() == 0) {
			r.readers = append(r.readers, s.ref)
		}
		return []Val{ref}
	case "(*bytes.Reader).Len":
		return []Val{c.SeqLen(r.readerRest(ptr(0)))}
	case "(*bytes.Reader).ReadByte":
		p := ptr(0)
		s := r.readerRest(p)
		if r.decide(c.Le(c.SeqLen(s), c.Zero)) {
			return []Val{r.zero(byteT), r.errIface()}
		}
		h, t := r.head(s)
		pre := r.readerPre(p)
		r.write("bytes.Reader.$rest", seqByteT, t, p)
		r.write("bytes.Reader.$pre", seqByteT, c.Cat(pre, c.unit(h)), p)
		return []Val{h, r.nilIface()}
	case "(*bytes.Reader).UnreadByte":
		p := ptr(0)
		pre := r.readerPre(p)
		if r.decide(c.Le(c.SeqLen(pre), c.Zero)) {
			return []Val{r.errIface()}
		}
		i, x := r.last(pre)
		s := r.readerRest(p)
		r.write("bytes.Reader.$rest", seqByteT, c.Cat(c.unit(x), s), p)
		r.write("bytes.Reader.$pre", seqByteT, i, p)
		return []Val{r.nilIface()}
	case "(*bytes.Reader).Read", "(*bytes.Buffer).Read":
		p := ptr(0)
		b := args[1].(SliceV)
		isBuf := strings.Contains(name, "Buffer")
		var s *Seq
		if isBuf {
			s = buf(p)
		} else {
			s = r.readerRest(p)
		}
		if r.decide(c.Le(c.SeqLen(s), c.Zero)) {
			if isBuf && r.decide(c.Le(b.len, c.Zero)) {
				return []Val{c.Zero, r.nilIface()}
			}
			return []Val{c.Zero, r.errIface()}
		}
		n := b.len
		if !r.decide(c.Le(b.len, c.SeqLen(s))) {
			n = c.SeqLen(s)
		}
		x, y := r.split(s, n)
		if isBuf {
			setBuf(p, y)
		} else {
			pre := r.readerPre(p)
			r.write("bytes.Reader.$rest", seqByteT, y, p)
			r.write("bytes.Reader.$pre", seqByteT, c.Cat(pre, x), p)
		}
		if !r.decide(c.Le(n, c.Zero)) {
			r.aliasCheck(byteT, b.ref)
			r.supersededCheck(b.ref)
			row := r.rowOf(b, byteT, "")
			u, v := r.split(row, b.off)
			r.setRow(byteT, "", b.ref, c.Cat(u, x, r.drop(v, n)))
		}
		return []Val{n, r.nilIface()}
	case "(*bytes.Reader).WriteTo", "(*bytes.Buffer).WriteTo":
		p := ptr(0)
		w, ok := args[1].(IfaceV)
		if !ok {
			panic(unsupported{name})
		}
		k, _ := w.tag.Int64()
		pt, isP := r.t.E.typeOfTag(k).(*types.Pointer)
		if !isP || typeName(pt.Elem()) != "bytes.Buffer" {
			panic(unsupported{name + " into another writer"})
		}
		r.nonNil(w.val.(*Term), token.NoPos, "WriteTo")
		d := w.val.(*Term)
		var s *Seq
		if strings.Contains(name, "Reader") {
			s = r.readerRest(p)
			r.write("bytes.Reader.$pre", seqByteT, c.Cat(r.readerPre(p), s), p)
			r.write("bytes.Reader.$rest", seqByteT, emptySeq, p)
		} else {
			s = buf(p)
			setBuf(p, emptySeq)
		}
		setBuf(d, c.Cat(buf(d), s))
		return []Val{c.SeqLen(s), r.nilIface()}
	case "(*bytes.Buffer).WriteByte":
		p := ptr(0)
		setBuf(p, c.Cat(buf(p), c.unit(args[1].(*Term))))
		return []Val{r.nilIface()}
	case "(*bytes.Buffer).Write":
		p := ptr(0)
		s := args[1].(SliceV)
		setBuf(p, c.Cat(buf(p), r.content(s, byteT, "")))
		return []Val{s.len, r.nilIface()}
	case "(*bytes.Buffer).WriteString":
		p := ptr(0)
		s := args[1].(*Seq)
		setBuf(p, c.Cat(buf(p), s))
		return []Val{c.SeqLen(s), r.nilIface()}
	case "(*bytes.Buffer).Len":
		n := c.SeqLen(buf(ptr(0)))
		if !n.IsConst() {
			r.assume(c.Lt(n, c.Big(maxLen)))
			r.t.assump["memory is not exhausted: no buffer reaches 2^40 octets"] = true
		}
		return []Val{n}
	case "(*bytes.Buffer).Reset":
		setBuf(ptr(0), emptySeq)
		return nil
	case "(*bytes.Buffer).Bytes":
		// a view of the buffer; the model hands out a copy that must not be written while in use
		s := buf(ptr(0))
		ref := r.newRef()
		n := c.SeqLen(s)
		r.setRow(byteT, "", ref, s)
		r.t.assump["the slice of Buffer.Bytes is used before the next write to the buffer"] = true
		return []Val{SliceV{ref, c.Zero, n, n, c.F}}
	case "encoding/binary.Read":
		return r.binaryRead(args)
	case "math.IsInf":
		x := args[0].(*Term)
		inf := c.BVc(new(big.Int).SetUint64(0x7FF0000000000000), 64)
		ninf := c.BVc(new(big.Int).SetUint64(0xFFF0000000000000), 64)
		sg, ok := args[1].(*Term).Int64()
		if !ok {
			panic(unsupported{"math.IsInf with a symbolic sign"})
		}
		switch {
		case sg > 0:
			return []Val{c.Eq(x, inf)}
		case sg < 0:
			return []Val{c.Eq(x, ninf)}
		}
		return []Val{c.Or(c.Eq(x, inf), c.Eq(x, ninf))}
	case "math.IsNaN":
		return []Val{r.fNaN(args[0].(*Term))}
	case "math.Inf":
		sg, ok := args[0].(*Term).Int64()
		if !ok {
			panic(unsupported{"math.Inf with a symbolic sign"})
		}
		if sg >= 0 {
			return []Val{c.BVc(new(big.Int).SetUint64(0x7FF0000000000000), 64)}
		}
		return []Val{c.BVc(new(big.Int).SetUint64(0xFFF0000000000000), 64)}
	case "math.NaN":
		return []Val{c.BVc(new(big.Int).SetUint64(0x7FF8000000000001), 64)}
	case "math.Float64bits":
		if r.isBV(types.Typ[types.Uint64]) {
			return []Val{args[0]}
		}
		return []Val{c.BV2Int(args[0].(*Term), false)}
	case "math.Float64frombits":
		if r.isBV(types.Typ[types.Uint64]) {
			return []Val{args[0]}
		}
		return []Val{c.Int2BV(args[0].(*Term), 64)}
	case "fmt.Sprintf", "fmt.Sprint":
		return []Val{r.freshVal(types.Typ[types.String], "str", true)}
	case "fmt.Errorf":
		return []Val{r.errIface()}
	case "fmt.Printf", "fmt.Println", "fmt.Print":
		return []Val{c.Zero, r.nilIface()}
	case "runtime.Caller":
		return []Val{r.freshVal(types.Typ[types.Uintptr], "pc", true), r.freshVal(types.Typ[types.String], "file", true), r.freshVal(intT, "line", true), c.T}
	case "container/list.New":
		ref := r.newRef()
		r.zeroed[ref.id] = true
		return []Val{ref}
	case "(*container/list.List).Len":
		return []Val{c.SeqLen(r.listSeq(ptr(0), "$vals"))}
	case "(*container/list.List).PushBack":
		l := ptr(0)
		v := args[1].(IfaceV)
		r.listSet(l, c.Cat(r.listSeq(l, "$tags"), c.unit(v.tag)), c.Cat(r.listSeq(l, "$vals"), c.unit(r.box(v.val))))
		return []Val{r.newRef()}
	case "(*container/list.List).Front":
		l := ptr(0)
		tg, vl := r.listSeq(l, "$tags"), r.listSeq(l, "$vals")
		if r.decide(c.Le(c.SeqLen(vl), c.Zero)) {
			return []Val{c.Zero}
		}
		r.fact(c.Eq(c.SeqLen(tg), c.SeqLen(vl)))
		e := r.newRef()
		t1, _ := r.head(tg)
		v1, _ := r.head(vl)
		r.write("list.Element.Value", types.NewInterfaceType(nil, nil), IfaceV{t1, v1}, e)
		r.front[l.id] = e
		return []Val{e}
	case "(*container/list.List).Remove":
		l, e := ptr(0), ptr(1)
		if r.front[l.id] != e {
			panic(unsupported{"list.Remove of an element that is not the front"})
		}
		tg, vl := r.listSeq(l, "$tags"), r.listSeq(l, "$vals")
		_, tg2 := r.head(tg)
		_, vl2 := r.head(vl)
		v := r.read("list.Element.Value", types.NewInterfaceType(nil, nil), e)
		r.listSet(l, tg2, vl2)
		return []Val{v}
	case "(*container/list.List).Init":
		l := ptr(0)
		r.listSet(l, emptySeq, emptySeq)
		return []Val{l}
	}
	if (strings.HasPrefix(name, "time.") || strings.HasPrefix(name, "(time.Time).")) && fn.Signature.Results().Len() == 1 {
		return []Val{r.freshResult(fn.Signature.Results().At(0).Type(), "time")} // any time
	}
	panic(unsupported{"no model of " + name})
}

func (r *Run) listSeq(l *Term, f string) *Seq {
	return r.read("list.List."+f, seqRefT, l).(*Seq)
}
func (r *Run) listSet(l *Term, tags, vals *Seq) {
	delete(r.front, l.id)
	r.write("list.List.$tags", seqRefT, tags, l)
	r.write("list.List.$vals", seqRefT, vals, l)
}

// binaryRead: encoding/binary.Read of a struct of bytes.
func (r *Run) binaryRead(args []Val) []Val {
	c := r.c
	src, ok := args[0].(IfaceV)
	dst, ok2 := args[2].(IfaceV)
	if !ok || !ok2 {
		panic(unsupported{"binary.Read"})
	}
	k, _ := dst.tag.Int64()
	sk, _ := src.tag.Int64()
	pt, isP := r.t.E.typeOfTag(k).(*types.Pointer)
	st, isR := r.t.E.typeOfTag(sk).(*types.Pointer)
	if !isP || !isR || typeName(st.Elem()) != "bytes.Reader" || !isStruct(pt.Elem()) {
		panic(unsupported{"binary.Read"})
	}
	fs := structFields(pt.Elem())
	for _, f := range fs {
		if ii, ok := intType(f.typ); !ok || ii.bits != 8 {
			panic(unsupported{"binary.Read of a field that is not a byte"})
		}
	}
	p := src.val.(*Term)
	d := dst.val.(*Term)
	s := r.readerRest(p)
	n := c.Int(int64(len(fs)))
	if r.decide(c.Lt(c.SeqLen(s), n)) {
		r.setRest(p, emptySeq)
		return []Val{r.errIface()}
	}
	pre := r.readerPre(p)
	for _, f := range fs {
		var h *Term
		h, s = r.head(s)
		pre = c.Cat(pre, c.unit(h))
		r.storeField(d, pt.Elem(), f, h)
	}
	r.write("bytes.Reader.$rest", seqByteT, s, p)
	r.write("bytes.Reader.$pre", seqByteT, pre, p)
	return []Val{r.nilIface()}
}

func (E *Engine) typeOfTag(k int64) types.Type {
	E.mu.Lock()
	defer E.mu.Unlock()
	return E.tagT[k]
}

// ---- interfaces

func (r *Run) invoke(recv IfaceV, cc *ssa.CallCommon, args []Val, in ssa.Instruction, rt types.Type) []Val {
	c := r.c
	m := cc.Method
	it := cc.Value.Type()
	r.safety("call on a nil interface", in.Pos(), c.Not(c.Eq(recv.tag, c.Zero)))
	in2 := func(v Val) []Val {
		if t, ok := v.(TupleV); ok {
			return t.e
		}
		return []Val{v}
	}
	tn := typeName(it)
	switch {
	case m.Name() == "Error" && (tn == "error"):
		return []Val{r.freshVal(types.Typ[types.String], "str", true)}
	case tn == "logger.Logger":
		return in2(r.freshResult(rt, "log"))
	case tn == "net.Conn" || tn == "net.Addr" || strings.HasPrefix(tn, "net."):
		if m.Name() == "Write" {
			s := args[0].(SliceV)
			r.event("write", []Val{r.content(s, byteT, "")})
		} else {
			r.event("conn."+m.Name(), args)
		}
		res := in2(r.freshResult(rt, "conn"))
		if m.Name() == "Read" || m.Name() == "Write" { // io.Reader, io.Writer
			b := args[0].(SliceV)
			n := r.intOf(res[0])
			r.assume(c.And(c.Le(c.Zero, n), c.Le(n, b.len)))
			r.t.assump["net.Conn keeps the contracts of io.Reader and io.Writer"] = true
			if m.Name() == "Read" && !r.decide(c.Le(b.len, c.Zero)) {
				r.aliasCheck(byteT, b.ref)
				r.supersededCheck(b.ref)
				row := r.rowOf(b, byteT, "")
				u, v := r.split(row, b.off)
				r.fresh["read"]++
				nm := fmt.Sprintf("read#%d", r.fresh["read"])
				r.noteSym(nm)
				es, lo, hi := r.esort(byteT)
				a := c.Atom(nm, nil, nil, AtomOpt{len: b.len, esort: es, lo: lo, hi: hi})
				r.setRow(byteT, "", b.ref, c.Cat(u, c.whole(a), r.drop(v, b.len)))
			}
		}
		return res
	}
	if k, ok := recv.tag.Int64(); ok {
		t := r.t.E.typeOfTag(k)
		if t == nil {
			panic(unsupported{"method call on an unknown type"})
		}
		f := r.t.P.lookupMethod(t, m.Name(), m.Pkg())
		if f == nil {
			panic(unsupported{"no method " + m.Name()})
		}
		return r.callFunction(f, append([]Val{r.unbox(recv, t)}, args...), nil, in)
	}
	if openWorld[tn] {
		r.t.assump["listeners do not change the state of the object that notifies them while they run"] = true
		r.event(m.Name(), append([]Val{recv}, args...))
		return in2(r.freshResult(rt, m.Name()))
	}
	// contract of the interface method
	key := tn + "." + m.Name()
	if con := r.t.E.S.con[key]; con != nil {
		return r.applyContract(con, nil, m.Type().(*types.Signature), append([]Val{recv}, args...), it, in)
	}
	u := it.Underlying().(*types.Interface)
	impls := r.t.P.implementers(u)
	if len(impls) == 0 {
		panic(unsupported{"no implementation of " + tn})
	}
	r.t.assump["values of interface "+tn+" are of the repository's own types"] = true
	for _, t := range impls {
		if r.decide(c.Eq(recv.tag, r.tagOf(t))) {
			f := r.t.P.lookupMethod(t, m.Name(), m.Pkg())
			return r.callFunction(f, append([]Val{r.unbox(recv, t)}, args...), nil, in)
		}
	}
	panic(pathEnd{"closed world"})
}

var openWorld = map[string]bool{"embertree.Listener": true, "socket.Listener": true, "embertree.TreeListener": true}

// ---- functions

func inModule(fn *ssa.Function) bool {
	return strings.Contains(fn.String(), modPath)
}

func (r *Run) callFunction(fn *ssa.Function, args []Val, bind []Val, in ssa.Instruction) []Val {
	n := shortName(fn)
	if !inModule(fn) {
		return r.stdlib(fn, args, in)
	}
	if strings.HasPrefix(n, "logger.") && strings.Contains(n, ")") {
		sig := fn.Signature
		v := r.freshResult(sig.Results(), "log")
		return v.(TupleV).e
	}
	if fn.Name() == "init" && fn.Synthetic != "" && r.fr != nil && r.t.con != nil {
		return nil
	}
	con := r.t.E.S.con[n]
	if con != nil && !r.t.noContract[n] {
		inl := false
		if r.t.beh != nil {
			for _, x := range r.t.beh.inline {
				if x == n || x == "*" {
					inl = true
				}
			}
		}
		if !inl {
			return r.applyContract(con, fn, fn.Signature, args, nil, in)
		}
	}
	r.t.inlined[n] = true
	r.callNo[n]++
	path := ""
	if r.fr != nil {
		path = r.fr.path + "/" + r.callSite(in)
	}
	return r.callFn(fn, args, bind, path)
}

// callSite identifies a call instruction inside its function.
func (r *Run) callSite(in ssa.Instruction) string {
	if in == nil || in.Block() == nil {
		return "?"
	}
	for i, x := range in.Block().Instrs {
		if x == in {
			return fmt.Sprintf("%s@%d.%d", in.Parent().Name(), in.Block().Index, i)
		}
	}
	return "?"
}

func sigParams(fn *ssa.Function, sig *types.Signature, recv types.Type) []types.Type {
	var out []types.Type
	if fn != nil {
		for _, p := range fn.Params {
			out = append(out, p.Type())
		}
		return out
	}
	out = append(out, recv)
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

func (r *Run) contractEnv(con *Contract, pts []types.Type, args []Val, res *types.Tuple) *Env {
	e := &Env{r: r, vars: map[string]sv{}}
	if len(con.params) != len(pts) {
		panic(unsupported{fmt.Sprintf("contract of %s names %d parameters, the function has %d", con.fn, len(con.params), len(pts))})
	}
	for i, p := range con.params {
		e.vars[p] = sv{args[i], pts[i]}
	}
	if len(con.results) != res.Len() && len(con.results) > 0 {
		panic(unsupported{fmt.Sprintf("contract of %s names %d results, the function has %d", con.fn, len(con.results), res.Len())})
	}
	return e
}

func (r *Run) behaviors(con *Contract) []*Behavior {
	var uses []string
	if r.t.beh != nil {
		uses = r.t.beh.uses
	}
	for _, cs := range r.cuts {
		if cs.any { // the coarsest contracts do for the invariants of the loop
			uses = []string{"safe"}
		}
	}
	var out []*Behavior
	for _, u := range uses {
		for _, b := range con.behs {
			if (b.name == u || b.c.fn+"/"+b.name == u) && !b.step {
				out = append(out, b)
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	for _, b := range con.behs {
		if !b.explicit && !b.step {
			out = append(out, b)
		}
	}
	return out
}

// applicable: do the behaviour's match clauses and preconditions hold here?
func (r *Run) applicable(b *Behavior, e *Env, full bool) (ok bool, why string) {
	if b.emits == -1 && r.mentionsEvents(b) {
		return false, "the contract speaks of events without a bound"
	}
	unbound := map[string]string{}
	for _, g := range b.ghosts {
		unbound[g.name] = g.typ
	}
	for _, p := range b.nonNil(e) {
		if !r.t.validNN(r, p.t) {
			return false, p.name + " may be nil"
		}
	}
	for _, m := range b.matches {
		be := m.e.(*ast.BinaryExpr)
		act := e.eval(be.X)
		var s *Seq
		switch v := act.v.(type) {
		case *Seq:
			s = v
		case SliceV:
			s = r.content(v, sliceElem(act.t), "")
		default:
			return false, "match on a non-sequence"
		}
		var later []lateTerm
		e.later = &later
		rest, ok := e.match(be.Y, r.norm(s), unbound, true)
		e.later = nil
		for _, l := range later {
			ok = ok && e.matchTerm(l.x, l.act, unbound)
		}
		if !ok {
			return false, "no match: " + m.text + " with " + s.String()
		}
		if len(r.norm(rest).segs) > 0 {
			return false, "no match: " + m.text + " leaves " + rest.String()
		}
	}
	if len(unbound) > 0 {
		return false, "ghost not determined"
	}
	for _, q := range b.requires {
		ok, why := e.prove(q.e, full)
		if !ok {
			return false, "requires " + q.text + ": " + why
		}
	}
	return true, ""
}

// mentions: do the clauses speak of one of these terms, directly or through a macro?
func (r *Run) mentions(cls []Clause, names ...string) bool {
	var in func(x ast.Expr, d int) bool
	in = func(x ast.Expr, d int) bool {
		found := false
		ast.Inspect(x, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				for _, w := range names {
					if id.Name == w {
						found = true
					}
				}
				if m := r.t.E.S.macros[id.Name]; m != nil && d < 20 && in(m.body, d+1) {
					found = true
				}
			}
			return !found
		})
		return found
	}
	for _, q := range cls {
		if in(q.e, 0) {
			return true
		}
	}
	return false
}

func (r *Run) mentionsEvents(b *Behavior) bool {
	b.evOnce.Do(func() {
		b.ev = r.mentions(b.ensures, "events", "event", "eventarg", "called", "devents")
	})
	return b.ev
}

func (r *Run) mentionsNz(b *Behavior) bool {
	if b == nil {
		return false
	}
	b.nzOnce.Do(func() {
		b.nz = r.mentions(b.ensures, "nz")
	})
	return b.nz
}

type nnParam struct {
	name string
	t    *Term
}

// local: does the clause speak of variables of the function's own loops?
func (b *Behavior) local(q Clause) bool {
	b.localOnce.Do(func() {
		own := map[string]bool{"head": true}
		for _, l := range b.loops {
			for _, v := range l.vars {
				own[v.name] = true
			}
			for _, w := range l.wit {
				own[w.name] = true
			}
		}
		for _, n := range append(append([]string{}, b.c.params...), b.c.results...) {
			delete(own, n)
		}
		for _, g := range b.ghosts {
			delete(own, g.name)
		}
		b.locals = map[string]bool{}
		var free func(x ast.Node, bound map[string]bool) bool
		free = func(x ast.Node, bound map[string]bool) bool {
			found := false
			ast.Inspect(x, func(n ast.Node) bool {
				if found {
					return false
				}
				switch y := n.(type) {
				case *ast.SelectorExpr:
					found = free(y.X, bound)
					return false
				case *ast.CallExpr:
					if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "forall" && len(y.Args) == 4 {
						b2 := map[string]bool{exprStr(y.Args[0]): true}
						for k := range bound {
							b2[k] = true
						}
						found = free(y.Args[1], bound) || free(y.Args[2], bound) || free(y.Args[3], b2)
						return false
					}
				case *ast.Ident:
					if own[y.Name] && !bound[y.Name] {
						found = true
					}
				}
				return true
			})
			return found
		}
		for _, c := range b.ensures {
			if free(c.e, nil) {
				b.locals[c.text] = true
			}
		}
	})
	return b.locals[q.text]
}

// nonNil: pointer parameters that the behaviour does not declare nilable.
func (b *Behavior) nonNil(e *Env) []nnParam {
	var out []nnParam
	for _, p := range b.c.params {
		v := e.vars[p]
		if v.t == nil || b.nilable[p] {
			continue
		}
		if _, ok := v.t.Underlying().(*types.Pointer); ok {
			if t, ok := v.v.(*Term); ok {
				out = append(out, nnParam{p, t})
			}
		}
	}
	return out
}

func (t *TaskState) validNN(r *Run, p *Term) bool {
	if isEmb(p) {
		return true
	}
	return r.validQ(r.c.Not(r.refEq(p, r.c.Zero)))
}

func (r *Run) applyContract(con *Contract, fn *ssa.Function, sig *types.Signature, args []Val, recvT types.Type, in ssa.Instruction) []Val {
	c := r.c
	pts := sigParams(fn, sig, recvT)
	res := sig.Results()
	r.flushInv()
	bs := r.behaviors(con)
	var b *Behavior
	var e *Env
	var whys []string
	for _, x := range bs {
		ee := r.contractEnv(con, pts, args, res)
		r.spec++
		ok, why := r.applicable(x, ee, x == bs[len(bs)-1])
		r.spec--
		if ok {
			b, e = x, ee
			break
		}
		whys = append(whys, x.name+": "+why)
	}
	if b == nil {
		if fn != nil && len(con.behs) > 0 && !con.strict {
			// no behaviour applies: use the body
			if os.Getenv("GOVC_TRACE") != "" {
				fmt.Println("  inline", con.fn, strings.Join(whys, "; "))
			}
			if r.depth < maxInline && !r.recursive(fn) {
				r.t.inlined[con.fn] = true
				path := ""
				if r.fr != nil {
					path = r.fr.path + "/" + r.callSite(in)
				}
				return r.callFn(fn, args, nil, path)
			}
		}
		o := r.t.obl("precondition of "+con.fn, "requires")
		r.fail(o, nil, strings.Join(whys, "; "))
		panic(pathEnd{"precondition"})
	}
	r.t.obl("precondition of "+con.fn, "requires").proofs++
	r.t.used[b.id()] = true
	// recursion
	if r.t.con != nil && !r.t.beh.partial && (b.decr == nil || r.measure0 == nil) && r.t.E.sameSCC(r.t.con.fn, con.fn) {
		r.fail(r.t.obl("termination: recursion through "+con.fn+" decreases", "termination"), nil, "no measure")
	}
	if r.t.con != nil && b.decr != nil && r.measure0 != nil && r.t.E.sameSCC(r.t.con.fn, con.fn) {
		r.spec++
		m := e.intTerm(b.decr)
		r.spec--
		r.oblige("termination", "recursion through "+con.fn+" decreases", c.And(c.Lt(m, r.measure0), c.Le(c.Zero, r.measure0)))
	}
	return r.assumeContract(con, b, e, res, in)
}

func (r *Run) recursive(fn *ssa.Function) bool {
	for f := r.fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (r *Run) assumeContract(con *Contract, b *Behavior, e *Env, res *types.Tuple, in ssa.Instruction) []Val {
	c := r.c
	r.spec++
	defer func() { r.spec-- }()
	e.old = snapshot(r.heap)
	oldAlloc := r.allocN
	saveAlloc := r.oldAlloc
	_ = saveAlloc
	// frame
	var locs []loc
	for _, m := range b.modifies {
		locs = append(locs, e.locs(m.e)...)
	}
	e.allocBase = r.allocN
	r.gap()
	endAlloc := r.allocN + gapResults
	r.limFix = big.NewInt(int64(freshBase + endAlloc))
	defer func() { r.limFix = nil; r.allocN = endAlloc }()
	ep := r.epoch("C")
	for _, l := range locs {
		if l.any {
			r.havocAny(ep)
			continue
		}
		if l.all {
			r.havoc(l.key, l.typ, &havocSpec{epoch: ep, all: true})
			continue
		}
		r.havocLoc(l.key, l.typ, l.idx, ep)
	}
	_ = oldAlloc
	// results
	vals := make([]Val, res.Len())
	names := con.results
	isSet := make([]bool, res.Len())
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		nm := fmt.Sprintf("res%d", i)
		if i < len(names) {
			nm = names[i]
		}
		done := false
		for _, rt := range b.returns {
			if rt.name != nm {
				continue
			}
			done = true
			isSet[i] = true
			k := r.choose(len(rt.opts))
			vals[i] = e.returnOpt(rt.opts[k], t)
		}
		if !done {
			if s, ok := t.Underlying().(*types.Slice); ok && b.freshSlices {
				_ = s
			}
			vals[i] = r.freshVal(t, "ret."+con.fnShort()+"."+nm, false)
		}
		if i < len(names) {
			e.vars[nm] = sv{vals[i], t}
		}
	}
	if b.emits >= 0 {
		// the calls of user functions the callee made
		ev0 := r.entryEvents
		defer func() { r.entryEvents = ev0 }()
		r.entryEvents = len(r.events)
		for n := r.choose(b.emits + 1); n > 0; n-- {
			r.event("call", []Val{r.freshInt("ev.fn", bigZero, maxRef), r.ownedSlice(types.NewSlice(types.Typ[types.Byte]), "ev.arg")}) // a snapshot
		}
	}
	if b.emits == -2 {
		r.events = append(r.events, Event{kind: "*"})
	}
	e.unset = map[string]bool{}
	for i := range vals {
		if i < len(names) && !isSet[i] {
			e.unset[names[i]] = true
		}
	}
	e.set = func(name string, v Val) {
		for i, n := range names {
			if n == name {
				vals[i] = v
			}
		}
	}
	for _, q := range b.ensures {
		if r.mentions([]Clause{q}, callTerms...) {
			continue // speaks of what the callee itself called
		}
		if b.emits == -2 && r.mentions([]Clause{q}, "events", "event", "eventarg", "called", "devents") {
			continue
		}
		if b.local(q) {
			continue // speaks of the callee's own loop
		}
		e.assumeF(q.e)
	}
	for i, n := range names {
		vals[i] = e.vars[n].v
	}
	_ = c
	rec := callRec{fn: con.fn, params: con.params, results: names, pre: e.old, post: snapshot(r.heap), args: map[string]sv{}, res: map[string]sv{}}
	for _, n := range con.params {
		rec.args[n] = e.vars[n]
	}
	for i, n := range names {
		rec.res[n] = sv{vals[i], res.At(i).Type()}
	}
	r.calls = append(r.calls, rec)
	return vals
}

// callRec: a call whose contract was used, for the clauses that speak of calls.
type callRec struct {
	fn              string
	params, results []string
	args, res       map[string]sv
	pre, post       map[string]*field
	lost            map[string]bool // marker: any number of calls of these functions
}

var callTerms = []string{"ncalls", "carg", "cres", "capp", "cfor", "exhausted", "rangekey", "rangeval", "rangemap", "overmap", "ranged", "newmap"}

func callNamed(fn, name string) bool {
	return fn == name || strings.HasSuffix(fn, "."+name)
}

// callsOf lists the calls of a function in the scope of a clause.
func (e *Env) callsOf(x ast.Expr, name string) []callRec {
	name = strings.Trim(name, "\"")
	var out []callRec
	for _, k := range e.r.calls[e.r.entryCalls:] {
		if k.lost != nil {
			for n := range k.lost {
				if callNamed(n, name) {
					e.fail(x, "the calls before are unknown")
				}
			}
			continue
		}
		if callNamed(k.fn, name) {
			out = append(out, k)
		}
	}
	return out
}

// lastCalls: the last call of the function on this path, if any.
func (e *Env) lastCalls(x ast.Expr, name string) []callRec {
	name = strings.Trim(name, "\"")
	ks := e.r.calls[e.r.entryCalls:]
	for i := len(ks) - 1; i >= 0; i-- {
		if ks[i].lost != nil {
			for n := range ks[i].lost {
				if callNamed(n, name) {
					e.fail(x, "the calls before are unknown")
				}
			}
			continue
		}
		if callNamed(ks[i].fn, name) {
			return ks[i : i+1]
		}
	}
	return nil
}

func (e *Env) seenCall(name string) bool {
	ks := e.r.calls[e.r.entryCalls:]
	for i := len(ks) - 1; i >= 0; i-- {
		for n := range ks[i].lost {
			if callNamed(n, name) {
				return false
			}
		}
		if ks[i].lost == nil && callNamed(ks[i].fn, name) {
			return true
		}
	}
	return false
}

func (con *Contract) fnShort() string {
	if i := strings.LastIndex(con.fn, "."); i >= 0 {
		return con.fn[i+1:]
	}
	return con.fn
}

// havocAny forgets every field, map and backing array (local cells are kept).
func (r *Run) havocAny(ep string) {
	keys := map[string]types.Type{}
	for _, k := range sortedKeys(r.heap) {
		if strings.HasPrefix(k, "cell:") || strings.HasPrefix(k, "iter:") {
			continue
		}
		if strings.HasPrefix(k, "global:") || k == "$any" {
			continue
		}
		keys[k] = r.heap[k].typ
	}
	for k, t := range keys {
		r.havoc(k, t, &havocSpec{epoch: ep, all: true})
	}
	// locations not seen so far
	f := r.heap["$any"]
	if f == nil {
		f = &field{key: "$any"}
		r.heap["$any"] = f
	}
	f.layers = append(f.layers[:len(f.layers):len(f.layers)], layer{havoc: &havocSpec{epoch: ep, all: true, lim: r.limit()}})
}

var _ = token.NoPos
