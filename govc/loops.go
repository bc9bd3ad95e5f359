package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops. A loop whose iterations are bounded by the machine width is executed
// to its end; every other loop is cut at its header by an inductive invariant:
// candidates (generic ones and those of the contract's loop clauses) are
// checked on entry and at every back edge, and dropped until the rest is
// inductive (Houdini); the frame of the loop is what its body was seen to write.

type modRef struct {
	idx []*Term
}
type modInfo struct {
	freshFn bool // any object allocated since the function started
	typ     types.Type
	all     bool
	fresh   bool
	refs    map[string][]*Term
}

type loopCut struct {
	emits    bool            // the body may call user functions
	calls    map[string]bool // functions called in the body by contract
	key      string
	cut      bool
	mods     map[string]*modInfo
	dropped  map[string]bool
	notOwned map[int]bool
	anyRank  bool
	backs    int
	ranked   map[string]bool // ranking candidates still alive (nil until first back edge)
	rankInit bool
	desc     string
	eachOK   map[string]bool
	eachBad  map[string]string
	reported map[string]bool
}

type cutState struct {
	fr      *frame
	li      *loopInfo
	lc      *loopCut
	alloc0  int
	newSyms map[string]bool
	vals    map[*ssa.Phi]Val // header values
	ent     map[*ssa.Phi]Val
	heap    map[string]*field // entry heap
	hheap   map[string]*field // header heap
	ranks   map[string]*Term
	steps   int
	phase   int
	wits    map[string]*Term
	events0 int
	calls0  int
	any     bool // an iteration like any other in a step behaviour
	given   bool // the iteration under the hypothesis of a step behaviour
}

const (
	phEntry = iota
	phHead
	phBack
)

func (r *Run) loopKey(fr *frame, li *loopInfo) string {
	return fmt.Sprintf("%s|%s#%d", fr.path, shortName(fr.fn), li.header.Index)
}

func (r *Run) loopHeader(fr *frame, li *loopInfo, prev *ssa.BasicBlock) bool {
	key := r.loopKey(fr, li)
	lc := r.t.loops[key]
	if lc == nil {
		lc = &loopCut{key: key, mods: map[string]*modInfo{}, dropped: map[string]bool{}, notOwned: map[int]bool{}, ranked: map[string]bool{}, reported: map[string]bool{}, eachOK: map[string]bool{}, eachBad: map[string]string{}}
		lc.desc = shortName(fr.fn)
		r.t.loops[key] = lc
	}
	entry := !li.blocks[prev]
	if !lc.cut {
		if r.loopSpecs(fr, li) != nil || r.t.beh != nil && r.t.beh.cutLoops {
			lc.cut = true
		}
	}
	if !lc.cut {
		if entry {
			fr.iter[li.header] = 0
		} else {
			fr.iter[li.header]++
			limit := maxUnroll
			if r.t.beh != nil && r.t.beh.unroll > 0 {
				limit = r.t.beh.unroll
			}
			if fr.iter[li.header] > limit {
				lc.cut = true
				panic(restart{"cut " + key})
			}
		}
		return false
	}
	var phis []*ssa.Phi
	for _, in := range li.header.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	now := map[*ssa.Phi]Val{}
	for _, p := range phis {
		now[p] = r.val(p.Edges[predIndex(li.header, prev)])
	}
	r.flushInv()
	if entry {
		for i := len(r.cuts) - 1; i >= 0; i-- {
			if r.cuts[i].fr == fr && r.cuts[i].li == li {
				r.cuts = append(r.cuts[:i:i], r.cuts[i+1:]...)
			}
		}
		fr.iter[li.header] = 0
	}
	if r.openCut(fr, li) == nil {
		// before the first cut point the loop is unrolled
		if !r.cutHere(&cutState{fr: fr, li: li, lc: lc, ent: now, heap: snapshot(r.heap), ranks: map[string]*Term{}}, phis, now) {
			if fr.iter[li.header]++; fr.iter[li.header] > maxUnroll {
				panic(unsupported{"no cut point within " + fmt.Sprint(maxUnroll) + " iterations"})
			}
			return false
		}
		entry = true
	}
	if entry {
		r.cutEntry(fr, li, lc, phis, now)
		return true
	}
	r.cutBack(fr, li, lc, phis, now)
	return true
}

func isOwnedSlice(v Val) bool {
	s, ok := v.(SliceV)
	if !ok {
		return false
	}
	if s.isnil.IsTrue() {
		return true
	}
	n, ok := s.ref.Int64()
	return ok && n > freshBase && s.off.IsConst() && s.off.num.Sign() == 0
}

func sliceElem(t types.Type) types.Type { return t.Underlying().(*types.Slice).Elem() }

func (r *Run) cutEntry(fr *frame, li *loopInfo, lc *loopCut, phis []*ssa.Phi, now map[*ssa.Phi]Val) {
	cs := &cutState{fr: fr, li: li, lc: lc, newSyms: map[string]bool{}, ent: now, heap: snapshot(r.heap), ranks: map[string]*Term{}}
	cands := r.candidates(cs, phis)
	// entry check
	for _, k := range cands {
		if lc.dropped[k.name] || r.t.frameDirty {
			continue
		}
		if ok, why := k.check(now, r); !ok && !r.endIfInfeasible() {
			if os.Getenv("GOVC_LOOPS") != "" {
				fmt.Printf("  drop at entry %s: %s (%s)\n", lc.key, k.name, why)
			}
			lc.dropped[k.name] = true
			r.t.dirty = true
		}
	}
	r.eachClauses(cs, phis, now, true)
	// havoc the frame
	cs.phase = phHead
	cs.vals = map[*ssa.Phi]Val{}
	r.cuts = append(r.cuts, cs)
	from := int64(freshBase + r.gap() + 1)
	ep := r.epoch("L")
	var ks []string
	for k := range lc.mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		m := lc.mods[k]
		r.havocMod(k, m, ep, from)
	}
	for _, it := range r.iterators(fr, li) {
		r.havocLoc("iter:pos", seqLenT, []*Term{it.id}, ep)
	}
	cs.alloc0 = r.allocN
	for i, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok && !lc.notOwned[i] {
			if isOwnedSlice(now[p]) {
				cs.vals[p] = r.ownedSlice(p.Type(), fmt.Sprintf("phi.%s", p.Comment))
				fr.env[p] = cs.vals[p]
				continue
			}
			lc.notOwned[i] = true
			r.t.dirty = true
		}
		if sameForever(p, li) {
			cs.vals[p] = now[p]
		} else {
			cs.vals[p] = r.freshVal(p.Type(), "phi."+p.Comment, false)
		}
		fr.env[p] = cs.vals[p]
	}
	cs.alloc0 = r.allocN
	cs.hheap = snapshot(r.heap)
	for _, k := range cands {
		if k.inv && !lc.dropped[k.name] {
			k.assume(cs.vals, r)
		}
	}
	for _, k := range cands {
		if k.set != nil && !lc.dropped[k.name] {
			k.set(cs.vals, r)
		}
	}
	for _, k := range cands {
		if !lc.dropped[k.name] {
			k.assume(cs.vals, r)
		}
	}
	for n, ls := range r.loopSpecs(fr, li) {
		if b := r.bestBinding(cs, phis, n, ls); len(ls.assumes) > 0 && b != nil {
			e := r.specEnv(cs)
			if !b.get(cs.vals, r, e) {
				continue
			}
			r.spec++
			for _, g := range ls.assumes {
				e.assumeF(g.e)
				r.t.assump["at every iteration of the loop in "+fr.fn.String()+": "+g.text] = true
			}
			r.spec--
		}
	}
	for _, ls := range r.loopSpecs(fr, li) {
		if len(ls.given) == 0 {
			continue
		}
		// an iteration like any other (the invariants rest on it), or one that starts as the step behaviour says
		if r.choose(2) == 0 {
			cs.any = true
			continue
		}
		cs.given = true
		e := r.specEnv(cs)
		r.spec++
		for _, g := range ls.given {
			e.assumeF(g.e)
		}
		r.spec--
	}
	cs.hheap = snapshot(r.heap)
	if lc.emits {
		// any number of events happened in the iterations so far
		r.events = append(r.events, Event{kind: "*"})
	}
	cs.events0 = len(r.events)
	if len(lc.calls) > 0 {
		r.calls = append(r.calls, callRec{lost: lc.calls})
	}
	cs.calls0 = len(r.calls)
	for n, f := range r.rankings(cs, phis) {
		if lc.rankInit && !lc.ranked[n] {
			continue
		}
		if v := f(cs.vals, r); v != nil {
			cs.ranks[n] = v
		}
	}
}

// sameForever: the phi only ever takes its entry value or itself.
func sameForever(p *ssa.Phi, li *loopInfo) bool {
	for i, e := range p.Edges {
		if li.blocks[li.header.Preds[i]] && e != ssa.Value(p) {
			return false
		}
	}
	return true
}

// ownedSlice: a slice with its own, otherwise unreferenced backing array.
func (r *Run) ownedSlice(t types.Type, name string) SliceV {
	c := r.c
	ref := r.newRef()
	n := r.freshInt(name+".len", bigZero, maxLen)
	cp := r.freshInt(name+".cap", bigZero, maxLen)
	nl := r.freshVar(name+".nil", SBool, nil, nil)
	r.assume(c.Le(n, cp))
	r.assume(c.Imp(nl, c.Le(cp, c.Zero)))
	elem := sliceElem(t)
	if !isStruct(elem) && !isString(elem) {
		es, lo, hi := r.esort(elem)
		if es == SInt && hi == nil {
			hi = r.limit()
		}
		for _, comp := range rowComps(elem) {
			h := hi
			if comp == ".tag" {
				h = big.NewInt(1 << 30)
			}
			r.fresh["own"]++
			a := c.Atom(fmt.Sprintf("row:%s%s#own%d%s", typeName(elem), comp, r.fresh["own"], limSfx(h)), nil, nil, AtomOpt{len: cp, esort: es, lo: lo, hi: h})
			for _, cs := range r.cuts {
				cs.newSyms[symBase(a.fn)] = true
			}
			r.setRow(elem, comp, ref, c.whole(a))
		}
	}
	return SliceV{ref, c.Zero, n, cp, nl}
}

func (r *Run) openCut(fr *frame, li *loopInfo) *cutState {
	for i := len(r.cuts) - 1; i >= 0; i-- {
		if r.cuts[i].fr == fr && r.cuts[i].li == li {
			return r.cuts[i]
		}
	}
	return nil
}

// cutHere decides the cutwhen clauses.
func (r *Run) cutHere(cs *cutState, phis []*ssa.Phi, now map[*ssa.Phi]Val) bool {
	for _, ls := range r.loopSpecs(cs.fr, cs.li) {
		for _, w := range ls.when {
			for _, b := range r.bindings(cs, phis, ls) {
				e := r.specEnv(cs)
				if !b.get(now, r, e) {
					continue
				}
				r.spec++
				t := e.term(w)
				r.spec--
				if !r.decide(t) {
					return false
				}
				break
			}
		}
	}
	return true
}

func (r *Run) cutBack(fr *frame, li *loopInfo, lc *loopCut, phis []*ssa.Phi, now map[*ssa.Phi]Val) {
	cs := r.openCut(fr, li)
	if cs == nil {
		panic(unsupported{"back edge without a cut"})
	}
	// between cut points the loop is unrolled
	if !r.cutHere(cs, phis, now) {
		cs.steps++
		if cs.steps > maxUnroll {
			panic(unsupported{"no cut point within " + fmt.Sprint(maxUnroll) + " iterations"})
		}
		for _, p := range phis {
			fr.env[p] = now[p]
		}
		return
	}
	// a flag set in the body ends the loop at its head as a break would: go on
	if r.endsHere(fr, li, phis, now) {
		for _, p := range phis {
			fr.env[p] = now[p]
		}
		return
	}
	for i, p := range phis {
		if _, ok := p.Type().Underlying().(*types.Slice); ok && !lc.notOwned[i] && !isOwnedSlice(now[p]) {
			lc.notOwned[i] = true
			r.t.frameDirty = true
		}
	}
	for _, k := range r.calls[cs.calls0:] {
		names := map[string]bool{k.fn: true}
		if k.lost != nil {
			names = k.lost
		}
		for n := range names {
			if !lc.calls[n] {
				if lc.calls == nil {
					lc.calls = map[string]bool{}
				}
				lc.calls[n] = true
				r.t.frameDirty = true
			}
		}
	}
	if len(r.events) > cs.events0 && !lc.emits {
		lc.emits = true
		r.t.frameDirty = true
	}
	cs.phase = phBack
	if r.t.frameDirty {
		panic(pathEnd{"back edge"})
	}
	if cs.given {
		r.eachClauses(cs, phis, now, false)
		panic(pathEnd{"back edge"})
	}
	for _, k := range r.candidates(cs, phis) {
		if lc.dropped[k.name] {
			continue
		}
		if ok, why := k.check(now, r); !ok && !r.endIfInfeasible() {
			if os.Getenv("GOVC_LOOPS") != "" {
				fmt.Printf("  drop at back edge %s: %s (%s)\n", lc.key, k.name, why)
				if os.Getenv("GOVC_PC") == "2" {
					fmt.Println(r.t.s.lastQ)
				}
			}
			lc.dropped[k.name] = true
			r.t.dirty = true
		}
	}
	r.eachClauses(cs, phis, now, false)
	// ranking
	rk := r.rankings(cs, phis)
	alive := map[string]bool{}
	for n, v0 := range cs.ranks {
		f := rk[n]
		if f == nil {
			continue
		}
		v1 := f(now, r)
		if v1 == nil {
			continue
		}
		c := r.c
		if r.valid(c.And(c.Lt(v1, v0), c.Le(c.Zero, v0))) {
			alive[n] = true
		}
	}
	if !lc.rankInit {
		lc.rankInit = true
		lc.ranked = alive
	} else {
		for n := range lc.ranked {
			if !alive[n] {
				delete(lc.ranked, n)
			}
		}
	}
	lc.backs++
	panic(pathEnd{"back edge"})
}

// endsHere decides the conditions at the head of the loop that only look at
// flags and errors carried over from the body: does the loop end here?
func (r *Run) endsHere(fr *frame, li *loopInfo, phis []*ssa.Phi, now map[*ssa.Phi]Val) bool {
	carried := func(v ssa.Value) (*ssa.Phi, bool) {
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != li.header || now[p] == nil {
			return nil, false
		}
		for i, e := range p.Edges {
			if _, isConst := e.(*ssa.Const); li.blocks[li.header.Preds[i]] && !isConst {
				return p, true
			}
		}
		return nil, false
	}
	// cond is the term of a condition; nil when it is of another kind
	cond := func(v ssa.Value) *Term {
		neg := false
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			neg = true
			v = u.X
		}
		var t *Term
		if p, ok := carried(v); ok && isBool(p.Type()) {
			t, _ = now[p].(*Term)
		} else if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			p, ok := carried(b.X)
			k, isK := b.Y.(*ssa.Const)
			if !ok || !isK || k.Value != nil || (typeName(p.Type()) != "error" && typeName(p.Type()) != "errors.Error") {
				return nil
			}
			t, _ = r.binop(b.Op, now[p], r.val(k), b.X.Type(), b.Y.Type(), b.Type(), b.Pos()).(*Term)
		}
		if t != nil && neg {
			t = r.c.Not(t)
		}
		return t
	}
	blk := li.header
	for n := 0; n < 4; n++ {
		var next *ssa.BasicBlock
		for _, in := range blk.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				if blk != li.header {
					return false
				}
			case *ssa.BinOp, *ssa.UnOp, *ssa.DebugRef:
			case *ssa.If:
				t := cond(in.Cond)
				if t == nil {
					return false
				}
				i := 1
				if r.decide(t) {
					i = 0
				}
				if !li.blocks[blk.Succs[i]] {
					return true
				}
				next = blk.Succs[i]
			default:
				return false
			}
		}
		if next == nil {
			return false
		}
		blk = next
	}
	return false
}

func (r *Run) havocMod(key string, m *modInfo, ep string, from int64) {
	if m.all {
		r.havoc(key, m.typ, &havocSpec{epoch: ep, all: true})
		return
	}
	if m.freshFn {
		r.havoc(key, m.typ, &havocSpec{epoch: ep, freshOnly: true, from: int64(freshBase + r.oldAlloc + 1)})
	} else if m.fresh {
		r.havoc(key, m.typ, &havocSpec{epoch: ep, freshOnly: true, from: from})
	}
	var ks []string
	for k := range m.refs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		idx := m.refs[k]
		r.havocLoc(key, m.typ, idx, ep)
	}
}

// havocLoc gives one location an arbitrary value (the length of a backing array stays).
func (r *Run) havocLoc(key string, typ types.Type, idx []*Term, ep string) {
	if strings.HasPrefix(key, "row:") {
		f := r.fieldOf(key, nil)
		var old *Seq
		for i := len(f.layers) - 1; i >= 0; i-- {
			if f.layers[i].havoc == nil && sameIdx(f.layers[i].idx, idx) {
				old = f.layers[i].val.(*Seq)
				break
			}
			if f.layers[i].havoc != nil {
				break
			}
		}
		if old != nil {
			es, lo, hi := r.seqSort(key, old)
			a := r.c.Atom(key+"@"+ep+limSfx(hi), idx, nil, AtomOpt{len: r.c.SeqLen(old), esort: es, lo: lo, hi: hi})
			r.write(key, nil, r.c.whole(a), idx...)
			return
		}
	}
	r.havoc(key, typ, &havocSpec{epoch: ep, refs: [][]*Term{idx}})
}

func (r *Run) seqSort(key string, s *Seq) (Sort, *big.Int, *big.Int) {
	k := strings.TrimPrefix(key, "row:")
	switch k {
	case "uint8":
		es, lo, hi := r.esort(types.Typ[types.Uint8])
		return es, lo, hi
	case "int32":
		return r.esort(types.Typ[types.Int32])
	}
	if strings.HasSuffix(k, ".tag") {
		return SInt, bigZero, big.NewInt(1 << 30)
	}
	return SInt, bigZero, r.limit()
}

// ---- frame discovery

// variant: does the term mention something created after the header?
func (cs *cutState) variant(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == OConst && t.sort == SInt {
		if n, ok := t.Int64(); ok && n > freshBase && n < int64(1)<<40 && n > int64(freshBase+cs.alloc0) {
			return true
		}
	}
	if t.op == OVar || t.op == OApp {
		if cs.newSyms[symBase(t.name)] {
			return true
		}
		if i := strings.LastIndex(t.name, "@"); i >= 0 && cs.newSyms[cutSfx(t.name[i+1:])] {
			return true
		}
	}
	for _, a := range t.args {
		if cs.variant(a, seen) {
			return true
		}
	}
	return false
}

func cutSfx(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' || s[i] == '.' || s[i] == '!' || s[i] == '[' {
			return s[:i]
		}
	}
	return s
}
func symBase(n string) string {
	n = strings.TrimPrefix(n, "at!")
	n = strings.TrimPrefix(n, "len!")
	if i := strings.Index(n, "#"); i >= 0 {
		j := i + 1
		for j < len(n) && (n[j] >= '0' && n[j] <= '9' || n[j] >= 'a' && n[j] <= 'z') {
			j++
		}
		return n[:j]
	}
	return n
}

func (r *Run) noteSym(name string) {
	for _, cs := range r.cuts {
		cs.newSyms[name] = true
	}
}

func freshNumeral(t *Term, since int) (bool, bool) {
	b := baseRef(t)
	if n, ok := b.Int64(); ok && n > freshBase && n < 1<<40 {
		return true, n > int64(freshBase+since)
	}
	return false, false
}

func isConstFresh(t *Term) bool {
	n, ok := baseRef(t).Int64()
	return ok && n > freshBase && n < 1<<40
}

func idxKey(idx []*Term) string {
	s := ""
	for _, t := range idx {
		s += fmt.Sprintf("%d,", t.id)
	}
	return s
}

func (lc *loopCut) mod(key string, typ types.Type) *modInfo {
	m := lc.mods[key]
	if m == nil {
		m = &modInfo{typ: typ, refs: map[string][]*Term{}}
		lc.mods[key] = m
	}
	if m.typ == nil {
		m.typ = typ
	}
	return m
}

func (r *Run) noteWrite(key string, typ types.Type, idx []*Term) {
	if len(r.cuts) == 0 {
		return
	}
	for _, cs := range r.cuts {
		if cs.hheap == nil {
			continue // still being set up
		}
		r.noteWriteIn(cs, key, typ, idx)
	}
}

// grown: the frame of a loop grew. What follows on this path works with the old frame, so
// nothing it shows counts: the pass is repeated.
func (r *Run) grown(key, why string) {
	r.t.frameDirty = true
	if r.stale == nil {
		r.stale = map[string]bool{}
	}
	r.stale[key] = true
	if os.Getenv("GOVC_V") != "" {
		fmt.Println("  frame:", why, key)
	}
}

// staleTerm: does the term depend on a location that was not yet in the frame when the loop was entered?
func (r *Run) staleTerm(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.op == OApp || t.op == OVar {
		n := strings.TrimPrefix(strings.TrimPrefix(t.name, "at!"), "len!")
		if i := strings.IndexAny(n, "@"); i >= 0 && r.stale[n[:i]] {
			return true
		}
	}
	for _, a := range t.args {
		if r.staleTerm(a, seen) {
			return true
		}
	}
	return false
}

func (r *Run) noteWriteIn(cs *cutState, key string, typ types.Type, idx []*Term) {
	if key == "iter:pos" {
		return // the iterators a loop advances are known beforehand
	}
	m := cs.lc.mods[key]
	if m != nil && m.all {
		return
	}
	if idx == nil || len(idx) == 0 {
		mm := cs.lc.mod(key, typ)
		if idx != nil || isGlobalKey(key) {
			if _, ok := mm.refs[""]; ok {
				return
			}
			mm.refs[""] = []*Term{}
		} else {
			mm.all = true
		}
		r.grown(key, "whole")
		return
	}
	if len(r.stale) > 0 {
		seen := map[*Term]bool{}
		for _, t := range idx {
			if r.staleTerm(t, seen) {
				return
			}
		}
	}
	if _, newer := freshNumeral(idx[0], cs.alloc0); newer {
		if m != nil && (m.fresh || m.freshFn) {
			return
		}
		cs.lc.mod(key, typ).fresh = true
		r.grown(key, "fresh")
		return
	}
	// a backing array that is only known from inside the loop
	vr := false
	for _, t := range idx {
		if cs.variant(t, map[*Term]bool{}) {
			vr = true
		}
	}
	if vr {
		// the leading reference may be invariant while the index is not
		if len(idx) > 1 && !cs.variant(idx[0], map[*Term]bool{}) {
			k := idxKey(idx[:1])
			if m != nil {
				if _, ok := m.refs[k]; ok {
					return
				}
			}
			cs.lc.mod(key, typ).refs[k] = idx[:1]
			r.grown(key, "prefix")
			return
		}
		// an object embedded in one the loop does not vary
		for t := idx[0]; isEmb(t) && !isWithin(t); {
			t = t.args[0]
			if cs.variant(t, map[*Term]bool{}) || isConstFresh(t) {
				continue
			}
			w := []*Term{r.within(t)}
			k := idxKey(w)
			if m != nil {
				if _, ok := m.refs[k]; ok {
					return
				}
			}
			cs.lc.mod(key, typ).refs[k] = w
			r.grown(key, "within")
			return
		}
		if m != nil && m.freshFn && r.isFresh(idx[0]) {
			return
		}
		if r.isFresh(idx[0]) {
			cs.lc.mod(key, typ).freshFn = true
			r.grown(key, "fresh in the function")
			return
		}
		cs.lc.mod(key, typ).all = true
		r.grown(key, "all")
		return
	}
	k := idxKey(idx)
	if m != nil {
		if _, ok := m.refs[k]; ok {
			return
		}
		if _, ok := m.refs[idxKey(idx[:1])]; ok {
			return
		}
	}
	if len(r.stale) > 0 && len(idx) > 1 {
		r.t.frameDirty = true
		return
	}
	mm := cs.lc.mod(key, typ)
	if len(mm.refs) > 12 {
		mm.all = true
	}
	mm.refs[k] = idx
	r.grown(key, "ref")
}

func typString(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}
func isGlobalKey(k string) bool { return strings.HasPrefix(k, "global:") }

// iterators: those that the loop advances and that were made before it.
func (r *Run) iterators(fr *frame, li *loopInfo) []IterV {
	var out []IterV
	seen := map[*Term]bool{}
	for b := range li.blocks {
		for _, in := range b.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok {
				continue
			}
			if d, ok := n.Iter.(ssa.Instruction); !ok || li.blocks[d.Block()] {
				continue
			}
			if it, ok := fr.env[n.Iter].(IterV); ok && !seen[it.id] {
				seen[it.id] = true
				out = append(out, it)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id.id < out[j].id.id })
	return out
}

func (r *Run) noteWriteFresh(key string, typ types.Type) {
	for _, cs := range r.cuts {
		if cs.hheap == nil {
			continue
		}
		m := cs.lc.mods[key]
		if m != nil && (m.all || m.fresh || m.freshFn) {
			continue
		}
		cs.lc.mod(key, typ).fresh = true
		r.grown(key, "fresh")
	}
}

// ---- candidates

type cand struct {
	name   string
	check  func(env map[*ssa.Phi]Val, r *Run) (bool, string)
	assume func(env map[*ssa.Phi]Val, r *Run)
	set    func(env map[*ssa.Phi]Val, r *Run)
	inv    bool
}

func termCand(name string, f func(env map[*ssa.Phi]Val, r *Run) *Term) cand {
	return cand{name: name,
		check: func(env map[*ssa.Phi]Val, r *Run) (bool, string) {
			t := f(env, r)
			if t == nil {
				return false, "undefined"
			}
			return r.validQ(t), ""
		},
		assume: func(env map[*ssa.Phi]Val, r *Run) {
			if t := f(env, r); t != nil {
				r.assume(t)
			}
		}}
}

func (r *Run) candidates(cs *cutState, phis []*ssa.Phi) []cand {
	var out []cand
	c := r.c
	for i, p := range phis {
		p := p
		if sameForever(p, cs.li) {
			continue
		}
		pn := fmt.Sprintf("%d.%s", i, p.Comment)
		ent := cs.ent[p]
		switch e := ent.(type) {
		case *Term:
			if e.sort == SInt && !isRefType(p.Type()) {
				out = append(out, termCand(pn+" = entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Eq(env[p].(*Term), e) }))
				out = append(out, termCand(pn+" >= entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Le(e, env[p].(*Term)) }))
				out = append(out, termCand(pn+" <= entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Le(env[p].(*Term), e) }))
				if !e.IsConst() {
					out = append(out, termCand(pn+" >= 0", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Le(c.Zero, env[p].(*Term)) }))
				}
				for _, b := range r.loopBounds(cs, p) {
					b := b
					out = append(out, termCand(pn+" <= "+b.name, func(env map[*ssa.Phi]Val, r *Run) *Term {
						x := b.f(r)
						if x == nil {
							return nil
						}
						return c.Le(c.Add(env[p].(*Term), c.Int(rangeOffs(p)[0])), x)
					}))
				}
			} else if e.sort != SInt {
				out = append(out, termCand(pn+" = entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Eq(env[p].(*Term), e) }))
			}
			if isRefType(p.Type()) {
				out = append(out, termCand(pn+" = entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return r.refEq(env[p].(*Term), e) }))
				out = append(out, termCand(pn+" != nil", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Not(r.refEq(env[p].(*Term), c.Zero)) }))
			}
		case IfaceV:
			out = append(out, termCand(pn+" != nil", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Not(c.Eq(env[p].(IfaceV).tag, c.Zero)) }))
			out = append(out, termCand(pn+" tag = entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Eq(env[p].(IfaceV).tag, e.tag) }))
		case SliceV:
			out = append(out, termCand(pn+" nil = entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Eq(env[p].(SliceV).isnil, e.isnil) }))
			if e.isnil.IsTrue() {
				out = append(out, termCand(pn+" nil iff empty", func(env map[*ssa.Phi]Val, r *Run) *Term {
					s := env[p].(SliceV)
					return c.Eq(s.isnil, c.Eq(s.len, c.Zero))
				}))
			}
		}
	}
	// heap locations of the frame
	var ks []string
	for k := range cs.lc.mods {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		k := k
		m := cs.lc.mods[k]
		if m.all || m.typ == nil {
			continue
		}
		_, isInt := intType(m.typ)
		if isInt && r.isBV(m.typ) {
			isInt = false
		}
		if !isInt && !isRefType(m.typ) && !isBool(m.typ) {
			continue
		}
		var rk []string
		for x := range m.refs {
			rk = append(rk, x)
		}
		sort.Strings(rk)
		for _, x := range rk {
			idx := m.refs[x]
			if len(idx) > 0 && isWithin(idx[0]) {
				continue
			}
			if (strings.HasPrefix(k, "mapdom:") || strings.HasPrefix(k, "mapval:")) && len(idx) < 2 {
				continue
			}
			old := r.withHeap(cs.heap, func() Val { return r.read(k, m.typ, idx...) })
			o, ok := old.(*Term)
			if !ok {
				continue
			}
			get := func(r *Run) *Term { return r.read(k, m.typ, idx...).(*Term) }
			nm := k + "(" + x + ")"
			out = append(out, termCand(nm+" = entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Eq(get(r), o) }))
			if isInt {
				out = append(out, termCand(nm+" >= entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Le(o, get(r)) }))
				out = append(out, termCand(nm+" <= entry", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Le(get(r), o) }))
			} else if isRefType(m.typ) {
				out = append(out, termCand(nm+" != nil", func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Not(r.refEq(get(r), c.Zero)) }))
			}
		}
	}
	out = append(out, r.iterCands(cs)...)
	if r.mentionsNz(r.t.beh) {
		out = append(out, r.nzCands(cs)...)
	}
	// readers and buffers: the remaining input never grows
	for _, k := range []string{"bytes.Reader.$rest"} {
		m := cs.lc.mods[k]
		if m == nil || m.all {
			continue
		}
		for x, idx := range m.refs {
			idx := idx
			o := c.SeqLen(r.withHeap(cs.heap, func() Val { return r.read(k, seqByteT, idx...) }).(*Seq))
			if os := r.withHeap(cs.heap, func() Val { return r.read(k, seqByteT, idx...) }).(*Seq); len(idx) == 1 && !r.restDefined(cs.fr, cs.li) {
				// what remains is a suffix of what remained on entry
				out = append(out, cand{name: "rest " + x + " suffix of entry",
					check: func(env map[*ssa.Phi]Val, r *Run) (bool, string) {
						cur := r.read(k, seqByteT, idx...).(*Seq)
						n := c.Sub(o, c.SeqLen(cur))
						if !r.valid(c.And(c.Le(c.Zero, n), c.Le(n, o))) {
							return false, "not shorter"
						}
						r.spec++
						defer func() { r.spec-- }()
						return r.seqEq(cur, r.drop(os, n))
					},
					set: func(env map[*ssa.Phi]Val, r *Run) {
						n := r.freshInt("consumed", bigZero, maxLen)
						r.assume(c.Le(n, o))
						hh := cs.hheap
						cs.hheap = nil
						r.spec++
						r.setRest(idx[0], r.drop(os, n))
						r.spec--
						cs.hheap = hh
					},
					assume: func(env map[*ssa.Phi]Val, r *Run) {}})
			}
			out = append(out, termCand("rest "+x+" <= entry", func(env map[*ssa.Phi]Val, r *Run) *Term {
				return c.Le(c.SeqLen(r.read(k, seqByteT, idx...).(*Seq)), o)
			}))
			for i, p := range phis {
				p := p
				if e, ok := cs.ent[p].(*Term); ok && e.sort == SInt && !isRefType(p.Type()) {
					out = append(out, termCand(fmt.Sprintf("rest %s - %d.%s = entry", x, i, p.Comment), func(env map[*ssa.Phi]Val, r *Run) *Term {
						return c.Eq(c.Add(c.SeqLen(r.read(k, seqByteT, idx...).(*Seq)), env[p].(*Term)), c.Add(o, e))
					}))
				}
			}
		}
	}
	// writers: what a buffer held at the start of the loop stays where it is
	if m := cs.lc.mods["bytes.Buffer.$buf"]; m != nil && !m.all && !r.bufDefined(cs.fr, cs.li) {
		k := "bytes.Buffer.$buf"
		for x, idx := range m.refs {
			idx := idx
			if len(idx) != 1 {
				continue
			}
			os := r.withHeap(cs.heap, func() Val { return r.read(k, seqByteT, idx...) }).(*Seq)
			out = append(out, cand{name: "buf " + x + " extends entry",
				check: func(env map[*ssa.Phi]Val, r *Run) (bool, string) {
					cur := r.read(k, seqByteT, idx...).(*Seq)
					r.spec++
					defer func() { r.spec-- }()
					_, ok := r.matchPrefix(r.norm(os), r.norm(cur))
					return ok, "not an extension"
				},
				set: func(env map[*ssa.Phi]Val, r *Run) {
					hh := cs.hheap
					cs.hheap = nil
					r.fresh["app"]++
					nm := fmt.Sprintf("app#%d", r.fresh["app"])
					for _, cs := range r.cuts {
						cs.newSyms[nm] = true
					}
					es, lo, hi := r.esort(byteT)
					r.write(k, seqByteT, c.Cat(os, c.whole(c.Atom(nm, nil, nil, AtomOpt{esort: es, lo: lo, hi: hi}))), idx...)
					cs.hheap = hh
				},
				assume: func(env map[*ssa.Phi]Val, r *Run) {}})
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return false })
	for i, ls := range r.loopSpecs(cs.fr, cs.li) {
		out = append(out, r.specCands(cs, phis, i, ls)...)
	}
	return out
}

// bufDefined: does a def clause say what a buffer holds?
func (r *Run) bufDefined(fr *frame, li *loopInfo) bool {
	for _, ls := range r.loopSpecs(fr, li) {
		if r.mentions(ls.defs, "buf") || r.mentions(ls.invs, "buf") {
			return true
		}
	}
	return false
}

// readersOf: the readers the function speaks of outside the loop (whichever object it is on this path).
func (r *Run) readersOf(cs *cutState) map[string]func(r *Run) *Seq {
	out := map[string]func(r *Run) *Seq{}
	seen := map[*Term]bool{}
	pre := ""
	for fr := cs.fr; fr != nil; fr = fr.parent {
		// the callers wait while the loop runs: whatever they know is from outside it
		var xs []ssa.Value
		for x := range fr.env {
			if in, ok := x.(ssa.Instruction); ok && fr == cs.fr && cs.li.blocks[in.Block()] {
				continue
			}
			xs = append(xs, x)
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i].Name() < xs[j].Name() })
		for _, x := range xs {
			pt, ok := x.Type().(*types.Pointer)
			if !ok || typeName(pt.Elem()) != "asn1.ASNReader" {
				continue
			}
			ref, ok := fr.env[x].(*Term)
			if !ok || fr != cs.fr && seen[ref] {
				continue
			}
			seen[ref] = true
			out[pre+x.Name()] = func(r *Run) *Seq {
				st := pt.Elem().Underlying().(*types.Struct)
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); f.Name() == "data" {
						d := r.read(fkey(pt.Elem(), "data"), f.Type(), ref).(*Term)
						return r.read("bytes.Reader.$rest", seqByteT, d).(*Seq)
					}
				}
				return nil
			}
		}
		pre += "^"
	}
	return out
}

// nzCands: what remains does not gain octets other than zero.
func (r *Run) nzCands(cs *cutState) []cand {
	var out []cand
	rd := r.readersOf(cs)
	var ks []string
	for k := range rd {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := rd[k]
		var os *Seq
		r.withHeap(cs.heap, func() Val { os = f(r); return nil })
		if os == nil {
			continue
		}
		o := r.nonZero(os)
		out = append(out, termCand("nz of "+k+" <= entry", func(env map[*ssa.Phi]Val, r *Run) *Term {
			return r.c.Le(r.nonZero(f(r)), o)
		}))
	}
	return out
}

// restDefined: a loop clause defines what remains in a reader.
func (r *Run) restDefined(fr *frame, li *loopInfo) bool {
	for _, ls := range r.loopSpecs(fr, li) {
		for _, d := range ls.defs {
			if strings.HasPrefix(d.text, "rest(") {
				return true
			}
		}
	}
	return false
}

// iterCands: 0 <= pos <= len of the maps being ranged over.
func (r *Run) iterCands(cs *cutState) []cand {
	c := r.c
	var out []cand
	for i, it := range r.iterators(cs.fr, cs.li) {
		it := it
		pos := func(r *Run) *Term { return r.read("iter:pos", seqLenT, it.id).(*Term) }
		o := r.withHeap(cs.heap, func() Val { return pos(r) }).(*Term)
		out = append(out, termCand(fmt.Sprintf("iter %d >= entry", i), func(env map[*ssa.Phi]Val, r *Run) *Term { return c.Le(o, pos(r)) }))
		out = append(out, termCand(fmt.Sprintf("iter %d <= len", i), func(env map[*ssa.Phi]Val, r *Run) *Term {
			return c.Le(pos(r), r.mapLen(it.mt, it.m))
		}))
	}
	return out
}

func (r *Run) withHeap(h map[string]*field, f func() Val) Val {
	save := r.heap
	r.heap = h
	defer func() { r.heap = save }()
	return f()
}

type bound struct {
	name string
	f    func(r *Run) *Term
}

// loopBounds: loop invariant integers p is compared with in the loop.
func (r *Run) loopBounds(cs *cutState, p *ssa.Phi) []bound {
	var out []bound
	seen := map[ssa.Value]bool{}
	add := func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if in, ok := v.(ssa.Instruction); ok && cs.li.blocks[in.Block()] {
			// len of an invariant slice
			if call, ok := v.(*ssa.Call); ok {
				if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					x := call.Call.Args[0]
					if xi, ok := x.(ssa.Instruction); ok && cs.li.blocks[xi.Block()] {
						return
					}
					if s, ok := r.valOK(cs.fr, x).(SliceV); ok {
						out = append(out, bound{"len " + x.Name(), func(r *Run) *Term { return s.len }})
					}
				}
			}
			// a conversion of an invariant
			if cv, ok := v.(*ssa.Convert); ok {
				if xi, ok := cv.X.(ssa.Instruction); !ok || !cs.li.blocks[xi.Block()] {
					if t, ok := r.valOK(cs.fr, cv.X).(*Term); ok && t.sort == SInt {
						out = append(out, bound{v.Name(), func(r *Run) *Term { return t }})
					}
				}
			}
			return
		}
		if t, ok := r.valOK(cs.fr, v).(*Term); ok && t.sort == SInt {
			out = append(out, bound{v.Name(), func(r *Run) *Term { return t }})
		}
	}
	for b := range cs.li.blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
				x, y := bo.X, bo.Y
				if derives(x, p) {
					add(y)
				}
				if derives(y, p) {
					add(x)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func derives(v ssa.Value, p *ssa.Phi) bool {
	if v == ssa.Value(p) {
		return true
	}
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		return derives(b.X, p) || derives(b.Y, p)
	}
	if c, ok := v.(*ssa.Convert); ok {
		return derives(c.X, p)
	}
	return false
}

func (r *Run) valOK(fr *frame, v ssa.Value) (res Val) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global:
		return r.val(v)
	}
	return fr.env[v]
}

// ---- ranking functions

type rankFn func(env map[*ssa.Phi]Val, r *Run) *Term

func (r *Run) rankings(cs *cutState, phis []*ssa.Phi) map[string]rankFn {
	out := map[string]rankFn{}
	c := r.c
	for i, p := range phis {
		p := p
		e, ok := cs.ent[p].(*Term)
		if !ok || e.sort != SInt || isRefType(p.Type()) {
			continue
		}
		pn := fmt.Sprintf("%d.%s", i, p.Comment)
		out[pn] = func(env map[*ssa.Phi]Val, r *Run) *Term { return env[p].(*Term) }
		for _, b := range r.loopBounds(cs, p) {
			b := b
			out[b.name+" - "+pn] = func(env map[*ssa.Phi]Val, r *Run) *Term {
				x := b.f(r)
				if x == nil {
					return nil
				}
				return c.Sub(x, env[p].(*Term))
			}
		}
	}
	if m := cs.lc.mods["bytes.Reader.$rest"]; m != nil && !m.all {
		for x, idx := range m.refs {
			idx := idx
			out["rest "+x] = func(env map[*ssa.Phi]Val, r *Run) *Term {
				return c.SeqLen(r.read("bytes.Reader.$rest", seqByteT, idx...).(*Seq))
			}
		}
	}
	for x, f := range r.readersOf(cs) {
		f := f
		out["rest of "+x] = func(env map[*ssa.Phi]Val, r *Run) *Term {
			if s := f(r); s != nil {
				return c.SeqLen(s)
			}
			return nil
		}
	}
	for i, it := range r.iterators(cs.fr, cs.li) {
		it := it
		out[fmt.Sprintf("iter %d", i)] = func(env map[*ssa.Phi]Val, r *Run) *Term {
			return c.Sub(r.mapLen(it.mt, it.m), r.read("iter:pos", seqLenT, it.id).(*Term))
		}
	}
	for i, ls := range r.loopSpecs(cs.fr, cs.li) {
		for j, e := range ls.ranks {
			for b, f := range r.specRank(cs, phis, ls, e) {
				out[fmt.Sprintf("rank %d.%d.%d", i, j, b)] = f
			}
		}
	}
	return out
}

func (r *Run) endIfInfeasible() bool {
	if r.infeasible() {
		panic(pathEnd{"infeasible"})
	}
	return false
}
