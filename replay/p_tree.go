package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

func init() {
	props["C12"] = c12
	props["C13"] = c13
	props["C14"] = c14
	props["C15"] = c15
	props["C16"] = c16
	props["C17"] = c17
	props["C24"] = c24
}

func kindName(k int) string { return []string{"node", "parameter", "function", "matrix", "command"}[k] }

func (e *elem) String() string {
	s := kindName(e.kind)
	if e.qual {
		s += fmt.Sprint(" path ", e.path)
	} else {
		s += fmt.Sprint(" ", e.num)
	}
	if e.con != nil {
		s += " (" + e.con.descr + ")"
	}
	if e.kind == kMatrix {
		s += fmt.Sprint(" targets ", e.targets, " sources ", e.sources, " connections ", e.conns)
	}
	if len(e.kids) > 0 {
		s += " {"
		for _, c := range e.kids {
			s += c.String() + "; "
		}
		s += "}"
	}
	return s
}

func rPath(r *rand.Rand, min int) []int32 {
	n := min + r.Intn(4)
	p := make([]int32, n)
	for i := range p {
		p[i] = rArc(r)
	}
	return p
}

func qualify(r *rand.Rand, e *elem) {
	if e.kind != kCmd {
		e.qual = true
		e.path = rPath(r, 1)
		e.num = int(e.path[len(e.path)-1])
	}
}

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "..."
	}
	return s
}

func c12(h *H) {
	h.rule = "random elements and trees encoded; distinct = distinct elements"
	cmp := func(what string, e fmt.Stringer, got []byte, err error, want []byte, suf []byte) {
		if err != nil {
			h.failf("%s: %s fails: %v", what, clip(e.String()), err)
			return
		}
		g, e1 := canon(got)
		w, e2 := canon(want)
		if e2 != nil {
			panic(e2)
		}
		if e1 != nil || g != w {
			h.failf("%s: %s writes %s (%v) i.e. %s, want %s", what, clip(e.String()), hx(got), e1, clip(g), clip(w))
		}
	}
	for n := h.n(2500); n > 0 && !h.stop(); n-- {
		e := rElem(h.rng, h.rng.Intn(4), rNum(h.rng), 1)
		if h.rng.Intn(8) == 0 {
			e.num = int(rInt32(h.rng))
		}
		if h.rng.Intn(3) == 0 {
			qualify(h.rng, e)
		}
		h.run(func() string { return clip(e.String()) }, func() {
			x := e.build()
			suf := rBytes(h.rng, 3)
			for rep := 0; rep < 2; rep++ {
				got, err := written(suf, func(w *asn1.ASNWriter) errors.Error { return x.Encode(w) })
				cmp("Element.Encode", e, got, err, e.ber(false), suf)
				if d := e.diff(x); d != "" {
					h.failf("Element.Encode: changes the element: %s: %s", clip(e.String()), d)
				}
			}
			// a tree with several roots
			root := embertree.NewTree()
			var bs [][]byte
			used := map[int]bool{}
			s := &elem{}
			for k := h.rng.Intn(4); k >= 0; k-- {
				r := rElem(h.rng, 1, rNum(h.rng), 1)
				if used[r.num] {
					continue
				}
				used[r.num] = true
				root.AddElement(r.build())
				bs = append(bs, r.ber(false))
				s.kids = append(s.kids, r)
			}
			if h.rng.Intn(2) == 0 && !used[e.num] {
				root.AddElement(x)
				bs = append(bs, e.ber(false))
				s.kids = append(s.kids, e)
			}
			got, err := written(suf, func(w *asn1.ASNWriter) errors.Error { return root.Encode(w) })
			cmp("RootElement.Encode", s, got, err, rootBER(false, bs...), suf)
		})
	}
	h.run(func() string { return "empty tree" }, func() {
		got, err := written(nil, func(w *asn1.ASNWriter) errors.Error { return embertree.NewTree().Encode(w) })
		if n, e := canon(got); err != nil || e != nil || n != "60{}" {
			h.failf("RootElement.Encode: the empty tree writes %x (%v)", got, err)
		}
	})
}

func c13(h *H) {
	h.rule = "random contents of every kind, all combinations of set fields; distinct = distinct contents"
	for n := h.n(30000); n > 0 && !h.stop(); n-- {
		kind := n % 5
		c := rContents(h.rng, kind)
		h.run(func() string { return kindName(kind) + " " + clip(c.descr) }, func() {
			suf := rBytes(h.rng, 4)
			got, err := written(suf, func(w *asn1.ASNWriter) errors.Error { return c.c.Encode(w) })
			if err != nil {
				h.failf("Encode: %s contents %s: %v", kindName(kind), clip(c.descr), err)
				return
			}
			g, e1 := norm(got)
			w, _ := norm(c.enc(false))
			if e1 != nil || g != w {
				h.failf("Encode: %s contents %s write %s (%v), want %s", kindName(kind), clip(c.descr), clip(g), e1, clip(w))
			}
			if d := c.diff(c.c); d != "" {
				h.failf("Encode: changes %s contents: %s", kindName(kind), d)
			}
			mk := func() embertree.EmberContents {
				switch kind {
				case kNode:
					return embertree.NewNodeContents()
				case kParam:
					return embertree.NewParameterContents()
				case kFunc:
					return embertree.NewFunctionContents()
				case kMatrix:
					return embertree.NewDefaultMatrixContents()
				}
				return embertree.NewCommandContents()
			}
			for form, in := range [][]byte{got, c.enc(true), c.enc(false)} {
				a := asn1.NewASNReader(cat(in, suf))
				d := mk()
				if e := d.Decode(a); e != nil {
					h.failf("Decode: %s contents %s (form %d) from %s: %v", kindName(kind), clip(c.descr), form, hx(in), e.Message)
				} else if x := c.diff(d); x != "" {
					h.failf("Decode: %s contents %s (form %d) from %s: %s", kindName(kind), clip(c.descr), form, hx(in), x)
				} else if a.Len() != len(suf) {
					h.failf("Decode: %s contents %s (form %d) from %s leaves %d octets, want %d", kindName(kind), clip(c.descr), form, hx(in), a.Len(), len(suf))
				}
			}
			// inside an element
			e := &elem{kind: kind, num: 3, con: c}
			x, er := embertree.DecodeElement(asn1.NewASNReader(e.ber(n%2 == 0)))
			if er != nil {
				h.failf("DecodeElement: %s contents %s: %v", kindName(kind), clip(c.descr), er.Message)
			} else if d := c.diff(x.GetContent()); d != "" {
				h.failf("DecodeElement: %s contents %s: %s", kindName(kind), clip(c.descr), d)
			}
		})
	}
	// fields that only the wire can set (no setter): they pass through decode and encode
	pass := func(name string, fields map[int][]byte, order []int, mk func() embertree.EmberContents) {
		var b [][]byte
		for _, k := range order {
			b = append(b, indef(ctx(k), fields[k]))
		}
		in := indef(0x31, b...)
		h.run(func() string { return name + " " + hx(in) }, func() {
			c := mk()
			if e := c.Decode(asn1.NewASNReader(in)); e != nil {
				h.failf("Decode: %s %s: %v", name, hx(in), e.Message)
				return
			}
			got, err := written(nil, func(w *asn1.ASNWriter) errors.Error { return c.Encode(w) })
			g, e1 := norm(got)
			w, _ := norm(in)
			if err != nil || e1 != nil || g != w {
				h.failf("Decode/Encode: %s %s becomes %s", name, hx(in), hx(got))
			}
		})
	}
	for n := 0; n < 3000 && !h.stop(); n++ {
		f := map[int][]byte{}
		var order []int
		for k := 0; k < 18; k++ {
			if h.rng.Intn(3) == 0 {
				f[k] = rValue(h.rng).ber()
				order = append(order, k)
			}
		}
		if h.rng.Intn(2) == 0 {
			f[18] = tOID(append(rOID(h.rng), 1))
			order = append(order, 18)
		}
		pass("parameter", f, order, embertree.NewParameterContents)
		f = map[int][]byte{2: tInt(1), 3: tInt(1)}
		order = []int{2, 3}
		for k := 4; k < 10; k++ {
			if h.rng.Intn(2) == 0 {
				f[k] = rValue(h.rng).ber()
				order = append(order, k)
			}
		}
		var ls []byte
		for k := h.rng.Intn(3); k > 0; k-- {
			ls = append(ls, indef(ctx(0), labelBER(false, rOID(h.rng), rStr(h.rng)))...)
		}
		f[10] = indef(0x30, ls)
		order = append(order, 10)
		if h.rng.Intn(2) == 0 {
			f[11] = rValue(h.rng).ber()
			order = append(order, 11)
		}
		if h.rng.Intn(2) == 0 {
			f[12] = tOID(append(rOID(h.rng), 1))
			order = append(order, 12)
		}
		pass("matrix", f, order, embertree.NewDefaultMatrixContents)
	}
}

func labelBER(def bool, p []int32, d string) []byte {
	return box(def, app(18), box(def, ctx(0), tOID(p)), box(def, ctx(1), tStr(d)))
}

func c14(h *H) {
	h.rule = "lists of signals, connections, labels and arguments through encode and decode; distinct = distinct lists"
	matrix := func() *embertree.Element {
		m, _ := embertree.NewMatrix(1, embertree.OneToN, embertree.Linear)
		return m
	}
	ln := func() int {
		switch h.rng.Intn(12) {
		case 0:
			return 0
		case 1:
			return 20 + h.rng.Intn(300)
		}
		return h.rng.Intn(6)
	}
	for n := h.n(2500); n > 0 && !h.stop(); n-- {
		suf := rBytes(h.rng, 4)
		check := func(name, what string, want func(def bool) []byte, enc func(w *asn1.ASNWriter) errors.Error, dec func(a *asn1.ASNReader) (string, errors.Error)) {
			h.run(func() string { return name + " " + clip(what) }, func() {
				got, err := written(suf, enc)
				if err != nil {
					h.failf("%s: encoding %s: %v", name, clip(what), err)
					return
				}
				g, e1 := norm(got)
				w, _ := norm(want(false))
				if e1 != nil || g != w {
					h.failf("%s: %s is encoded as %s (%v), want %s", name, clip(what), clip(g), e1, clip(w))
				}
				for form, in := range [][]byte{got, want(false), want(true)} {
					a := asn1.NewASNReader(cat(in, suf))
					d, e := dec(a)
					if e != nil {
						h.failf("%s: decoding %s (form %d) from %s: %v", name, clip(what), form, hx(in), e.Message)
					} else if d != "" {
						h.failf("%s: decoding %s (form %d) from %s: %s", name, clip(what), form, hx(in), clip(d))
					} else if a.Len() != len(suf) {
						h.failf("%s: decoding %s (form %d) from %s leaves %d octets, want %d", name, clip(what), form, hx(in), a.Len(), len(suf))
					}
				}
			})
		}
		k := ln()
		ns := make([]int32, k)
		for i := range ns {
			ns[i] = rInt32(h.rng)
		}
		m := matrix()
		var ts, ss []embertree.Signal
		for _, x := range ns {
			ts = append(ts, embertree.NewTarget(x))
			ss = append(ss, embertree.NewSource(x))
		}
		m.SetTargets(ts)
		m.SetSources(ss)
		check("targets", fmt.Sprint(ns), func(def bool) []byte { return sigBER(def, 3, 14, ns) }, m.EncodeTargets, func(a *asn1.ASNReader) (string, errors.Error) {
			d := matrix()
			d.SetTargets([]embertree.Signal{embertree.NewTarget(99)})
			e := d.DecodeTargets(a)
			g, _ := d.GetTargets()
			return sigDiff(g, ns, true), e
		})
		check("sources", fmt.Sprint(ns), func(def bool) []byte { return sigBER(def, 4, 15, ns) }, m.EncodeSources, func(a *asn1.ASNReader) (string, errors.Error) {
			d := matrix()
			e := d.DecodeSources(a)
			g, _ := d.GetSources()
			return sigDiff(g, ns, false), e
		})
		k = ln()
		cs := make([]conn, k)
		var rc []*embertree.Connection
		for i := range cs {
			cs[i] = rConn(h.rng)
			rc = append(rc, cs[i].build())
		}
		m.SetConnections(rc)
		check("connections", fmt.Sprint(cs), func(def bool) []byte {
			var b [][]byte
			for _, c := range cs {
				b = append(b, box(def, ctx(0), c.ber(def)))
			}
			return box(def, ctx(5), box(def, 0x30, b...))
		}, m.EncodeConnections, func(a *asn1.ASNReader) (string, errors.Error) {
			d := matrix()
			e := d.DecodeConnections(a)
			if e != nil {
				return "", e
			}
			g, _ := d.GetConnections()
			if len(g) != len(cs) {
				return fmt.Sprintf("%d connections, want %d", len(g), len(cs)), nil
			}
			for i := range cs {
				if !cs[i].same(g[i]) {
					return fmt.Sprintf("connection %d is %+v, want %+v", i, *g[i], cs[i]), nil
				}
			}
			return "", nil
		})
		// labels: only the wire can set them on a matrix
		k = ln()
		type lab struct {
			p []int32
			d string
		}
		ls := make([]lab, k)
		what := ""
		for i := range ls {
			ls[i] = lab{rOID(h.rng), rStr(h.rng)}
			what += fmt.Sprintf("%v %q;", ls[i].p, ls[i].d)
		}
		lb := func(def bool) []byte {
			var b [][]byte
			for _, l := range ls {
				b = append(b, box(def, ctx(0), labelBER(def, l.p, l.d)))
			}
			return box(def, ctx(10), box(def, 0x30, b...))
		}
		lm := embertree.NewDefaultMatrixContents().(*embertree.MatrixContent)
		if e := lm.DecodeLabels(asn1.NewASNReader(lb(false))); e != nil {
			h.failf("labels: decoding %s: %v", clip(what), e.Message)
		} else {
			check("labels", what, lb, lm.EncodeLabels, func(a *asn1.ASNReader) (string, errors.Error) {
				d := embertree.NewDefaultMatrixContents().(*embertree.MatrixContent)
				if e := d.DecodeLabels(a); e != nil {
					return "", e
				}
				b, _ := written(nil, d.EncodeLabels)
				g, _ := norm(b)
				w, _ := norm(lb(false))
				if g != w {
					return "re-encodes as " + g, nil
				}
				return "", nil
			})
		}
		if k > 0 {
			l := embertree.NewLabel(ls[0].p, ls[0].d)
			check("label", fmt.Sprint(ls[0]), func(def bool) []byte { return labelBER(def, ls[0].p, ls[0].d) }, l.Encode, func(a *asn1.ASNReader) (string, errors.Error) {
				d, e := embertree.DecodeLabel(a)
				if e == nil && (!eqOID(d.BasePath, ls[0].p) || d.Description != ls[0].d) {
					return fmt.Sprint(*d), nil
				}
				return "", e
			})
		}
		// invocation: no getters, compared by its encoding
		id := int(rInt32(h.rng))
		k = ln()
		var as []*embertree.ContentParameter
		var ab []value
		for i := 0; i < k; i++ {
			v := rValue(h.rng)
			cp := embertree.NewContentParameter()
			v.put(cp)
			as = append(as, cp)
			ab = append(ab, v)
		}
		inv := func(def bool) []byte {
			b := box(def, ctx(0), tInt(int64(id)))
			if len(ab) > 0 {
				var x [][]byte
				for _, v := range ab {
					x = append(x, box(def, ctx(0), v.ber()))
				}
				b = append(b, box(def, ctx(1), box(def, 0x30, x...))...)
			}
			return box(def, app(22), b)
		}
		iv := embertree.NewInvocation(id, as)
		check("invocation", fmt.Sprint(id, ab), inv, iv.Encode, func(a *asn1.ASNReader) (string, errors.Error) {
			d := embertree.NewInvocation(0, nil)
			if e := d.Decode(a); e != nil {
				return "", e
			}
			b, _ := written(nil, d.Encode)
			g, _ := norm(b)
			w, _ := norm(inv(false))
			if g != w {
				return "re-encodes as " + g, nil
			}
			return "", nil
		})
	}
	// operations and dispositions
	for i := -70000; i <= 70000 && !h.stop(); i++ {
		v := i
		if i > 60000 {
			v = int(rInt64(h.rng))
		}
		h.run(func() string { return fmt.Sprint("operation/disposition ", v) }, func() {
			for o := 0; o < 3; o++ {
				c := &embertree.Connection{}
				c.SetOperation(o)
				c.SetDisposition(o)
				e := c.SetOperation(v)
				ok := v >= 0 && v <= 2
				want := o
				if ok {
					want = v
				}
				if (e == nil) != ok || int(c.GetOperation()) != want || int(c.GetDisposition()) != o {
					h.failf("SetOperation: %d on %d gives %d err=%v", v, o, c.GetOperation(), e != nil)
				}
				c = &embertree.Connection{}
				c.SetOperation(o)
				c.SetDisposition(o)
				e = c.SetDisposition(v)
				ok = v >= 0 && v <= 3
				want = o
				if ok {
					want = v
				}
				if (e == nil) != ok || int(c.GetDisposition()) != want || int(c.GetOperation()) != o {
					h.failf("SetDisposition: %d on %d gives %d err=%v", v, o, c.GetDisposition(), e != nil)
				}
			}
			if v >= -200 && v < 200 || v > 60000 && int64(int32(v)) == int64(v) {
				for k := 2; k <= 3; k++ {
					b := indef(app(16), indef(ctx(0), tInt(5)), indef(ctx(k), tInt(int64(v))))
					c := &embertree.Connection{}
					e := c.Decode(asn1.NewASNReader(b))
					if ok := v >= 0 && v <= k; (e == nil) != ok {
						h.failf("Connection.Decode: context %d value %d err=%v", k, v, e != nil)
					}
				}
			}
		})
	}
}

// ---- updates

// snap describes a real tree including object identities
func snap(x *embertree.Element) string {
	s := fmt.Sprintf("%p/%d/%02x/%p(", x, x.Number, x.GetTag(), x.GetContent())
	p, _ := x.GetParent()
	s += fmt.Sprintf("%p", p)
	var ks []string
	for _, n := range keys(x) {
		ks = append(ks, snap(x.Children[n]))
	}
	return s + fmt.Sprint(ks) + ")"
}

func keys(x *embertree.Element) []int {
	var ks []int
	for n := range x.Children {
		ks = append(ks, n)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// qk maps the tag of a kind and that of its qualified form to one value
func qk(t byte) byte {
	for k, x := range tagOf {
		if x == t || (qtagOf[k] == t && t != 0) {
			return x
		}
	}
	return t
}

func c15(h *H) {
	h.rule = "sequences of updates of random trees; distinct = distinct (tree, updates)"
	// merge checks x after an update with y against what it was before
	type before struct {
		x    *embertree.Element
		con  embertree.EmberContents
		kids map[int]*before
	}
	var rec func(x *embertree.Element) *before
	rec = func(x *embertree.Element) *before {
		b := &before{x, x.GetContent(), map[int]*before{}}
		for n, c := range x.Children {
			b.kids[n] = rec(c)
		}
		return b
	}
	var same func(b *before, y *embertree.Element) bool // would the update with y be accepted everywhere
	same = func(b *before, y *embertree.Element) bool {
		if b.x.Number != y.Number || qk(b.x.GetTag()) != qk(y.GetTag()) {
			return false
		}
		for n, c := range y.Children {
			if k := b.kids[n]; k != nil && !same(k, c) {
				return false
			}
		}
		return true
	}
	var keep func(b *before, strict bool) string
	keep = func(b *before, strict bool) string {
		if strict && (b.x.GetContent() != b.con || len(b.x.Children) != len(b.kids)) {
			return fmt.Sprintf("element %v changed", b.x.GetPath())
		}
		for n, k := range b.kids {
			if b.x.Children[n] != k.x {
				return fmt.Sprintf("child %d of %v was lost or replaced", n, b.x.GetPath())
			}
			if p, _ := k.x.GetParent(); p != b.x {
				return fmt.Sprintf("child %d of %v lost its parent", n, b.x.GetPath())
			}
			if d := keep(k, strict); d != "" {
				return d
			}
		}
		return ""
	}
	var merged func(b *before, y *embertree.Element, ycon map[*embertree.Element]embertree.EmberContents) string
	merged = func(b *before, y *embertree.Element, ycon map[*embertree.Element]embertree.EmberContents) string {
		want := b.con
		if ycon[y] != nil {
			want = ycon[y]
		}
		if b.x.GetContent() != want {
			return fmt.Sprintf("contents of %v are not the expected ones (received has contents: %v)", b.x.GetPath(), ycon[y] != nil)
		}
		n := len(b.kids)
		for i, c := range y.Children {
			if k := b.kids[i]; k != nil {
				if b.x.Children[i] != k.x {
					return fmt.Sprintf("child %d of %v was replaced", i, b.x.GetPath())
				}
				if d := merged(k, c, ycon); d != "" {
					return d
				}
			} else {
				n++
				a := b.x.Children[i]
				if a == nil {
					return fmt.Sprintf("received child %d of %v was not added", i, b.x.GetPath())
				}
				if p, _ := a.GetParent(); p != b.x {
					return fmt.Sprintf("added child %d of %v has another parent", i, b.x.GetPath())
				}
				if a.Number != c.Number || a.GetTag() != c.GetTag() || a.GetContent() != ycon[c] {
					return fmt.Sprintf("added child %d of %v differs from the received one", i, b.x.GetPath())
				}
			}
		}
		if len(b.x.Children) != n {
			return fmt.Sprintf("%v has %d children, want %d", b.x.GetPath(), len(b.x.Children), n)
		}
		for i, k := range b.kids {
			if b.x.Children[i] != k.x {
				return fmt.Sprintf("child %d of %v was lost or replaced", i, b.x.GetPath())
			}
			if y.Children[i] == nil {
				if d := keep(k, true); d != "" {
					return d
				}
			}
		}
		return ""
	}
	small := func(depth int) *elem {
		e := rElem(h.rng, depth, h.rng.Intn(3), 1)
		for _, x := range e.all() {
			if h.rng.Intn(10) > 0 {
				if x.kind != kMatrix {
					x.kind = kNode
					if x.con != nil {
						x.con = rContents(h.rng, kNode)
					}
				}
			}
		}
		return e
	}
	for n := h.n(2500); n > 0 && !h.stop(); n-- {
		e := small(3)
		hist := ""
		h.run(func() string { return e.String() + hist }, func() {
			if h.rng.Intn(4) == 0 {
				qualify(h.rng, e)
			}
			x := e.build()
			for k := 1 + h.rng.Intn(4); k > 0; k-- {
				u := small(3)
				if h.rng.Intn(4) > 0 {
					u.num = e.num
					if e.kind != u.kind && h.rng.Intn(4) > 0 {
						u.kind = e.kind
						u.con = nil
						if e.kind == kMatrix || h.rng.Intn(2) == 0 {
							u.con = rContents(h.rng, e.kind)
						}
						u.targets, u.sources, u.conns = nil, nil, nil
					}
				}
				if h.rng.Intn(3) == 0 && u.kind != kCmd {
					u.qual = true
					u.path = append(rPath(h.rng, 0), int32(u.num))
				}
				hist += " update " + u.String()
				y := u.build()
				ycon := map[*embertree.Element]embertree.EmberContents{}
				for _, c := range u.all() {
					ycon[c.real] = c.real.GetContent()
				}
				b := rec(x)
				top := b.x.Number == y.Number && qk(x.GetTag()) == qk(y.GetTag())
				ok := same(b, y)
				err := x.Update(y)
				if (err == nil) != ok {
					h.failf("Update: %s%s: err=%v, want accepted=%v", clip(e.String()), clip(hist), err != nil, ok)
					return
				}
				d := ""
				switch {
				case !top:
					d = keep(b, true)
				case !ok:
					d = keep(b, false)
				default:
					d = merged(b, y, ycon)
				}
				if d != "" {
					h.failf("Update: %s%s: %s", clip(e.String()), clip(hist), d)
					return
				}
				if err != nil {
					return
				}
			}
		})
	}
	// through the tree decoder
	for n := h.n(4000); n > 0 && !h.stop(); n-- {
		e := small(3)
		u := small(3)
		u.num, u.kind = e.num, e.kind
		u.con = nil
		if e.kind == kMatrix || h.rng.Intn(2) == 0 {
			u.con = rContents(h.rng, e.kind)
		}
		u.targets, u.sources, u.conns = nil, nil, nil
		h.run(func() string { return "tree " + e.String() + " receives " + u.String() }, func() {
			root := embertree.NewTree()
			x := e.build()
			root.AddElement(x)
			o := embertree.NewNode(1000)
			root.AddElement(o)
			b := rec(x)
			root.Decode(asn1.NewASNReader(rootBER(n%2 == 0, u.ber(n%3 == 0))))
			if root.RootElementCollection[e.num] != x || root.RootElementCollection[1000] != o || len(root.RootElementCollection) != 2 {
				h.failf("Decode: tree %s receives %s: the root elements changed", clip(e.String()), clip(u.String()))
				return
			}
			if d := keep(b, false); d != "" {
				h.failf("Decode: tree %s receives %s: %s", clip(e.String()), clip(u.String()), d)
				return
			}
			if !same(b, u.build()) {
				return
			}
			if (u.con == nil) != (x.GetContent() == b.con) {
				h.failf("Decode: tree %s receives %s: contents kept=%v", clip(e.String()), clip(u.String()), x.GetContent() == b.con)
				return
			}
			if u.con != nil {
				if d := u.con.diff(x.GetContent()); d != "" {
					h.failf("Decode: tree %s receives %s: %s", clip(e.String()), clip(u.String()), d)
				}
			}
			for _, c := range u.kids {
				k := x.Children[c.num]
				if k == nil {
					h.failf("Decode: tree %s receives %s: child %d is missing", clip(e.String()), clip(u.String()), c.num)
				} else if p, _ := k.GetParent(); p != x {
					h.failf("Decode: tree %s receives %s: child %d has another parent", clip(e.String()), clip(u.String()), c.num)
				}
			}
		})
	}
}

func c16(h *H) {
	h.rule = "random trees with path queries in random order, lookups and received qualified elements; distinct = distinct trees"
	for n := h.n(6000); n > 0 && !h.stop(); n-- {
		var roots []*elem
		used := map[int]bool{}
		desc := ""
		for k := 1 + h.rng.Intn(3); k > 0; k-- {
			e := rElem(h.rng, 4, rNum(h.rng), 0)
			if used[e.num] {
				continue
			}
			used[e.num] = true
			roots = append(roots, e)
			for _, x := range e.all() {
				x.con = nil
				if x.kind == kMatrix || x.kind == kCmd {
					x.kind = kNode
					x.targets, x.sources, x.conns = nil, nil, nil
				}
			}
			desc += e.String() + " | "
		}
		h.run(func() string { return clip(desc) }, func() {
			root := embertree.NewTree()
			var all []*elem
			for _, e := range roots {
				root.AddElement(e.build())
				all = append(all, e.all()...)
			}
			// queries in random order, results kept
			type res struct {
				e *elem
				p asn1.RelativeOID
			}
			var held []res
			for k := 0; k < 3*len(all); k++ {
				e := all[h.rng.Intn(len(all))]
				p := e.real.GetPath()
				held = append(held, res{e, p})
				if h.rng.Intn(3) == 0 {
					held = held[1:]
				}
				for _, r := range held {
					if !eqOID(r.p, r.e.fullPath()) {
						h.failf("GetPath: tree %s: path of %v reads %v after querying %v", clip(desc), r.e.fullPath(), r.p, e.fullPath())
						return
					}
				}
			}
			// lookups
			look := func(p []int32) {
				var par, cur *elem
				for i, x := range p {
					ks := roots
					if i > 0 {
						par = cur
						if cur == nil {
							break
						}
						ks = cur.kids
					}
					cur = nil
					for _, k := range ks {
						if k.num == int(x) {
							cur = k
						}
					}
					if cur == nil && i < len(p)-1 {
						par = nil
						break
					}
				}
				gp, ge := root.GetElementByPath(append(asn1.RelativeOID{}, p...))
				if cur != nil && len(p) > 0 {
					if ge != cur.real || (par == nil) != (gp == nil) || (par != nil && gp != par.real) {
						h.failf("GetElementByPath: tree %s: %v does not return the element there and its parent", clip(desc), p)
					}
				} else {
					if ge != nil {
						h.failf("GetElementByPath: tree %s: %v returns element %v", clip(desc), p, ge.GetPath())
					}
					if gp != nil && (par == nil || gp != par.real) {
						h.failf("GetElementByPath: tree %s: %v returns parent %v", clip(desc), p, gp.GetPath())
					}
				}
			}
			for _, e := range all {
				p := e.fullPath()
				look(p)
				look(append(append([]int32{}, p...), rArc(h.rng)))
				look(append(append([]int32{}, p...), int32(h.rng.Intn(3)), 2))
				q := append([]int32{}, p...)
				q[h.rng.Intn(len(q))] = rArc(h.rng)
				look(q)
				if len(p) > 1 {
					look(p[1:])
				}
			}
			look(nil)
			// a received qualified element
			e := all[h.rng.Intn(len(all))]
			p := append([]int32{}, e.fullPath()...)
			switch h.rng.Intn(5) {
			case 0, 1:
				p = append(p, int32(100000+h.rng.Intn(5)))
			case 2:
				p = append(p, int32(200000+h.rng.Intn(5)), int32(h.rng.Intn(4)))
			case 3:
				p[h.rng.Intn(len(p))] = int32(300000 + h.rng.Intn(9))
			}
			if len(p) < 2 {
				p = append(p, 400000)
			}
			q := &elem{kind: kNode, qual: true, path: p, num: int(p[len(p)-1])}
			if h.rng.Intn(2) == 0 {
				q.con = rContents(h.rng, kNode)
			}
			_, target := root.GetElementByPath(append(asn1.RelativeOID{}, p...))
			_, par := root.GetElementByPath(append(asn1.RelativeOID{}, p[:len(p)-1]...))
			counts := map[*embertree.Element]int{}
			for _, e := range all {
				counts[e.real] = len(e.real.Children)
			}
			er := root.Decode(asn1.NewASNReader(rootBER(n%2 == 0, q.ber(false))))
			if er != nil {
				h.failf("Decode: tree %s receives %v: %v", clip(desc), p, er.Message)
				return
			}
			added := 0
			for _, e := range all {
				if d := len(e.real.Children) - counts[e.real]; d != 0 {
					added += d
					if e.real != par {
						h.failf("Decode: tree %s receives %v: it was attached below %v", clip(desc), p, e.fullPath())
						return
					}
				}
			}
			if len(root.RootElementCollection) != len(roots) {
				h.failf("Decode: tree %s receives %v: it became a root element", clip(desc), p)
				return
			}
			if target == nil && par != nil {
				k := par.Children[q.num]
				if added != 1 || k == nil {
					h.failf("Decode: tree %s receives %v: it was not attached below its parent", clip(desc), p)
					return
				}
				if pp, _ := k.GetParent(); pp != par || !eqOID(k.GetPath(), p) {
					h.failf("Decode: tree %s receives %v: the attached element has path %v", clip(desc), p, k.GetPath())
				}
			} else if added != 0 {
				h.failf("Decode: tree %s receives %v: %d elements were added", clip(desc), p, added)
			}
			for _, r := range held {
				if !eqOID(r.p, r.e.fullPath()) || !eqOID(r.e.real.GetPath(), r.e.fullPath()) {
					h.failf("GetPath: tree %s: path of %v changed to %v after receiving %v", clip(desc), r.e.fullPath(), r.p, p)
					return
				}
			}
		})
	}
	// paths follow re-attachment
	for n := 0; n < 500 && !h.stop(); n++ {
		h.run(func() string { return fmt.Sprint("late attachment ", n) }, func() {
			c := embertree.NewNode(n)
			if h.rng.Intn(2) == 0 {
				c.GetPath()
			}
			b := embertree.NewNode(7)
			b.AddChild(c)
			p1 := c.GetPath()
			a := embertree.NewNode(3)
			a.AddChild(b)
			if !eqOID(c.GetPath(), []int32{3, 7, int32(n)}) || !eqOID(p1, []int32{7, int32(n)}) {
				h.failf("GetPath: late attachment of 7.%d below 3 gives %v (before: %v)", n, c.GetPath(), p1)
			}
			d := embertree.NewNode(n + 1)
			b.AddChild(d)
			x, y := c.GetPath(), d.GetPath()
			if !eqOID(x, []int32{3, 7, int32(n)}) || !eqOID(y, []int32{3, 7, int32(n + 1)}) {
				h.failf("GetPath: siblings %v %v", x, y)
			}
			q := embertree.NewQualifiedNode(asn1.RelativeOID{9, 8, int32(n)})
			q.GetPath()
			k := embertree.NewNode(5)
			q.AddChild(k)
			if !eqOID(k.GetPath(), []int32{9, 8, int32(n), 5}) || !eqOID(q.GetPath(), []int32{9, 8, int32(n)}) {
				h.failf("GetPath: below a qualified element: %v", k.GetPath())
			}
			b.AddChild(q)
			if !eqOID(q.GetPath(), []int32{9, 8, int32(n)}) {
				h.failf("GetPath: a qualified element below another: %v", q.GetPath())
			}
		})
	}
}

func c17(h *H) {
	h.rule = "directory requests for elements of random trees; distinct = distinct (tree, element, form)"
	checkReq := func(what string, req *embertree.RootElement, path []int32, kind int) bool {
		if req == nil {
			h.failf("request: %s: nil", what)
			return false
		}
		b, err := written(nil, func(w *asn1.ASNWriter) errors.Error { return req.Encode(w) })
		if err != nil {
			h.failf("request: %s: encoding fails: %v", what, err)
			return false
		}
		ns, e := parseAll(b)
		if e != nil || len(ns) != 1 || ns[0].tag != app(0) || len(ns[0].kids) != 1 || ns[0].kids[0].tag != app(11) || len(ns[0].kids[0].kids) != 1 || ns[0].kids[0].kids[0].tag != ctx(0) || len(ns[0].kids[0].kids[0].kids) != 1 {
			h.failf("request: %s: %s is not a tree with a single root element", what, hx(b))
			return false
		}
		x, er := embertree.DecodeElement(asn1.NewASNReader(ns[0].kids[0].kids[0].kids[0].raw))
		if er != nil {
			h.failf("request: %s: the decoder rejects %s: %v", what, hx(b), er.Message)
			return false
		}
		if e := embertree.NewTree().Decode(asn1.NewASNReader(b)); e != nil {
			h.failf("request: %s: the tree decoder rejects %s: %v", what, hx(b), e.Message)
			return false
		}
		for len(path) > 0 {
			var p []int32
			if embertree.IsQualifiedTag(x.GetTag()) {
				p = x.GetPath()
			} else {
				p = []int32{int32(x.Number)}
			}
			if len(p) > len(path) || !eqOID(p, path[:len(p)]) {
				h.failf("request: %s: %s leads to %v, want %v", what, hx(b), p, path)
				return false
			}
			path = path[len(p):]
			if len(x.Children) != 1 {
				h.failf("request: %s: %s has %d branches", what, hx(b), len(x.Children))
				return false
			}
			if len(path) == 0 && kind >= 0 && x.GetTag() != tagOf[kind] && x.GetTag() != qtagOf[kind] {
				h.failf("request: %s: %s addresses an element of tag %02x", what, hx(b), x.GetTag())
				return false
			}
			for _, c := range x.Children {
				x = c
			}
		}
		if x.GetTag() != app(2) || x.Number != 32 || len(x.Children) != 0 {
			h.failf("request: %s: %s ends in tag %02x number %d", what, hx(b), x.GetTag(), x.Number)
			return false
		}
		return true
	}
	for n := h.n(6000); n > 0 && !h.stop(); n-- {
		e := rElem(h.rng, 3, rNum(h.rng), 1)
		if h.rng.Intn(3) == 0 {
			qualify(h.rng, e)
		}
		all := e.all()
		if h.rng.Intn(3) == 0 {
			x := all[h.rng.Intn(len(all))]
			if x.kind != kCmd {
				x.qual = true
				x.path = append(append([]int32{}, x.fullPath()...), 0)
				x.path = x.path[:len(x.path)-1]
				if len(x.path) == 0 {
					x.path = []int32{int32(x.num)}
				}
			}
		}
		h.run(func() string { return clip(e.String()) }, func() {
			x := e.build()
			t := all[h.rng.Intn(len(all))]
			if t.kind == kCmd {
				return
			}
			before := snap(x)
			what := fmt.Sprintf("element %v of %s", t.fullPath(), clip(e.String()))
			l := &countL{}
			other := &countL{}
			t.real.AddListener(other)
			var ls embertree.Listener = l
			if h.rng.Intn(4) == 0 {
				ls = nil
			}
			if h.rng.Intn(2) == 0 {
				req, err := t.real.GetDirectoryMsg(ls)
				if err != nil {
					h.failf("GetDirectoryMsg: %s: %v", what, err.Message)
					return
				}
				if !checkReq("GetDirectoryMsg "+what, req, t.fullPath(), t.kind) {
					return
				}
			} else {
				if !checkReq("GetQualifiedDirectoryMsg "+what, t.real.GetQualifiedDirectoryMsg(ls), t.fullPath(), t.kind) {
					return
				}
			}
			if s := snap(x); s != before {
				h.failf("request: %s: the element's tree changed", what)
				return
			}
			if d := e.diff(x); d != "" {
				h.failf("request: %s: the element's tree changed: %s", what, d)
				return
			}
			// exactly the given listener is registered, on exactly this element
			for _, y := range all {
				if y != t {
					u := embertree.NewElement(y.tag(), y.num, nil)
					if y.qual {
						u = embertree.NewQualifiedElement(y.tag(), append(asn1.RelativeOID{}, y.path...), nil)
					}
					y.real.Update(u)
				}
			}
			if l.n != 0 || other.n != 0 {
				h.failf("request: %s: the listener is registered on another element too", what)
				return
			}
			u := embertree.NewElement(t.tag(), t.num, nil)
			if t.qual {
				u = embertree.NewQualifiedElement(t.tag(), append(asn1.RelativeOID{}, t.path...), nil)
			}
			t.real.Update(u)
			want := 1
			if ls == nil {
				want = 0
			}
			if l.n != want || other.n != 1 {
				h.failf("request: %s: after an update the given listener was called %d times, another one %d times", what, l.n, other.n)
			}
		})
	}
	for n := 0; n < 50; n++ {
		h.run(func() string { return fmt.Sprint("root ", n) }, func() {
			root := embertree.NewTree()
			for k := 0; k < n%4; k++ {
				root.AddElement(embertree.NewNode(k))
			}
			l := &countL{}
			var ls embertree.Listener
			if n%3 > 0 {
				ls = l
			}
			req, err := root.GetDirectoryMsg(ls)
			if err != nil {
				h.failf("RootElement.GetDirectoryMsg: %v", err.Message)
				return
			}
			checkReq("root request", req, nil, -1)
			if len(root.RootElementCollection) != n%4 {
				h.failf("RootElement.GetDirectoryMsg: changes the tree")
			}
			root.Decode(asn1.NewASNReader(rootBER(false, (&elem{kind: kNode, num: 1}).ber(false))))
			if ls != nil && l.n != 1 || ls == nil && l.n != 0 {
				h.failf("RootElement.GetDirectoryMsg: listener called %d times", l.n)
			}
		})
	}
}

type recL struct{ got []interface{} }

func (l *recL) Receive(x interface{}, e errors.Error) { l.got = append(l.got, x) }

func c24(h *H) {
	h.rule = "histories of listener registration, removal and updates on elements and trees; distinct = distinct histories"
	for n := h.n(12000); n > 0 && !h.stop(); n-- {
		hist := ""
		h.run(func() string { return hist }, func() {
			root := embertree.NewTree()
			if h.rng.Intn(4) == 0 {
				root = embertree.NewRoot()
			}
			var es []*embertree.Element
			for i := 0; i < 2; i++ {
				e := embertree.NewNode(i)
				root.AddElement(e)
				es = append(es, e)
			}
			c := embertree.NewNode(5)
			es[0].AddChild(c)
			es = append(es, c)
			ls := []*recL{{}, {}, {}, {}}
			on := make([]map[int]bool, 4) // per target (2 = child, 3 = root)
			for i := range on {
				on[i] = map[int]bool{}
			}
			for k := 0; k < 3+h.rng.Intn(10); k++ {
				t, l := h.rng.Intn(4), h.rng.Intn(4)
				switch h.rng.Intn(4) {
				case 0:
					hist += fmt.Sprintf(" add(%d,l%d)", t, l)
					if t == 3 {
						root.AddListener(ls[l])
					} else {
						es[t].AddListener(ls[l])
					}
					on[t][l] = true
				case 1:
					hist += fmt.Sprintf(" remove(%d,l%d)", t, l)
					if t == 3 {
						root.RemoveListener(ls[l])
					} else {
						es[t].RemoveListener(ls[l])
					}
					delete(on[t], l)
				default:
					want := make([][]interface{}, 4)
					exp := func(t int, obj interface{}) {
						for l := range on[t] {
							want[l] = append(want[l], obj)
						}
					}
					for i := range ls {
						ls[i].got = nil
					}
					switch m := h.rng.Intn(5); {
					case t == 3 || m == 0:
						// the tree receives an update of root element i (and maybe the child)
						i := h.rng.Intn(2)
						u := &elem{kind: kNode, num: i}
						hist += fmt.Sprintf(" receive(%d", i)
						if i == 0 && h.rng.Intn(2) == 0 {
							u.kids = []*elem{{kind: kNode, num: 5}}
							hist += ".5"
							exp(2, es[2])
						}
						hist += ")"
						exp(i, es[i])
						exp(3, root)
						if e := root.Decode(asn1.NewASNReader(rootBER(false, u.ber(false)))); e != nil {
							h.failf("Decode:%s: %v", hist, e.Message)
							return
						}
					case m == 1:
						hist += fmt.Sprintf(" setcontents(%d)", t)
						es[t].SetContents(embertree.NewNodeContents())
						exp(t, es[t])
					case m == 2:
						// a qualified update of the child through the tree
						hist += " receive-qualified(0.5)"
						exp(2, es[2])
						exp(3, root)
						u := &elem{kind: kNode, qual: true, path: []int32{0, 5}, num: 5}
						if e := root.Decode(asn1.NewASNReader(rootBER(true, u.ber(false)))); e != nil {
							h.failf("Decode:%s: %v", hist, e.Message)
							return
						}
					case m == 3 && t < 2:
						hist += fmt.Sprintf(" update-with-child(%d)", t)
						u := embertree.NewNode(t)
						x := embertree.NewNode(77)
						u.AddChild(x)
						es[t].Update(u)
						exp(t, es[t])
					default:
						hist += fmt.Sprintf(" update(%d)", t)
						es[t].Update(embertree.NewNode(es[t].Number))
						exp(t, es[t])
					}
					for i := range ls {
						if !sameMulti(ls[i].got, want[i]) {
							h.failf("listeners:%s: l%d was called %d times (with other objects: %v), want %d", hist, i, len(ls[i].got), !sameObjs(ls[i].got, want[i]), len(want[i]))
							return
						}
					}
				}
			}
		})
	}
	// one message with new children for several elements
	for n := h.n(400); n > 0 && !h.stop(); n-- {
		hist := ""
		h.run(func() string { return hist }, func() {
			root := embertree.NewTree()
			var ls []*recL
			var us []*elem
			for i := 1; i <= 2+h.rng.Intn(3); i++ {
				top := embertree.NewNode(i)
				root.AddElement(top)
				at, path := top, []int32{int32(i)}
				for d := h.rng.Intn(3); d > 0; d-- {
					k := 7 + h.rng.Intn(2)
					x := embertree.NewNode(k)
					at.AddChild(x)
					at, path = x, append(path, int32(k))
				}
				l := &recL{}
				at.AddListener(l)
				ls = append(ls, l)
				u := &elem{kind: kNode, qual: true, path: append(append([]int32{}, path...), 99), num: 99}
				us = append(us, u)
				hist += fmt.Sprintf(" new child of %v", path)
			}
			var kids [][]byte
			for _, u := range us {
				kids = append(kids, u.ber(false))
			}
			if e := root.Decode(asn1.NewASNReader(rootBER(h.rng.Intn(2) == 0, kids...))); e != nil {
				h.failf("Decode:%s: %v", hist, e.Message)
				return
			}
			for i, l := range ls {
				if len(l.got) != 1 {
					h.failf("listeners of parent %d called %d times:%s", i, len(l.got), hist)
					return
				}
			}
		})
	}
	_ = bytes.Equal
}

func sameMulti(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	cnt := map[interface{}]int{}
	for _, x := range a {
		cnt[x]++
	}
	for _, x := range b {
		cnt[x]--
	}
	for _, n := range cnt {
		if n != 0 {
			return false
		}
	}
	return true
}

func sameObjs(a, b []interface{}) bool {
	m := map[interface{}]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] {
			return false
		}
	}
	return true
}
