package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

// value is an Ember value of one of six types with its BER form
type value struct {
	kind int // 0 unset 1 string 2 bool 3 int 4 buffer 5 real 6 oid
	s    string
	b    bool
	i    int64
	buf  []byte
	f    float64
	oid  []int32
}

func rValue(r *rand.Rand) value {
	switch r.Intn(6) {
	case 0:
		return value{kind: 1, s: rStr(r)}
	case 1:
		return value{kind: 2, b: r.Intn(2) == 0}
	case 2:
		return value{kind: 3, i: rInt64(r)}
	case 3:
		return value{kind: 4, buf: rBytes(r, rLen(r))}
	case 4:
		return value{kind: 5, f: rReal(r)}
	}
	return value{kind: 6, oid: rOID(r)}
}

func rReal(r *rand.Rand) float64 {
	switch r.Intn(5) {
	case 0:
		return []float64{0, math.Inf(1), math.Inf(-1), math.NaN(), 1, -1, math.MaxFloat64, 5e-324, 1e-310, 0.1}[r.Intn(10)]
	case 1:
		return float64(r.Intn(2000)-1000) / 4
	case 2:
		return float64(rInt64(r))
	}
	return math.Float64frombits(r.Uint64())
}

func (v value) String() string {
	switch v.kind {
	case 1:
		return fmt.Sprintf("string %q", v.s)
	case 2:
		return fmt.Sprint("bool ", v.b)
	case 3:
		return fmt.Sprint("int ", v.i)
	case 4:
		return "buffer " + hx(v.buf)
	case 5:
		return fmt.Sprintf("real %016x", math.Float64bits(v.f))
	case 6:
		return fmt.Sprint("oid ", v.oid)
	}
	return "unset"
}

func (v value) put(cp *embertree.ContentParameter) {
	switch v.kind {
	case 1:
		cp.SetString(v.s)
	case 2:
		cp.SetBool(v.b)
	case 3:
		cp.SetInt(v.i)
	case 4:
		cp.SetBuffer(append([]byte{}, v.buf...))
	case 5:
		cp.SetReal(v.f)
	case 6:
		cp.SetRelativeOID(append(asn1.RelativeOID{}, v.oid...))
	}
}

// ber of the value; reals through the library's own writer (C06 is about those octets)
func (v value) ber() []byte {
	switch v.kind {
	case 1:
		return tStr(v.s)
	case 2:
		return tBool(v.b)
	case 3:
		return tInt(v.i)
	case 4:
		return tBits(v.buf)
	case 5:
		b, _ := written(nil, func(w *asn1.ASNWriter) errors.Error { return w.WriteReal(v.f) })
		return b
	case 6:
		return tOID(v.oid)
	}
	return nil
}

var vtypes = []embertree.ValueType{embertree.ValueTypeUnset, embertree.ValueTypeString, embertree.ValueTypeBool, embertree.ValueTypeInteger, embertree.ValueTypeBuffer, embertree.ValueTypeReal, embertree.ValueTypeOID}

// diff compares what every accessor of cp reports with the value: "" when they agree
func (v value) diff(cp *embertree.ContentParameter) string {
	if cp == nil {
		return "nil content value"
	}
	if cp.IsSet() != (v.kind != 0) {
		return fmt.Sprintf("IsSet is %v", cp.IsSet())
	}
	if cp.GetType() != vtypes[v.kind] {
		return fmt.Sprintf("type is %v", embertree.ValueType2String(cp.GetType()))
	}
	bad := func(k int, e errors.Error, same bool, got string) string {
		if (e == nil) != (v.kind == k) {
			return fmt.Sprintf("accessor %d: err=%v", k, e != nil)
		}
		if e == nil && !same {
			return "value is " + got
		}
		return ""
	}
	s, e := cp.GetString()
	if d := bad(1, e, s == v.s, fmt.Sprintf("%q", s)); d != "" {
		return d
	}
	b, e := cp.GetBool()
	if d := bad(2, e, b == v.b, fmt.Sprint(b)); d != "" {
		return d
	}
	i, e := cp.GetInt()
	if d := bad(3, e, i == v.i, fmt.Sprint(i)); d != "" {
		return d
	}
	u, e := cp.GetBuffer()
	if d := bad(4, e, string(u) == string(v.buf), hx(u)); d != "" {
		return d
	}
	f, e := cp.GetReal()
	if d := bad(5, e, f == v.f || (f != f && v.f != v.f), fmt.Sprint(f)); d != "" {
		return d
	}
	o, e := cp.GetRelativeOID()
	if d := bad(6, e, eqOID(o, v.oid), fmt.Sprint(o)); d != "" {
		return d
	}
	return ""
}

// canon: structure of BER octets with the members of element collections sorted (their order is a map's)
func canonNode(n *node) string {
	if !n.cons {
		return fmt.Sprintf("%02x:%x", n.tag, n.body)
	}
	var ks []string
	for _, k := range n.kids {
		ks = append(ks, canonNode(k))
	}
	if n.tag == app(4) || n.tag == app(11) {
		sort.Strings(ks)
	}
	return fmt.Sprintf("%02x{%s}", n.tag, strings.Join(ks, " "))
}

func canon(b []byte) (string, error) {
	ns, e := parseAll(b)
	s := ""
	for _, n := range ns {
		s += canonNode(n)
	}
	return s, e
}

// contents of an element: the real object, the BER form of its fields, and a comparison of the getters
type contents struct {
	kind int // 0 node 1 parameter 2 function 3 matrix 4 command
	c    embertree.EmberContents
	// encoding of the contents: the member fields in order
	enc   func(def bool) []byte
	diff  func(c embertree.EmberContents) string
	descr string
}

const (
	kNode = iota
	kParam
	kFunc
	kMatrix
	kCmd
)

var tagOf = []byte{app(3), app(1), app(19), app(13), app(2)}
var qtagOf = []byte{app(10), app(9), app(20), app(17), 0}

func ck(name, want string, set bool, got string, e errors.Error) string {
	if set != (e == nil) {
		return fmt.Sprintf("%s: set=%v but the getter's err=%v", name, set, e != nil)
	}
	if set && got != want {
		return fmt.Sprintf("%s: %q, want %q", name, got, want)
	}
	return ""
}

// fill puts field through random setters; wire-only fields (those without setter) are never set here
func rContents(r *rand.Rand, kind int) *contents {
	type fld struct {
		ctx  int
		val  []byte
		name string
		want string
		get  func(c embertree.EmberContents) (string, errors.Error)
	}
	var fs []fld
	out := &contents{kind: kind}
	on := func() bool { return r.Intn(2) == 0 }
	all := r.Intn(6)
	if all == 0 {
		on = func() bool { return true }
	} else if all == 1 {
		on = func() bool { return false }
	}
	var un []fld
	str := func(ctx int, name string, set func(string), get func(c embertree.EmberContents) (string, errors.Error)) {
		if on() {
			s := rStr(r)
			set(s)
			fs = append(fs, fld{ctx, tStr(s), name, s, get})
		} else {
			un = append(un, fld{ctx: ctx, name: name, get: get})
		}
	}
	num := func(ctx int, name string, set func(int64), get func(c embertree.EmberContents) (int64, errors.Error)) {
		g := func(c embertree.EmberContents) (string, errors.Error) { v, e := get(c); return fmt.Sprint(v), e }
		if on() {
			s := rInt64(r)
			set(s)
			fs = append(fs, fld{ctx, tInt(s), name, fmt.Sprint(s), g})
		} else {
			un = append(un, fld{ctx: ctx, name: name, get: g})
		}
	}
	bol := func(ctx int, name string, set func(bool), get func(c embertree.EmberContents) (bool, errors.Error)) {
		g := func(c embertree.EmberContents) (string, errors.Error) { v, e := get(c); return fmt.Sprint(v), e }
		if on() {
			s := r.Intn(2) == 0
			set(s)
			fs = append(fs, fld{ctx, tBool(s), name, fmt.Sprint(s), g})
		} else {
			un = append(un, fld{ctx: ctx, name: name, get: g})
		}
	}
	val := func(ctx int, name string, obj func(c embertree.EmberContents) *embertree.ContentParameter) {
		var v value
		if on() {
			v = rValue(r)
			v.put(obj(out.c))
		}
		get := func(c embertree.EmberContents) (string, errors.Error) {
			if d := v.diff(obj(c)); d != "" {
				return d, nil
			}
			return "same", nil
		}
		fs = append(fs, fld{-1 - ctx, v.ber(), name, "same", get})
		if v.kind != 0 {
			fs[len(fs)-1].ctx = ctx
		}
	}
	var tail func(def bool) []byte
	var more func(c embertree.EmberContents) string
	switch kind {
	case kNode:
		n := embertree.NewNodeContents().(*embertree.NodeContents)
		out.c = n
		g := func(c embertree.EmberContents) *embertree.NodeContents { return c.(*embertree.NodeContents) }
		str(0, "identifier", n.SetIdentifier, func(c embertree.EmberContents) (string, errors.Error) { return g(c).GetIdentifier() })
		str(1, "description", n.SetDescription, func(c embertree.EmberContents) (string, errors.Error) { return g(c).GetDescription() })
		bol(2, "isRoot", n.SetIsRoot, func(c embertree.EmberContents) (bool, errors.Error) { return g(c).GetIsRoot() })
		bol(3, "isOnline", n.SetIsOnline, func(c embertree.EmberContents) (bool, errors.Error) { return g(c).GetIsOnline() })
		str(4, "schemaIdentifiers", n.SetSchemaIdentifiers, func(c embertree.EmberContents) (string, errors.Error) { return g(c).GetSchemaIdentifiers() })
		if on() {
			o := rOID(r)
			n.SetTemplateReference(append(asn1.RelativeOID{}, o...))
			fs = append(fs, fld{5, tOID(o), "templateReference", fmt.Sprint(o), func(c embertree.EmberContents) (string, errors.Error) {
				v, e := g(c).GetTemplateReference()
				return fmt.Sprint([]int32(v)), e
			}})
		}
	case kParam:
		n := embertree.NewParameterContents().(*embertree.ParameterContents)
		out.c = n
		g := func(c embertree.EmberContents) *embertree.ParameterContents { return c.(*embertree.ParameterContents) }
		type C = embertree.EmberContents
		type E = errors.Error
		str(0, "identifier", n.SetIdentifier, func(c C) (string, E) { return g(c).GetIdentifier() })
		str(1, "description", n.SetDescription, func(c C) (string, E) { return g(c).GetDescription() })
		val(2, "value", func(c C) *embertree.ContentParameter { return g(c).GetValueObject() })
		val(3, "minimum", func(c C) *embertree.ContentParameter { return g(c).GetMinimumObject() })
		val(4, "maximum", func(c C) *embertree.ContentParameter { return g(c).GetMaximumObject() })
		str(5, "access", n.SetAccess, func(c C) (string, E) { return g(c).GetAccess() })
		str(6, "format", n.SetFormat, func(c C) (string, E) { return g(c).GetFormat() })
		str(7, "enumeration", n.SetEnumeration, func(c C) (string, E) { return g(c).GetEnumeration() })
		num(8, "factor", n.SetFactor, func(c C) (int64, E) { return g(c).GetFactor() })
		bol(9, "isOnline", n.SetOnline, func(c C) (bool, E) { return g(c).GetOnline() })
		str(10, "formula", n.SetFormula, func(c C) (string, E) { return g(c).GetFormula() })
		num(11, "step", n.SetStep, func(c C) (int64, E) { return g(c).GetStep() })
		val(12, "default", func(c C) *embertree.ContentParameter { return g(c).GetDefaultObject() })
		str(13, "type", n.SetType, func(c C) (string, E) { return g(c).GetType() })
		num(14, "streamIdentifier", n.SetStreanIdentifier, func(c C) (int64, E) { return g(c).GetStreamIdentifier() })
	case kFunc:
		n := embertree.NewFunctionContents().(*embertree.FunctionContents)
		out.c = n
		type C = embertree.EmberContents
		type E = errors.Error
		g := func(c C) *embertree.FunctionContents { return c.(*embertree.FunctionContents) }
		str(0, "identifier", n.SetIdentifier, func(c C) (string, E) { return g(c).GetIdentifier() })
		str(1, "description", n.SetDescription, func(c C) (string, E) { return g(c).GetDescription() })
		tup := func() ([]*embertree.TupleDescription, func(def bool) []byte, string) {
			var ts []*embertree.TupleDescription
			k := r.Intn(4)
			s := ""
			for i := 0; i < k; i++ {
				t := embertree.NewArgument(embertree.ParameterType(r.Intn(8)), rStr(r))
				ts = append(ts, t)
				s += fmt.Sprintf("%d:%q;", t.Type, t.Name)
			}
			return ts, func(def bool) []byte {
				var b [][]byte
				for _, t := range ts {
					b = append(b, box(def, ctx(0), box(def, app(21), box(def, ctx(0), tInt(int64(t.Type))), box(def, ctx(1), tStr(t.Name)))))
				}
				return box(def, 0x30, b...)
			}, s
		}
		sig := func(ts []*embertree.TupleDescription) string {
			s := ""
			for _, t := range ts {
				s += fmt.Sprintf("%d:%q;", t.Type, t.Name)
			}
			return s
		}
		as, ae, sa := tup()
		rs, re, sr := tup()
		n.SetArguments(as)
		n.SetResult(rs)
		tail = func(def bool) []byte {
			var b []byte
			if len(as) > 0 {
				b = append(b, box(def, ctx(2), ae(def))...)
			}
			if len(rs) > 0 {
				b = append(b, box(def, ctx(3), re(def))...)
			}
			return b
		}
		more = func(c C) string {
			if s := sig(g(c).GetArguments()); s != sa {
				return "arguments: " + s + " want " + sa
			}
			if s := sig(g(c).GetResult()); s != sr {
				return "result: " + s + " want " + sr
			}
			return ""
		}
	case kMatrix:
		t, m := r.Intn(3), r.Intn(2)
		n, _ := embertree.NewMatrixContent(embertree.MatrixType(t), embertree.MatrixMode(m))
		out.c = n
		type C = embertree.EmberContents
		type E = errors.Error
		g := func(c C) *embertree.MatrixContent { return c.(*embertree.MatrixContent) }
		str(0, "identifier", n.SetIdentifier, func(c C) (string, E) { return g(c).GetIdentifier() })
		str(1, "description", n.SetDescription, func(c C) (string, E) { return g(c).GetDescription() })
		fs = append(fs, fld{2, tInt(int64(t)), "type", fmt.Sprint(t), func(c C) (string, E) { v, e := g(c).GetType(); return fmt.Sprint(int(v)), e }})
		fs = append(fs, fld{3, tInt(int64(m)), "addressingMode", fmt.Sprint(m), func(c C) (string, E) { v, e := g(c).GetMode(); return fmt.Sprint(int(v)), e }})
		ni := func(ctx int, name string, set func(int) errors.Error, get func(c C) (int, E)) {
			num(ctx, name, func(v int64) { set(int(v)) }, func(c C) (int64, E) { v, e := get(c); return int64(v), e })
		}
		ni(4, "targetCount", n.SetTargetCount, func(c C) (int, E) { return g(c).GetTargetCount() })
		ni(5, "sourceCount", n.SetSourceCount, func(c C) (int, E) { return g(c).GetSourceCount() })
		ni(6, "maximumTotalConnects", n.SetMaxTotalConnects, func(c C) (int, E) { return g(c).GetMaxTotalConnects() })
		ni(7, "maximumConnectsPerTarget", n.SetMaxConnectsPerTarget, func(c C) (int, E) { return g(c).GetMaxConnectsPerTarget() })
		og := func(c C) (string, E) { v, e := g(c).GetParameterLocation(); return fmt.Sprint([]int32(v)), e }
		if on() {
			o := rOID(r)
			n.SetParameterLocation(append(asn1.RelativeOID{}, o...))
			fs = append(fs, fld{8, tOID(o), "parametersLocation", fmt.Sprint(o), og})
		} else {
			un = append(un, fld{ctx: 8, name: "parametersLocation", get: og})
		}
		ni(9, "gainParameterNumber", n.SetGainParameterNumber, func(c C) (int, E) { return g(c).GetGainParameterNumber() })
		var si func(def bool) []byte
		sg := func(c C) (string, E) { return g(c).GetSchemaIdentifier() }
		if on() {
			s := rStr(r)
			n.SetSchemaIdentifier(s)
			si = func(def bool) []byte { return box(def, ctx(11), tStr(s)) }
			more = func(c C) string { v, e := sg(c); return ck("schemaIdentifiers", s, true, v, e) }
		} else {
			un = append(un, fld{ctx: 11, name: "schemaIdentifiers", get: sg})
		}
		tail = func(def bool) []byte {
			b := box(def, ctx(10), box(def, 0x30))
			if si != nil {
				b = append(b, si(def)...)
			}
			return b
		}
	case kCmd:
		n := embertree.NewCommandContents().(*embertree.CommandContents)
		out.c = n
		f := []int{-2, -1, 0, 1, 2, 3, 4, 5, 100, -77}[r.Intn(10)]
		n.SetFieldFlags(embertree.FieldFlags(f))
		out.enc = func(def bool) []byte { return tInt(int64(f)) }
		out.diff = func(c embertree.EmberContents) string {
			cc, ok := c.(*embertree.CommandContents)
			if !ok {
				return fmt.Sprintf("contents are %T", c)
			}
			if int(cc.GetFieldFlags()) != f {
				return fmt.Sprintf("fieldFlags: %d, want %d", cc.GetFieldFlags(), f)
			}
			return ""
		}
		out.descr = fmt.Sprint("command flags ", f)
		return out
	}
	for _, f := range fs {
		if f.ctx >= 0 {
			out.descr += fmt.Sprintf("%s=%s ", f.name, hx(f.val))
		}
	}
	out.enc = func(def bool) []byte {
		var b []byte
		for _, f := range fs {
			if f.ctx >= 0 {
				b = append(b, box(def, ctx(f.ctx), f.val)...)
			}
		}
		if tail != nil {
			b = append(b, tail(def)...)
		}
		return box(def, 0x31, b)
	}
	typ := fmt.Sprintf("%T", out.c)
	out.diff = func(c embertree.EmberContents) string {
		if fmt.Sprintf("%T", c) != typ {
			return fmt.Sprintf("contents are %T, want %s", c, typ)
		}
		for _, f := range fs {
			v, e := f.get(c)
			if d := ck(f.name, f.want, true, v, e); d != "" {
				return d
			}
		}
		for _, f := range un {
			v, e := f.get(c)
			if d := ck(f.name, "", false, v, e); d != "" {
				return d
			}
		}
		if more != nil {
			return more(c)
		}
		return ""
	}
	return out
}

// ---- element models

type conn struct {
	target  int32
	sources []int32
	op, dis int
}

type elem struct {
	kind    int
	qual    bool
	num     int
	path    []int32
	con     *contents
	kids    []*elem
	targets []int32
	sources []int32
	conns   []conn
	real    *embertree.Element
	parent  *elem
}

func rElem(r *rand.Rand, depth int, num int, withCon int) *elem {
	e := &elem{num: num}
	e.kind = []int{kNode, kNode, kNode, kParam, kFunc, kMatrix, kCmd}[r.Intn(7)]
	if e.kind == kCmd && r.Intn(3) > 0 {
		e.kind = kNode
	}
	if r.Intn(withCon+1) > 0 || e.kind == kMatrix {
		e.con = rContents(r, e.kind)
	}
	if depth > 0 {
		used := map[int]bool{}
		for k := r.Intn(4); k > 0; k-- {
			n := rNum(r)
			if used[n] {
				continue
			}
			used[n] = true
			c := rElem(r, depth-1, n, withCon)
			c.parent = e
			e.kids = append(e.kids, c)
		}
	}
	if e.kind == kMatrix {
		for k := r.Intn(4); k > 0; k-- {
			e.targets = append(e.targets, rInt32(r))
		}
		for k := r.Intn(4); k > 0; k-- {
			e.sources = append(e.sources, rInt32(r))
		}
		for k := r.Intn(3); k > 0; k-- {
			e.conns = append(e.conns, rConn(r))
		}
	}
	return e
}

func rNum(r *rand.Rand) int {
	if r.Intn(3) > 0 {
		return r.Intn(6)
	}
	return int(rArc(r))
}

func rConn(r *rand.Rand) conn {
	c := conn{target: rInt32(r), op: r.Intn(3), dis: r.Intn(4)}
	for k := r.Intn(5); k > 0; k-- {
		c.sources = append(c.sources, rArc(r))
	}
	return c
}

func (c conn) ber(def bool) []byte {
	var s []byte
	if len(c.sources) > 0 {
		s = box(def, ctx(1), tOID(c.sources))
	}
	return box(def, app(16), box(def, ctx(0), tInt(int64(c.target))), s, box(def, ctx(2), tInt(int64(c.op))), box(def, ctx(3), tInt(int64(c.dis))))
}

func (c conn) build() *embertree.Connection {
	k := &embertree.Connection{Target: c.target, Sources: append([]int32{}, c.sources...)}
	k.SetOperation(c.op)
	k.SetDisposition(c.dis)
	return k
}

func (c conn) same(k *embertree.Connection) bool {
	return k != nil && k.Target == c.target && eqOID(k.Sources, c.sources) && int(k.GetOperation()) == c.op && int(k.GetDisposition()) == c.dis
}

func sigBER(def bool, cx int, ap int, ns []int32) []byte {
	var b [][]byte
	for _, n := range ns {
		b = append(b, box(def, ctx(0), box(def, app(ap), box(def, ctx(0), tInt(int64(n))))))
	}
	return box(def, ctx(cx), box(def, 0x30, b...))
}

func (e *elem) tag() byte {
	if e.qual {
		return qtagOf[e.kind]
	}
	return tagOf[e.kind]
}

func (e *elem) ber(def bool) []byte {
	var b []byte
	if e.qual {
		b = append(b, box(def, ctx(0), tOID(e.path))...)
	} else {
		b = append(b, box(def, ctx(0), tInt(int64(e.num)))...)
	}
	if e.con != nil {
		b = append(b, box(def, ctx(1), e.con.enc(def))...)
	}
	if len(e.kids) > 0 {
		var k [][]byte
		for _, c := range e.kids {
			k = append(k, box(def, ctx(0), c.ber(def)))
		}
		b = append(b, box(def, ctx(2), box(def, app(4), k...))...)
	}
	if e.kind == kMatrix {
		b = append(b, sigBER(def, 3, 14, e.targets)...)
		b = append(b, sigBER(def, 4, 15, e.sources)...)
		var k [][]byte
		for _, c := range e.conns {
			k = append(k, box(def, ctx(0), c.ber(def)))
		}
		b = append(b, box(def, ctx(5), box(def, 0x30, k...))...)
	}
	return box(def, e.tag(), b)
}

func rootBER(def bool, es ...[]byte) []byte {
	var k [][]byte
	for _, e := range es {
		k = append(k, box(def, ctx(0), e))
	}
	return box(def, app(0), box(def, app(11), k...))
}

// build makes the real element of the model (and remembers it in e.real)
func (e *elem) build() *embertree.Element {
	var x *embertree.Element
	p := append(asn1.RelativeOID{}, e.path...)
	switch {
	case e.kind == kMatrix && e.qual:
		x = embertree.NewQualifiedMatrix(p, embertree.OneToN, embertree.Linear)
	case e.kind == kMatrix:
		x, _ = embertree.NewMatrix(e.num, embertree.OneToN, embertree.Linear)
	case e.kind == kNode && e.qual:
		x = embertree.NewQualifiedNode(p)
	case e.kind == kNode:
		x = embertree.NewNode(e.num)
	case e.kind == kParam && e.qual:
		x = embertree.NewQualifiedParameter(p)
	case e.kind == kParam:
		x = embertree.NewParameter(e.num)
	case e.kind == kFunc && e.qual:
		x = embertree.NewQualifiedElement(app(20), p, embertree.NewFunctionContents)
	case e.kind == kFunc:
		x = embertree.NewFunction(e.num)
	case e.kind == kCmd:
		x = embertree.NewElement(app(2), e.num, embertree.NewCommandContents)
	}
	if e.con != nil {
		x.SetContents(e.con.c)
	}
	if e.kind == kMatrix {
		var ts, ss []embertree.Signal
		for _, n := range e.targets {
			ts = append(ts, embertree.NewTarget(n))
		}
		for _, n := range e.sources {
			ss = append(ss, embertree.NewSource(n))
		}
		var cs []*embertree.Connection
		for _, c := range e.conns {
			cs = append(cs, c.build())
		}
		x.SetTargets(ts)
		x.SetSources(ss)
		x.SetConnections(cs)
	}
	for _, c := range e.kids {
		x.AddChild(c.build())
	}
	e.real = x
	return x
}

// all elements of the model, parents first
func (e *elem) all() []*elem {
	out := []*elem{e}
	for _, c := range e.kids {
		out = append(out, c.all()...)
	}
	return out
}

// fullPath: the position the model gives the element
func (e *elem) fullPath() []int32 {
	if e.qual {
		return e.path
	}
	if e.parent == nil {
		return []int32{int32(e.num)}
	}
	return append(append([]int32{}, e.parent.fullPath()...), int32(e.num))
}

// diff compares a real element (tree) with the model
func (e *elem) diff(x *embertree.Element) string {
	if x == nil {
		return "missing element"
	}
	at := fmt.Sprintf("element %v: ", e.fullPath())
	if x.GetTag() != e.tag() || x.Number != e.num {
		return at + fmt.Sprintf("tag %02x number %d, want %02x %d", x.GetTag(), x.Number, e.tag(), e.num)
	}
	if (x.GetContent() != nil) != (e.con != nil) {
		return at + fmt.Sprintf("contents present=%v want %v", x.GetContent() != nil, e.con != nil)
	}
	if e.con != nil {
		if d := e.con.diff(x.GetContent()); d != "" {
			return at + d
		}
	}
	if e.kind == kMatrix {
		ts, _ := x.GetTargets()
		ss, _ := x.GetSources()
		cs, _ := x.GetConnections()
		if d := sigDiff(ts, e.targets, true); d != "" {
			return at + "targets " + d
		}
		if d := sigDiff(ss, e.sources, false); d != "" {
			return at + "sources " + d
		}
		if len(cs) != len(e.conns) {
			return at + fmt.Sprintf("%d connections want %d", len(cs), len(e.conns))
		}
		for i, c := range e.conns {
			if !c.same(cs[i]) {
				return at + fmt.Sprintf("connection %d is %+v, want %+v", i, *cs[i], c)
			}
		}
	}
	if len(x.Children) != len(e.kids) {
		return at + fmt.Sprintf("%d children, want %d", len(x.Children), len(e.kids))
	}
	for _, c := range e.kids {
		k := x.Children[c.num]
		if k == nil {
			return at + fmt.Sprintf("child %d is missing", c.num)
		}
		if p, _ := k.GetParent(); p != x {
			return at + fmt.Sprintf("child %d has another parent", c.num)
		}
		if d := c.diff(k); d != "" {
			return d
		}
	}
	return ""
}

func sigDiff(got []embertree.Signal, want []int32, target bool) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d signals, want %d", len(got), len(want))
	}
	for i, s := range got {
		switch t := s.(type) {
		case *embertree.Target:
			if !target || t.Number != want[i] {
				return fmt.Sprintf("%d: target %d, want %d", i, t.Number, want[i])
			}
		case *embertree.Source:
			if target || t.Number != want[i] {
				return fmt.Sprintf("%d: source %d, want %d", i, t.Number, want[i])
			}
		default:
			return fmt.Sprintf("%d: %T", i, s)
		}
	}
	return ""
}
