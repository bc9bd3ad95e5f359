package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

func init() {
	props["C08"] = c08
	props["C09"] = c09
}

// entry is one way bytes from the network reach the decoders. f returns a complaint about the result, if any.
type entry struct {
	name string
	f    func(b []byte) string
}

func okOr(e errors.Error, nilRes bool) string {
	if e == nil && nilRes {
		return "neither a value nor an error"
	}
	return ""
}

func entries(r *rand.Rand) []entry {
	rd := func(b []byte) *asn1.ASNReader { return asn1.NewASNReader(b) }
	var es []entry
	add := func(n string, f func(b []byte) string) { es = append(es, entry{n, f}) }
	tree := func() *embertree.RootElement {
		t := embertree.NewTree()
		for k := 0; k < 3; k++ {
			t.AddElement(rElem(r, 2, k, 3).build())
		}
		return t
	}
	add("RootElement.Decode (empty tree)", func(b []byte) string { embertree.NewTree().Decode(rd(b)); return "" })
	add("RootElement.Decode (populated tree)", func(b []byte) string { tree().Decode(rd(b)); return "" })
	add("DecodeElement", func(b []byte) string { x, e := embertree.DecodeElement(rd(b)); return okOr(e, x == nil) })
	for c := 0; c < 4; c++ {
		c := c
		add(fmt.Sprintf("DecodeValue %d", c), func(b []byte) string { x, e := embertree.DecodeValue(rd(b), uint8(c)); return okOr(e, x == nil) })
	}
	add("DecodeSignal", func(b []byte) string { x, e := embertree.DecodeSignal(rd(b)); return okOr(e, x == nil) })
	for c := 3; c < 5; c++ {
		c := c
		add(fmt.Sprintf("DeodeSignals %d", c), func(b []byte) string { embertree.DeodeSignals(rd(b), asn1.Context(uint8(c))); return "" })
	}
	add("DecodeLabel", func(b []byte) string { x, e := embertree.DecodeLabel(rd(b)); return okOr(e, x == nil) })
	add("Label.Decode", func(b []byte) string { new(embertree.Label).Decode(rd(b)); return "" })
	add("Target.Decode", func(b []byte) string { embertree.NewTarget(1).Decode(rd(b)); return "" })
	add("Source.Decode", func(b []byte) string { embertree.NewSource(1).Decode(rd(b)); return "" })
	add("Connection.Decode", func(b []byte) string { new(embertree.Connection).Decode(rd(b)); return "" })
	add("Invocation.Decode", func(b []byte) string { new(embertree.Invocation).Decode(rd(b)); return "" })
	add("TupleDescription.Decode", func(b []byte) string { new(embertree.TupleDescription).Decode(rd(b)); return "" })
	add("NodeContents.Decode", func(b []byte) string { embertree.NewNodeContents().Decode(rd(b)); return "" })
	add("ParameterContents.Decode", func(b []byte) string { embertree.NewParameterContents().Decode(rd(b)); return "" })
	add("FunctionContents.Decode", func(b []byte) string { embertree.NewFunctionContents().Decode(rd(b)); return "" })
	add("CommandContents.Decode", func(b []byte) string { embertree.NewCommandContents().Decode(rd(b)); return "" })
	add("MatrixContent.Decode", func(b []byte) string { embertree.NewDefaultMatrixContents().Decode(rd(b)); return "" })
	add("MatrixContent.DecodeLabels", func(b []byte) string {
		c, _ := embertree.NewMatrixContent(embertree.OneToN, embertree.Linear)
		c.DecodeLabels(rd(b))
		return ""
	})
	mx := func() *embertree.Element { m, _ := embertree.NewMatrix(1, embertree.OneToN, embertree.Linear); return m }
	add("Matrix.DecodeTargets", func(b []byte) string { mx().DecodeTargets(rd(b)); return "" })
	add("Matrix.DecodeSources", func(b []byte) string { mx().DecodeSources(rd(b)); return "" })
	add("Matrix.DecodeConnections", func(b []byte) string { mx().DecodeConnections(rd(b)); return "" })
	add("Node.DecodeConnections", func(b []byte) string {
		n := embertree.NewNode(1)
		if n.DecodeConnections(rd(b)) == nil && n.DecodeTargets(rd(b)) == nil && n.DecodeSources(rd(b)) == nil {
			return "a node accepted targets, sources and connections"
		}
		return ""
	})
	add("ReadInt", func(b []byte) string { rd(b).ReadInt(); return "" })
	add("ReadInt64", func(b []byte) string { rd(b).ReadInt64(); return "" })
	add("ReadBoolean", func(b []byte) string { rd(b).ReadBoolean(); return "" })
	add("ReadReal", func(b []byte) string { rd(b).ReadReal(); return "" })
	add("ReadString", func(b []byte) string { rd(b).ReadString(); return "" })
	add("ReadBitString", func(b []byte) string { rd(b).ReadBitString(); return "" })
	add("ReadOID", func(b []byte) string { rd(b).ReadOID(asn1.EMBER_RELATIVE_OID); return "" })
	add("ReadIndifiniteLengthData", func(b []byte) string { rd(b).ReadIndifiniteLengthData(); return "" })
	add("ReadLength", func(b []byte) string { rd(b).ReadLength(); return "" })
	add("ReadSequenceStart", func(b []byte) string {
		a := rd(b)
		if t, e := a.Peek(); e == nil {
			_, x, e := a.ReadSequenceStart(t)
			if e == nil && x == nil {
				return "neither a reader nor an error"
			}
			if e == nil {
				x.ReadSequenceEnd()
			}
		}
		return ""
	})
	return es
}

// s101Entry feeds a decoder whose message handler decodes the message as a tree.
func s101Entry() entry {
	return entry{"S101Decoder.DecodeBuffer", func(b []byte) string {
		d := socket.NewS101Decoder(func(p []byte) errors.Error { return nil }, func(p []byte) errors.Error { return nil }, func(p []byte) errors.Error { return embertree.NewTree().Decode(asn1.NewASNReader(p)) },
			func(e errors.Error) {})
		d.DecodeBuffer(len(b), b)
		return ""
	}}
}

// tame keeps three and four octet lengths small: the allocation (and zero filling) of a container of the declared
// length is the recorded exception and would only slow the run down.
func tame(b []byte) []byte {
	for i := 0; i < len(b); i++ {
		if b[i] == 0x84 && !(i+2 < len(b) && b[i+1] == 0 && b[i+2] == 0) {
			b[i] = 0x82
		}
		if b[i] == 0x83 && !(i+1 < len(b) && b[i+1] <= 1) {
			b[i] = 0x81
		}
	}
	return b
}

// piece is a valid encoding of some component.
func piece(r *rand.Rand) []byte {
	def := r.Intn(2) == 0
	switch r.Intn(14) {
	case 0:
		return box(def, ctx(r.Intn(4)), rValue(r).ber())
	case 1:
		return rConn(r).ber(def)
	case 2:
		return box(def, app(r.Intn(2)+14), box(def, ctx(0), tInt(int64(rInt32(r)))))
	case 3:
		return sigBER(def, 3+r.Intn(2), 14+r.Intn(2), []int32{1, 2, rInt32(r)})
	case 4:
		return box(def, ctx(5), box(def, 0x30, box(def, ctx(0), rConn(r).ber(def)), box(def, ctx(0), rConn(r).ber(def))))
	case 5:
		return labelBER(def, rPath(r, 1), rStr(r))
	case 6:
		return box(def, app(22), box(def, ctx(0), tInt(rInt64(r))), box(def, ctx(1), box(def, 0x30, box(def, ctx(0), rValue(r).ber()), box(def, ctx(0), rValue(r).ber()))))
	case 7:
		return box(def, app(21), box(def, ctx(0), tInt(int64(r.Intn(8)))), box(def, ctx(1), tStr(rStr(r))))
	case 8:
		return rContents(r, r.Intn(5)).enc(def)
	case 9:
		return rValue(r).ber()
	case 10, 11:
		e := rElem(r, 2, rNum(r), 3)
		if r.Intn(3) == 0 {
			qualify(r, e)
			if r.Intn(6) == 0 {
				e.path = nil
			}
		}
		return e.ber(def)
	default:
		var k [][]byte
		for n := r.Intn(3) + 1; n > 0; n-- {
			e := rElem(r, 2, rNum(r), 3)
			if r.Intn(2) == 0 {
				qualify(r, e)
				if r.Intn(8) == 0 {
					e.path = nil
				}
			}
			k = append(k, e.ber(def))
		}
		return rootBER(def, k...)
	}
}

var tagPool = []byte{0, 1, 2, 3, 4, 9, 12, 13, 0x30, 0x31, 0x60, 0x61, 0x62, 0x63, 0x64, 0x69, 0x6a, 0x6b, 0x6d, 0x6e, 0x6f, 0x70, 0x71, 0x72, 0x73, 0x74,
	0x75, 0x76, 0x77, 0x78, 0x80, 0x81, 0x82, 0x7f, 0xff, 0xa0, 0xa1, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xab, 0xac, 0xad, 0xae, 0xaf, 0xb0, 0xb1, 0xb2}

func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for k := r.Intn(4); k > 0; k-- {
		if len(b) == 0 {
			return b
		}
		i := r.Intn(len(b))
		if r.Intn(2) == 0 && len(b) > 24 { // near the front, where the structure is
			i = r.Intn(24)
		}
		switch r.Intn(8) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(r.Intn(256))
		case 2, 3:
			b[i] = tagPool[r.Intn(len(tagPool))]
		case 4:
			b = b[:i]
		case 5:
			j := i + r.Intn(len(b)-i+1)
			if j > i+12 {
				j = i + 12
			}
			b = append(b[:i:i], b[j:]...)
		case 6:
			j := i + r.Intn(len(b)-i+1)
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 7:
			p := piece(r)
			if len(p) > 40 {
				p = p[:40]
			}
			b = append(append(append([]byte{}, b[:i]...), p...), b[i:]...)
		}
		if len(b) > 6000 {
			b = b[:6000]
		}
	}
	return b
}

// dropOne parses valid BER and removes, empties, retags or doubles one value at any depth, keeping the rest balanced.
func dropOne(r *rand.Rand, b []byte) []byte {
	ns, e := parseAll(b)
	if e != nil || len(ns) == 0 {
		return b
	}
	var all []*node
	var walk func(n *node)
	walk = func(n *node) {
		all = append(all, n)
		for _, k := range n.kids {
			walk(k)
		}
	}
	for _, n := range ns {
		walk(n)
	}
	t := all[r.Intn(len(all))]
	how := r.Intn(6)
	var enc func(n *node) []byte
	enc = func(n *node) []byte {
		var c []byte
		if n.cons {
			for _, k := range n.kids {
				c = append(c, enc(k)...)
			}
		} else {
			c = n.body
		}
		tag := n.tag
		mk := func() []byte {
			if n.cons && !n.def {
				return indef(tag, c)
			}
			return tlv(tag, c)
		}
		if n == t {
			switch how {
			case 0:
				return nil
			case 1:
				c = nil
			case 2:
				tag = tagPool[r.Intn(len(tagPool))]
				if tag&0x20 == 0 && n.cons {
					tag |= 0x20
				}
			case 3:
				x := mk()
				return append(append([]byte{}, x...), x...)
			case 4:
				return piece(r)
			case 5:
				c = rBytes(r, 10)
			}
		}
		return mk()
	}
	var out []byte
	for _, n := range ns {
		out = append(out, enc(n)...)
	}
	return out
}

func robustCase(h *H, es []entry, b []byte, pick func(i int) bool) {
	for i, e := range es {
		if !pick(i) {
			continue
		}
		e := e
		h.run(func() string { return fmt.Sprintf("%s on %s", e.name, hx(b)) }, func() {
			if s := e.f(b); s != "" {
				h.failf("%s %s: %s", e.name, s, hx(b))
			}
		})
	}
}

func robust(h *H) {
	r := h.rng
	es := entries(r)
	all := func(i int) bool { return true }
	// every input of at most one octet, and every pair of octets for a rotating entry
	robustCase(h, es, nil, all)
	for a := 0; a < 256; a++ {
		robustCase(h, es, []byte{byte(a)}, all)
	}
	for a := 0; a < 65536; a++ {
		if h.stop() {
			return
		}
		robustCase(h, es, tame([]byte{byte(a >> 8), byte(a)}), func(i int) bool { return h.thorough || a%len(es) == i })
	}
	// every valid piece cut at every position
	for k := h.n(120); k > 0 && !h.stop(); k-- {
		p := tame(piece(r))
		if len(p) > 400 && !h.thorough {
			p = p[:400]
		}
		for i := 0; i <= len(p); i++ {
			c := r.Intn(len(es))
			robustCase(h, es, p[:i], func(j int) bool { return j < 3 || j == c })
		}
	}
	for k := h.n(30000); k > 0 && !h.stop(); k-- {
		var b []byte
		switch r.Intn(4) {
		case 0:
			b = make([]byte, r.Intn(24))
			for i := range b {
				b[i] = tagPool[r.Intn(len(tagPool))]
				if r.Intn(2) == 0 {
					b[i] = byte(r.Intn(8))
				}
			}
		case 1:
			b = mutate(r, dropOne(r, piece(r)))
		case 2:
			b = dropOne(r, piece(r))
		default:
			b = mutate(r, piece(r))
		}
		b = tame(b)
		c, d := r.Intn(len(es)), r.Intn(len(es))
		robustCase(h, es, b, func(j int) bool { return j < 3 || j == c || j == d })
	}
}

func c08(h *H) {
	h.rule = "decode entry points on all inputs of at most 2 octets, truncations and structural mutations of valid encodings, and random octets; distinct = distinct (entry point, input)"
	robust(h)
	r := h.rng
	s := []entry{s101Entry()}
	for k := h.n(3000); k > 0 && !h.stop(); k-- {
		b := mutate(r, piece(r))
		var w []byte
		for i := r.Intn(4); i >= 0; i-- {
			fr := []byte{0, 0x0e, 0, 1, byte(r.Intn(256)), 1, 2, 0x1f, 2}
			if r.Intn(2) == 0 {
				fr = append(fr[:4:4], []byte{0xc0, 1, 2, 0x1f, 2}...)
			}
			fr = append(fr[:r.Intn(10):9], b...)
			c := ^crc(fr)
			fr = append(fr, byte(c), byte(c>>8))
			w = append(w, 0xfe)
			for _, x := range fr {
				if x >= 0xf8 {
					w = append(w, 0xfd, x^0x20)
				} else {
					w = append(w, x)
				}
			}
			w = append(w, 0xff)
		}
		if r.Intn(3) == 0 {
			w = mutate(r, w)
		}
		robustCase(h, s, w, func(int) bool { return true })
	}
}

func alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// hugeLen rewrites one primitive of valid BER (with all containers in indefinite form) to declare a huge length.
func hugeLen(r *rand.Rand, b []byte) ([]byte, bool) {
	ns, e := parseAll(b)
	if e != nil {
		return nil, false
	}
	var prims []*node
	var walk func(n *node)
	walk = func(n *node) {
		if !n.cons {
			prims = append(prims, n)
		}
		for _, k := range n.kids {
			walk(k)
		}
	}
	for _, n := range ns {
		walk(n)
	}
	if len(prims) == 0 {
		return nil, false
	}
	t := prims[r.Intn(len(prims))]
	l := [][]byte{{0x84, 0x0f, 0xff, 0xff, 0xff}, {0x84, 0x7f, 0xff, 0xff, 0xff}, {0x84, 0xff, 0xff, 0xff, 0xff}, {0x83, 0xff, 0xff, 0xff}, {0x84, 0x04, 0, 0, 0}}[r.Intn(5)]
	var enc func(n *node) []byte
	enc = func(n *node) []byte {
		if !n.cons {
			if n == t {
				return cat([]byte{n.tag}, l, n.body)
			}
			return tlv(n.tag, n.body)
		}
		var c []byte
		for _, k := range n.kids {
			c = append(c, enc(k)...)
		}
		return indef(n.tag, c)
	}
	var out []byte
	for _, n := range ns {
		out = append(out, enc(n)...)
	}
	return out, true
}

func c09(h *H) {
	h.rule = "decode entry points on all inputs of at most 2 octets, mutated and truncated encodings under a watchdog, and declared lengths far beyond the input with the allocation measured; distinct = distinct (entry point, input)"
	r := h.rng
	es := entries(r)
	// the recorded exception
	if alloc(func() { asn1.NewASNReader([]byte{0x60, 0x83, 0x7f, 0xff, 0xff, 0}).ReadSequenceStart(0x60) }) > 1<<20 {
		fmt.Println("VERIF-KNOWN ASNReader.NewReader allocates the declared container length (up to 4 GB) before looking at what remains: 60 83 7f ff ff 00 allocates 8 MB")
	}
	for k := h.n(1500); k > 0 && !h.stop(); k-- {
		var p []byte
		if r.Intn(3) == 0 {
			p = rValue(r).ber()
		} else {
			p = piece(r)
		}
		b, ok := hugeLen(r, p)
		if !ok {
			continue
		}
		for i, e := range es {
			if i > 2 && r.Intn(4) > 0 {
				continue
			}
			if b[1] != 0x80 && (!strings.HasPrefix(e.name, "Read") || e.name == "ReadSequenceStart") {
				continue // opens the primitive as a container: the recorded exception
			}
			e := e
			h.run(func() string { return fmt.Sprintf("%s on %s", e.name, hx(b)) }, func() {
				n := alloc(func() { e.f(b) })
				if n > 3<<20+uint64(2000*len(b)) {
					h.failf("%s allocates beyond the input: %d octets for an input of %d octets: %s", e.name, n, len(b), hx(b))
				}
			})
		}
	}
	robust(h)
	// long flat and deep inputs
	for k := 0; k < 40 && !h.stop(); k++ {
		unit := [][]byte{{0xa0, 0x80}, {0x64, 0x80}, {0x30, 0x80}, {0, 0}, {0x63, 0x80, 0xa0, 0x80, 2, 1, 1, 0, 0}, {0xa0, 0x80, 0x63, 0x80, 0xa0, 0x80, 2, 1, 1, 0, 0, 0xa2, 0x80, 0x64, 0x80}, {2, 1, 1}, {0xa0, 2, 2, 0}, {0xff}, {0x80}}[k%10]
		var b []byte
		if k%3 == 0 {
			b = []byte{0x60, 0x80, 0x6b, 0x80}
		} else if k%3 == 1 {
			b = []byte{0x63, 0x80, 0xa0, 0x80, 2, 1, 1, 0, 0, 0xa2, 0x80, 0x64, 0x80}
		}
		for len(b) < 3000 {
			b = append(b, unit...)
		}
		robustCase(h, es, b, func(int) bool { return true })
	}
}
