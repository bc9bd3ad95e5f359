package main

import (
	"fmt"
	"math/big"
	"math/rand"
)

// ---- independent BER oracle

func lenOctets(n int) []byte {
	if n < 128 {
		return []byte{byte(n)}
	}
	var b []byte
	for m := n; m > 0; m >>= 8 {
		b = append([]byte{byte(m)}, b...)
	}
	return append([]byte{0x80 | byte(len(b))}, b...)
}

// intOctets: shortest two's complement octets, computed with big integers.
func intOctets(i int64) []byte {
	v := big.NewInt(i)
	for n := 1; ; n++ {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		neg := new(big.Int).Neg(lim)
		if v.Cmp(lim) < 0 && v.Cmp(neg) >= 0 {
			m := new(big.Int).Set(v)
			if m.Sign() < 0 {
				m.Add(m, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
			}
			b := m.Bytes()
			for len(b) < n {
				b = append([]byte{0}, b...)
			}
			return b
		}
	}
}

func oidOctets(arcs []int32) []byte {
	var out []byte
	for _, a := range arcs {
		var e []byte
		x := uint32(a)
		e = append(e, byte(x%128))
		for x /= 128; x > 0; x /= 128 {
			e = append([]byte{byte(x%128) + 128}, e...)
		}
		out = append(out, e...)
	}
	return out
}

func cat(bs ...[]byte) []byte {
	out := []byte{}
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func tlv(tag byte, c []byte) []byte { return cat([]byte{tag}, lenOctets(len(c)), c) }

// indef: container of indefinite length
func indef(tag byte, c ...[]byte) []byte {
	return cat([]byte{tag, 0x80}, cat(c...), []byte{0, 0})
}

// box: container of either form
func box(def bool, tag byte, c ...[]byte) []byte {
	if def {
		return tlv(tag, cat(c...))
	}
	return indef(tag, c...)
}

func app(n int) byte { return 0x60 | byte(n) }
func ctx(n int) byte { return 0xA0 | byte(n) }

func tInt(i int64) []byte   { return tlv(2, intOctets(i)) }
func tStr(s string) []byte  { return tlv(12, []byte(s)) }
func tBits(b []byte) []byte { return tlv(3, b) }
func tOID(a []int32) []byte { return tlv(13, oidOctets(a)) }
func tBool(b bool) []byte {
	if b {
		return []byte{1, 1, 0xff}
	}
	return []byte{1, 1, 0}
}

// node is a parsed BER value
type node struct {
	tag  byte
	def  bool
	cons bool
	body []byte // primitive contents
	kids []*node
	raw  []byte
}

// parseBER parses exactly one value; constructed values may be definite or indefinite; returns octets used.
func parseBER(b []byte) (*node, int, error) {
	if len(b) < 2 {
		return nil, 0, fmt.Errorf("truncated header")
	}
	n := &node{tag: b[0], cons: b[0]&0x20 != 0}
	if b[0]&0x1f == 0x1f {
		return nil, 0, fmt.Errorf("long tag")
	}
	p := 1
	l := -1
	switch {
	case b[1] < 128:
		l = int(b[1])
		p = 2
	case b[1] == 128:
		p = 2
	default:
		k := int(b[1] & 0x7f)
		if k > 4 || len(b) < 2+k {
			return nil, 0, fmt.Errorf("bad length")
		}
		l = 0
		for i := 0; i < k; i++ {
			l = l<<8 | int(b[2+i])
		}
		p = 2 + k
	}
	if l >= 0 {
		n.def = true
		if len(b) < p+l {
			return nil, 0, fmt.Errorf("truncated contents of tag %02x: %d of %d octets", b[0], len(b)-p, l)
		}
		c := b[p : p+l]
		if n.cons {
			for q := 0; q < len(c); {
				k, u, e := parseBER(c[q:])
				if e != nil {
					return nil, 0, e
				}
				n.kids = append(n.kids, k)
				q += u
			}
		} else {
			n.body = c
		}
		n.raw = b[:p+l]
		return n, p + l, nil
	}
	if !n.cons {
		return nil, 0, fmt.Errorf("indefinite primitive %02x", b[0])
	}
	for {
		if len(b) >= p+2 && b[p] == 0 && b[p+1] == 0 {
			n.raw = b[:p+2]
			return n, p + 2, nil
		}
		if p >= len(b) {
			return nil, 0, fmt.Errorf("container %02x is not closed", b[0])
		}
		k, u, e := parseBER(b[p:])
		if e != nil {
			return nil, 0, e
		}
		n.kids = append(n.kids, k)
		p += u
	}
}

func parseAll(b []byte) ([]*node, error) {
	var out []*node
	for p := 0; p < len(b); {
		n, u, e := parseBER(b[p:])
		if e != nil {
			return out, e
		}
		out = append(out, n)
		p += u
	}
	return out, nil
}

func (n *node) String() string {
	if n == nil {
		return "nil"
	}
	if !n.cons {
		return fmt.Sprintf("%02x:%x", n.tag, n.body)
	}
	s := fmt.Sprintf("%02x{", n.tag)
	for i, k := range n.kids {
		if i > 0 {
			s += " "
		}
		s += k.String()
	}
	return s + "}"
}

// norm: the structure of a value, independent of the length forms of its containers.
func norm(b []byte) (string, error) {
	ns, e := parseAll(b)
	if e != nil {
		return "", e
	}
	s := ""
	for _, n := range ns {
		s += n.String()
	}
	return s, nil
}

// ---- value generators

func rBytes(r *rand.Rand, max int) []byte {
	n := r.Intn(max + 1)
	b := make([]byte, n)
	switch r.Intn(5) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = byte(0xF8 + r.Intn(8))
		}
	default:
		r.Read(b)
	}
	return b
}

func rLen(r *rand.Rand) int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return 120 + r.Intn(20)
	case 3:
		return 250 + r.Intn(12)
	default:
		return r.Intn(40)
	}
}

func rStr(r *rand.Rand) string {
	b := make([]byte, rLen(r))
	r.Read(b)
	if r.Intn(4) == 0 {
		for i := range b {
			b[i] = 0
		}
	}
	return string(b)
}

func rInt64(r *rand.Rand) int64 {
	k := uint(r.Intn(65))
	var v int64
	if k < 64 {
		v = int64(r.Uint64() & (1<<k - 1))
	} else {
		v = int64(r.Uint64())
	}
	switch r.Intn(4) {
	case 0:
		if k > 0 && k < 64 {
			v = int64(1)<<(k-1) + int64(r.Intn(5)-2)
		}
	case 1:
		v = -v
	case 2:
		v = ^v
	}
	return v
}

func rInt32(r *rand.Rand) int32 {
	v := rInt64(r)
	return int32(v >> uint(r.Intn(2)*32))
}

func rArc(r *rand.Rand) int32 {
	k := uint(r.Intn(32))
	v := int32(r.Uint32()&(1<<k-1)) & 0x7fffffff
	if r.Intn(3) == 0 {
		s := uint(7 * r.Intn(5))
		v = int32(int64(1)<<s+int64(r.Intn(3)-1)) & 0x7fffffff
	}
	return v
}

func rOID(r *rand.Rand) []int32 {
	n := r.Intn(6)
	if r.Intn(12) == 0 {
		n = 60 + r.Intn(30)
	}
	o := make([]int32, n)
	for i := range o {
		o[i] = rArc(r)
	}
	return o
}

func eqOID(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
