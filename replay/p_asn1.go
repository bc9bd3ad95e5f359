package main

import (
	"bytes"
	"fmt"
	"math"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
)

func init() {
	props["C01"] = c01
	props["C02"] = c02
	props["C03"] = c03
	props["C04"] = c04
	props["C05"] = c05
	props["C06"] = c06
	props["C07"] = c07
}

// written runs the writes on a writer that already holds pre and returns what they added.
func written(pre []byte, f func(w *asn1.ASNWriter) errors.Error) ([]byte, error) {
	w := asn1.NewASNWriter()
	for _, b := range pre {
		w.WriteByte(b)
	}
	if e := f(w); e != nil {
		return nil, e.Message
	}
	out := make([]byte, w.Len())
	if len(out) > 0 {
		w.Read(out)
	}
	if !bytes.HasPrefix(out, pre) {
		return nil, fmt.Errorf("earlier buffer contents changed: %x", out)
	}
	return out[len(pre):], nil
}

func c01(h *H) {
	h.rule = "each integer once per tag/width; distinct = distinct integers"
	one := func(i int64, tag byte, suf []byte) {
		h.run(func() string { return fmt.Sprint("int ", i, " tag ", tag) }, func() {
			want := tlv(2, intOctets(i))
			chk := func(name string, want []byte, f func(w *asn1.ASNWriter) errors.Error) {
				got, e := written(suf, f)
				if e != nil || !bytes.Equal(got, want) {
					h.failf("%s: value %d wrote %x (%v), want %x", name, i, got, e, want)
				}
			}
			chk("WriteInt64", want, func(w *asn1.ASNWriter) errors.Error { return w.WriteInt64(i) })
			chk("WriteInt64Tag", tlv(tag, intOctets(i)), func(w *asn1.ASNWriter) errors.Error { return w.WriteInt64Tag(i, tag) })
			a := asn1.NewASNReader(cat(want, suf))
			v, e := a.ReadInt64()
			if e != nil || v != i || a.Len() != len(suf) {
				h.failf("ReadInt64: %x followed by %x reads %d err %v, %d octets left, want %d and %d", want, suf, v, e != nil, a.Len(), i, len(suf))
			}
			if i >= math.MinInt32 && i <= math.MaxInt32 {
				chk("WriteInt", want, func(w *asn1.ASNWriter) errors.Error { return w.WriteInt(int(i)) })
				chk("WriteIntTag", tlv(tag, intOctets(i)), func(w *asn1.ASNWriter) errors.Error { return w.WriteIntTag(int(i), tag) })
				chk("WriteEnum", tlv(10, intOctets(i)), func(w *asn1.ASNWriter) errors.Error { return w.WriteEnum(int(i)) })
				a := asn1.NewASNReader(cat(want, suf))
				v, e := a.ReadInt()
				if e != nil || int64(v) != i || a.Len() != len(suf) {
					h.failf("ReadInt: %x followed by %x reads %d err %v, %d octets left, want %d and %d", want, suf, v, e != nil, a.Len(), i, len(suf))
				}
			}
		})
	}
	for i := int64(-70000); i <= 70000; i++ {
		one(i, 2, nil)
		if h.stop() {
			return
		}
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-3); d <= 3; d++ {
			v := int64(uint64(1)<<k) + d
			for _, s := range [][]byte{nil, {0}, {0xff}, {0x80, 0, 0}} {
				one(v, byte(k*5), s)
				one(-v, byte(k*3), s)
				one(^v, 2, s)
				one(v|0xff, 2, s)
				one(v&^0xff, 2, s)
			}
		}
	}
	for n := h.n(200000); n > 0 && !h.stop(); n-- {
		one(rInt64(h.rng), byte(h.rng.Intn(256)), rBytes(h.rng, 4))
	}
}

func c02(h *H) {
	h.rule = "content lengths on the writing side, length octet strings on the reading side; distinct = distinct inputs"
	wr := func(n int) {
		h.run(func() string { return fmt.Sprint("write length ", n) }, func() {
			b := make([]byte, n)
			if n > 0 {
				b[n-1] = 0x7e
			}
			got, e := written([]byte{7}, func(w *asn1.ASNWriter) errors.Error { return w.WriteBuffer(b, 3) })
			want := cat([]byte{3}, lenOctets(n))
			if e != nil || !bytes.HasPrefix(got, want) || len(got) != len(want)+n {
				h.failf("WriteBuffer: %d octets: header %s (%v), want %x", n, hx(got[:min(len(got), 8)]), e, want)
			}
			s := string(b)
			got, e = written(nil, func(w *asn1.ASNWriter) errors.Error { return w.WriteString(s) })
			want[0] = 12
			if e != nil || !bytes.HasPrefix(got, want) || len(got) != len(want)+n {
				h.failf("WriteString: %d octets: header %s (%v), want %x", n, hx(got[:min(len(got), 8)]), e, want)
			}
		})
	}
	rd := func(in []byte) {
		h.run(func() string { return "ReadLength " + hx(in) }, func() {
			a := asn1.NewASNReader(in)
			n, e := a.ReadLength()
			want, used, ok := oLen(in)
			if ok != (e == nil) {
				h.failf("ReadLength: %s err=%v, want ok=%v", hx(in), e != nil, ok)
			} else if ok && (n != want || len(in)-a.Len() != used) {
				h.failf("ReadLength: %s gives %d using %d, want %d using %d", hx(in), n, len(in)-a.Len(), want, used)
			}
		})
	}
	for n := 0; n < 700; n++ {
		wr(n)
	}
	for _, n := range []int{32767, 32768, 65534, 65535, 65536, 65537, 100000, 1<<20 - 1, 1 << 20, 1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1<<24 + 300} {
		wr(n)
	}
	rd(nil)
	for a := 0; a < 256; a++ {
		rd([]byte{byte(a)})
		for b := 0; b < 256; b++ {
			rd([]byte{byte(a), byte(b)})
		}
		for n := 0; n < 300; n++ {
			x := make([]byte, 2+h.rng.Intn(8))
			h.rng.Read(x)
			x[0] = byte(a)
			if n%3 == 0 {
				x[1] = byte(h.rng.Intn(2) * 255)
			}
			rd(x)
		}
	}
	for n := h.n(50000); n > 0 && !h.stop(); n-- {
		x := make([]byte, 1+h.rng.Intn(7))
		h.rng.Read(x)
		x[0] = byte(0x80 + h.rng.Intn(7))
		rd(x)
	}
	// larger contents written through every tag-length-value writer keep length and contents consistent
	for n := h.n(300); n > 0 && !h.stop(); n-- {
		wr(h.rng.Intn(70000))
	}
}

// oLen: oracle of length octets: value (-1 indefinite), octets used, ok
func oLen(in []byte) (int, int, bool) {
	if len(in) == 0 {
		return 0, 0, false
	}
	if in[0] < 128 {
		return int(in[0]), 1, true
	}
	k := int(in[0]) - 128
	if k == 0 {
		return -1, 1, true
	}
	if k > 4 || len(in) < 1+k {
		return 0, 0, false
	}
	v := 0
	for i := 1; i <= k; i++ {
		v = v*256 + int(in[i])
	}
	return v, 1 + k, true
}

func c03(h *H) {
	h.rule = "strings/buffers/booleans written and read back; distinct = distinct contents"
	one := func(b, suf []byte) {
		h.run(func() string { return "content " + hx(b) + " followed by " + hx(suf) }, func() {
			keep := append([]byte{}, b...)
			got, e := written(suf, func(w *asn1.ASNWriter) errors.Error { return w.WriteString(string(b)) })
			if want := tlv(12, b); e != nil || !bytes.Equal(got, want) {
				h.failf("WriteString: %s wrote %s (%v), want %s", hx(b), hx(got), e, hx(want))
			}
			got, e = written(suf, func(w *asn1.ASNWriter) errors.Error { return w.WriteBuffer(b, 3) })
			if want := tlv(3, b); e != nil || !bytes.Equal(got, want) {
				h.failf("WriteBuffer: %s wrote %s (%v), want %s", hx(b), hx(got), e, hx(want))
			}
			a := asn1.NewASNReader(cat(tlv(12, b), suf))
			s, er := a.ReadString()
			if er != nil || s != string(b) || a.Len() != len(suf) {
				h.failf("ReadString: %s reads %s err=%v left %d want %d", hx(b), hx([]byte(s)), er != nil, a.Len(), len(suf))
			}
			a = asn1.NewASNReader(cat(tlv(3, b), suf))
			r, er := a.ReadBitString()
			if er != nil || !bytes.Equal(r, b) || a.Len() != len(suf) {
				h.failf("ReadBitString: %s reads %s err=%v left %d want %d", hx(b), hx(r), er != nil, a.Len(), len(suf))
			}
			if !bytes.Equal(keep, b) {
				h.failf("WriteBuffer changed its argument: %s", hx(keep))
			}
		})
	}
	for _, v := range []bool{true, false} {
		for _, suf := range [][]byte{nil, {0, 0}, {1, 1, 255}} {
			h.run(func() string { return fmt.Sprint("bool ", v) }, func() {
				got, e := written(suf, func(w *asn1.ASNWriter) errors.Error { return w.WriteBoolean(v) })
				if e != nil || !bytes.Equal(got, tBool(v)) {
					h.failf("WriteBoolean: %v wrote %x want %x", v, got, tBool(v))
				}
				a := asn1.NewASNReader(cat(tBool(v), suf))
				r, er := a.ReadBoolean()
				if er != nil || r != v || a.Len() != len(suf) {
					h.failf("ReadBoolean: %x reads %v err=%v left %d", tBool(v), r, er != nil, a.Len())
				}
			})
		}
	}
	for b := 1; b < 256; b++ {
		a := asn1.NewASNReader([]byte{1, 1, byte(b), 9})
		if r, er := a.ReadBoolean(); er != nil || !r || a.Len() != 1 {
			h.failf("ReadBoolean: 0101%02x reads %v err=%v", b, r, er != nil)
		}
	}
	for n := 0; n < 600; n++ {
		b := make([]byte, n)
		one(b, []byte{0, 0})
		h.rng.Read(b)
		one(b, nil)
	}
	for _, n := range []int{65534, 65535, 65536, 65537, 70000, 1<<24 - 1, 1 << 24, 1<<24 + 5} {
		b := make([]byte, n)
		h.rng.Read(b)
		one(b, []byte{1})
	}
	for i := 0; i < 256; i++ {
		one([]byte{byte(i)}, []byte{byte(i)})
		one([]byte{0, byte(i)}, nil)
		one([]byte{byte(i), 0}, nil)
		one([]byte("a\x00\xff"+string([]byte{byte(i)})+"\x00"), nil)
	}
	for n := h.n(40000); n > 0 && !h.stop(); n-- {
		m := 40
		if n%50 == 0 {
			m = 5000
		}
		one(rBytes(h.rng, m), rBytes(h.rng, 5))
	}
}

func c04(h *H) {
	h.rule = "arc sequences written and read back; distinct = distinct sequences"
	one := func(o []int32, suf []byte) {
		h.run(func() string { return fmt.Sprint("oid ", o) }, func() {
			keep := append([]int32{}, o...)
			want := tOID(o)
			got, e := written(suf, func(w *asn1.ASNWriter) errors.Error { return w.WriteRelativeOID(o) })
			if e != nil || !bytes.Equal(got, want) {
				h.failf("WriteRelativeOID: %v wrote %s (%v), want %s", o, hx(got), e, hx(want))
			}
			a := asn1.NewASNReader(cat(want, suf))
			r, er := a.ReadOID(13)
			if er != nil || !eqOID(r, o) || a.Len() != len(suf) {
				h.failf("ReadOID: %s reads %v err=%v left %d, want %v left %d", hx(want), r, er != nil, a.Len(), o, len(suf))
			}
			if !eqOID(keep, o) {
				h.failf("WriteRelativeOID changed its argument: %v", keep)
			}
		})
	}
	one(nil, nil)
	for a := int32(0); a < 70000; a++ {
		one([]int32{a}, nil)
	}
	var edge []int32
	for k := uint(0); k <= 31; k++ {
		for d := int64(-2); d <= 2; d++ {
			if v := int64(1)<<k + d; v >= 0 && v <= math.MaxInt32 {
				edge = append(edge, int32(v))
			}
		}
	}
	for _, a := range edge {
		one([]int32{a}, []byte{0x80, 0})
		one([]int32{1, a, 2}, nil)
		for _, b := range edge {
			one([]int32{a, b}, []byte{0})
		}
	}
	for _, n := range []int{20, 63, 64, 126, 127, 128, 129, 255, 256, 257, 1000, 30000} {
		o := make([]int32, n)
		one(o, nil)
		for i := range o {
			o[i] = rArc(h.rng)
		}
		one(o, nil)
	}
	for n := h.n(100000); n > 0 && !h.stop(); n-- {
		one(rOID(h.rng), rBytes(h.rng, 3))
	}
}

// c05: every typed read against the oracle on arbitrary octets
func c05(h *H) {
	h.rule = "input octets given to all seven typed reads; distinct = distinct inputs"
	one := func(in []byte) {
		h.run(func() string { return "input " + hx(in) }, func() {
			// header
			chk := func(name string, tag byte, minL, maxL int, f func(a *asn1.ASNReader) (interface{}, errors.Error), val func(c []byte) (interface{}, bool)) {
				a := asn1.NewASNReader(append([]byte{}, in...))
				v, e := f(a)
				if len(in) == 0 || in[0] != tag {
					if e == nil {
						h.failf("%s: %s does not start with tag %d but reads %v without error", name, hx(in), tag, v)
					}
					return
				}
				l, u, ok := oLen(in[1:])
				if !ok {
					if e == nil {
						h.failf("%s: %s has a bad length but reads %v without error", name, hx(in), v)
					}
					return
				}
				if l < 0 { // indefinite
					if minL > 0 {
						if e == nil {
							h.failf("%s: %s has indefinite length but reads %v without error", name, hx(in), v)
						}
					}
					return
				}
				if l < minL || l > maxL {
					if e == nil {
						h.failf("%s: %s has invalid length %d but reads %v without error", name, hx(in), l, v)
					}
					return
				}
				rest := in[1+u:]
				if l > len(rest) {
					if e == nil {
						h.failf("%s: %s is truncated but reads %v without error", name, hx(in), v)
					}
					return
				}
				want, ok := val(rest[:l])
				if e == nil {
					if !ok {
						h.failf("%s: %s has invalid contents but reads %v without error", name, hx(in), v)
					} else if fmt.Sprint(v) != fmt.Sprint(want) {
						h.failf("%s: %s reads %v, want %v", name, hx(in), v, want)
					} else if a.Len() != len(rest)-l {
						h.failf("%s: %s leaves %d octets, want %d", name, hx(in), a.Len(), len(rest)-l)
					}
				} else if ok {
					h.failf("%s: %s is valid (%v) but is rejected: %v", name, hx(in), want, e.Message)
				}
			}
			big := 1 << 40
			chk("ReadBoolean", 1, 1, 1, func(a *asn1.ASNReader) (interface{}, errors.Error) { return a.ReadBoolean() },
				func(c []byte) (interface{}, bool) { return c[0] != 0, true })
			sint := func(c []byte) (interface{}, bool) {
				v := int64(int8(c[0]))
				for _, b := range c[1:] {
					v = v<<8 | int64(b)
				}
				return v, true
			}
			chk("ReadInt", 2, 1, 4, func(a *asn1.ASNReader) (interface{}, errors.Error) { return a.ReadInt() }, sint)
			chk("ReadInt64", 2, 1, 8, func(a *asn1.ASNReader) (interface{}, errors.Error) { return a.ReadInt64() }, sint)
			chk("ReadString", 12, 0, big, func(a *asn1.ASNReader) (interface{}, errors.Error) { return a.ReadString() },
				func(c []byte) (interface{}, bool) { return string(c), true })
			chk("ReadBitString", 3, 0, big, func(a *asn1.ASNReader) (interface{}, errors.Error) {
				b, e := a.ReadBitString()
				return hx(b), e
			}, func(c []byte) (interface{}, bool) { return hx(c), true })
			for _, tag := range []byte{13, 6} {
				chk("ReadOID", tag, 0, big, func(a *asn1.ASNReader) (interface{}, errors.Error) {
					o, e := a.ReadOID(tag)
					return fmt.Sprint([]int32(o)), e
				}, func(c []byte) (interface{}, bool) {
					var arcs []int32
					v, open := uint64(0), false
					for _, b := range c {
						v = v<<7 | uint64(b&0x7f)
						if v > math.MaxInt32 {
							return nil, false
						}
						open = b&0x80 != 0
						if !open {
							arcs = append(arcs, int32(v))
							v = 0
						}
					}
					return fmt.Sprint(arcs), !open
				})
			}
			// reals: only the header conditions
			a := asn1.NewASNReader(in)
			v, e := a.ReadReal()
			if e == nil {
				if len(in) == 0 || in[0] != 9 {
					h.failf("ReadReal: %s does not start with tag 9 but reads %v without error", hx(in), v)
				} else if l, u, ok := oLen(in[1:]); !ok {
					h.failf("ReadReal: %s has a bad length but reads %v without error", hx(in), v)
				} else if l >= 0 && l > len(in)-1-u {
					h.failf("ReadReal: %s is truncated but reads %v without error", hx(in), v)
				}
			}
			// a tree value is as strict
		})
	}
	one(nil)
	tags := []byte{1, 2, 3, 6, 9, 12, 13, 0, 4, 0x30}
	for t := 0; t < 256; t++ {
		one([]byte{byte(t)})
		for _, l := range []byte{0, 1, 2, 4, 0x80, 0x81, 0x7f} {
			one([]byte{byte(t), l})
			one([]byte{byte(t), l, 1})
			one([]byte{byte(t), l, 1, 0, 0})
			one([]byte{byte(t), l, 0x7f, 1, 2, 3, 4, 5, 6, 7, 8, 9})
		}
	}
	for _, t := range tags {
		for l := 0; l < 256; l++ {
			one([]byte{t, byte(l)})
			for x := 0; x < 256; x += 5 {
				one([]byte{t, byte(l), byte(x)})
				one([]byte{t, byte(l), byte(x), 0x81})
				one([]byte{t, byte(l), byte(x), 0x01, 0, 0})
			}
		}
		// every valid body length and every truncation of it
		for l := 0; l <= 12; l++ {
			for cut := 0; cut <= l; cut++ {
				for rep := 0; rep < 6; rep++ {
					b := make([]byte, cut)
					h.rng.Read(b)
					one(cat([]byte{t, byte(l)}, b))
					one(cat([]byte{t, 0x81, byte(l)}, b))
					one(cat([]byte{t, 0x84, 0, 0, 0, byte(l)}, b))
					for i := range b {
						b[i] |= 0x80
					}
					one(cat([]byte{t, byte(l)}, b))
				}
			}
		}
		for l := 120; l < 135; l++ {
			b := make([]byte, l)
			for i := range b {
				b[i] = 0x11
			}
			one(tlv(t, b))
			one(tlv(t, b)[:l])
			one(cat([]byte{t, 0x82, 0, byte(l)}, b[:l-1]))
		}
	}
	for n := h.n(150000); n > 0 && !h.stop(); n-- {
		in := rBytes(h.rng, 14)
		if len(in) > 1 {
			in[0] = tags[h.rng.Intn(7)]
			switch h.rng.Intn(3) {
			case 0:
				in[1] = byte(len(in) - 2)
			case 1:
				in[1] = byte(h.rng.Intn(14))
			}
		}
		one(in)
	}
}

func c06(h *H) {
	h.rule = "float64 bit patterns written and read back; distinct = distinct patterns"
	one := func(bits uint64, suf []byte) {
		h.run(func() string { return fmt.Sprintf("float bits %016x (%g)", bits, math.Float64frombits(bits)) }, func() {
			x := math.Float64frombits(bits)
			got, e := written(suf, func(w *asn1.ASNWriter) errors.Error { return w.WriteReal(x) })
			if e != nil {
				h.failf("WriteReal: %016x fails: %v", bits, e)
				return
			}
			a := asn1.NewASNReader(cat(got, suf))
			y, er := a.ReadReal()
			if er != nil {
				h.failf("ReadReal: %016x written as %x is rejected: %v", bits, got, er.Message)
				return
			}
			ok := math.Float64bits(x) == math.Float64bits(y) || (x == 0 && y == 0) || (math.IsNaN(x) && math.IsNaN(y))
			if !ok {
				h.failf("real: %016x (%g) written as %x reads back as %016x (%g)", bits, x, got, math.Float64bits(y), y)
			} else if a.Len() != len(suf) {
				h.failf("real: %016x written as %x: %d octets left, want %d", bits, got, a.Len(), len(suf))
			} else if got[0] != 9 || int(got[1]) != len(got)-2 {
				h.failf("real: %016x written as %x is not a REAL value of its length", bits, got)
			}
		})
	}
	// all exponents with edge significands, both signs
	for e := uint64(0); e < 2048; e++ {
		ms := []uint64{0, 1, 2, 1<<52 - 1, 1 << 51, 1<<51 + 1, 0x000fedcba9876543}
		for k := uint(0); k < 52; k += 3 {
			ms = append(ms, 1<<k)
		}
		for i := 0; i < 4; i++ {
			ms = append(ms, h.rng.Uint64()&(1<<52-1))
		}
		for _, m := range ms {
			one(e<<52|m, nil)
			one(1<<63|e<<52|m, []byte{0, 0})
		}
		if h.stop() {
			return
		}
	}
	for k := uint(0); k < 52; k++ {
		for j := uint(0); j <= k; j++ {
			one(1<<k|1<<j, nil)
			one(0x3ff<<52|1<<k|1<<j, nil)
			one(0x400<<52|1<<k|1<<j, nil)
		}
	}
	for i := -3000; i < 3000; i++ {
		one(math.Float64bits(float64(i)), nil)
		one(math.Float64bits(float64(i)/10), nil)
		one(math.Float64bits(float64(i)*1e9), nil)
	}
	for n := h.n(400000); n > 0 && !h.stop(); n-- {
		b := h.rng.Uint64()
		switch n % 4 {
		case 1:
			b = b &^ (1<<uint(h.rng.Intn(53)) - 1) // trailing zeros
		case 2:
			b = b & (1<<63 | 1<<uint(h.rng.Intn(53)) - 1) // subnormals
		}
		one(b, rBytes(h.rng, 2))
	}
}

// c07: histories of reader operations against a model of nested extents
func c07(h *H) {
	h.rule = "histories of container-open/read/peek/end operations over generated inputs; distinct = distinct (input, history)"
	type rd struct {
		a        *asn1.ASNReader
		pos, end *int // shared by readers that are the same object
		start    int
	}
	known := false
	// the recorded exception: 0 < remaining < declared is padded with zeros
	{
		a := asn1.NewASNReader([]byte{0x60, 5, 1, 2})
		if _, r, e := a.ReadSequenceStart(0x60); e == nil && r != nil && r.Len() == 5 {
			known = true
			fmt.Println("VERIF-KNOWN ASNReader.NewReader pads a container whose declared length exceeds the (non-empty) remaining input with zero octets instead of failing: 60 05 01 02 opens a 5 octet reader")
		}
	}
	for _, in := range [][]byte{{0x60, 5}, {0x60, 0x81, 1}, {0x60, 0x84, 1, 0, 0, 0}, {0x60}, {}, {0x60, 0x85, 1, 1, 1, 1, 1}, {0x60, 0x82, 1}, {0x61, 0}, {0x61, 0x80}} {
		h.run(func() string { return "open " + hx(in) }, func() {
			_, _, e := asn1.NewASNReader(in).ReadSequenceStart(0x60)
			if e == nil {
				h.failf("ReadSequenceStart: tag 60 on %s does not fail", hx(in))
			}
		})
	}
	if !known {
		h.run(func() string { return "overlong" }, func() {
			_, _, e := asn1.NewASNReader([]byte{0x60, 5, 1, 2}).ReadSequenceStart(0x60)
			if e == nil {
				h.failf("ReadSequenceStart: a declared length larger than what remains is not an error")
			}
		})
	}
	var gen func(d int) []byte
	gen = func(d int) []byte {
		var out []byte
		for k := h.rng.Intn(4); k >= 0; k-- {
			switch h.rng.Intn(7) {
			case 0:
				out = append(out, tInt(rInt64(h.rng))...)
			case 1:
				out = append(out, tStr("x")...)
			case 2:
				out = append(out, byte(h.rng.Intn(256)))
			default:
				if d > 0 {
					c := gen(d - 1)
					if h.rng.Intn(8) == 0 {
						c = nil
					}
					switch h.rng.Intn(6) {
					case 0, 1:
						out = append(out, indef(app(h.rng.Intn(3)), c)...)
					case 2:
						out = append(out, app(h.rng.Intn(3)), 0x81, byte(len(c)))
						out = append(out, c...)
					case 3:
						// container with a longer or shorter declared length
						if l := len(c) + h.rng.Intn(3) - 1; l >= 0 && l < 128 {
							out = append(out, app(h.rng.Intn(3)), byte(l))
							out = append(out, c...)
						}
					default:
						out = append(out, tlv(app(h.rng.Intn(3)), c)...)
					}
				} else {
					out = append(out, 0, 0)
				}
			}
		}
		if len(out) > 120 && d < 3 {
			out = out[:120]
		}
		return out
	}
	for n := h.n(60000); n > 0 && !h.stop(); n-- {
		in := gen(3)
		if h.rng.Intn(4) == 0 && len(in) > 0 {
			in = in[:h.rng.Intn(len(in))]
		}
		if h.rng.Intn(4) == 0 && len(in) > 0 {
			in[h.rng.Intn(len(in))] = byte(h.rng.Intn(256))
		}
		hist := ""
		h.run(func() string { return "input " + hx(in) + " history" + hist }, func() {
			p, e := 0, len(in)
			rs := []rd{{asn1.NewASNReader(in), &p, &e, 0}}
			check := func(i int) bool {
				r := rs[i]
				if r.a.Len() != *r.end-*r.pos {
					h.failf("Len: input %s history%s: reader %d has %d octets left, want %d", hx(in), hist, i, r.a.Len(), *r.end-*r.pos)
					return false
				}
				if r.a.TopOffset() != *r.pos {
					h.failf("TopOffset: input %s history%s: reader %d reports offset %d, want %d", hx(in), hist, i, r.a.TopOffset(), *r.pos)
					return false
				}
				return true
			}
			if !check(0) {
				return
			}
			for k := 0; k < 14; k++ {
				i := len(rs) - 1 - h.rng.Intn(min(len(rs), 3))
				r := rs[i]
				rest := in[*r.pos:*r.end]
				switch op := h.rng.Intn(8); op {
				case 0, 1, 2: // open
					tag := app(h.rng.Intn(3))
					if len(rest) > 0 && h.rng.Intn(5) > 0 {
						tag = rest[0]
					}
					l, u, ok := 0, 0, false
					if len(rest) > 0 && rest[0] == tag {
						l, u, ok = oLen(rest[1:])
					}
					if ok && l > 0 && l > len(rest)-1-u && len(rest)-1-u > 0 && known {
						return // the recorded exception
					}
					hist += fmt.Sprintf(" open(%d,%02x)", i, tag)
					nn, a, err := r.a.ReadSequenceStart(tag)
					if !ok || (l > 0 && l > len(rest)-1-u) {
						if err == nil {
							h.failf("ReadSequenceStart: input %s history%s: bad tag or length is not an error", hx(in), hist)
						}
						return
					}
					if err != nil {
						h.failf("ReadSequenceStart: input %s history%s: fails on a good container: %v", hx(in), hist, err.Message)
						return
					}
					if nn != l {
						h.failf("ReadSequenceStart: input %s history%s: length %d want %d", hx(in), hist, nn, l)
						return
					}
					*r.pos += 1 + u
					if l < 0 {
						rs = append(rs, rd{a, r.pos, r.end, 0})
					} else {
						st := *r.pos
						en := st + l
						*r.pos += l
						rs = append(rs, rd{a, &st, &en, 0})
					}
					if !check(len(rs) - 1) {
						return
					}
				case 3, 4:
					hist += fmt.Sprintf(" byte(%d)", i)
					b, err := r.a.ReadByte()
					if (err == nil) != (len(rest) > 0) || (err == nil && b != rest[0]) {
						h.failf("ReadByte: input %s history%s: got %02x err=%v, rest %s", hx(in), hist, b, err != nil, hx(rest))
						return
					}
					if err == nil {
						*r.pos++
					}
				case 5:
					hist += fmt.Sprintf(" peek(%d)", i)
					b, err := r.a.Peek()
					if (err == nil) != (len(rest) > 0) || (err == nil && b != rest[0]) {
						h.failf("Peek: input %s history%s: got %02x err=%v, rest %s", hx(in), hist, b, err != nil, hx(rest))
						return
					}
				case 6:
					hist += fmt.Sprintf(" checkend(%d)", i)
					end, err := r.a.CheckSequenceEnd()
					eoc := len(rest) >= 2 && rest[0] == 0 && rest[1] == 0
					want := len(rest) == 0 || eoc
					if len(rest) == 1 && rest[0] == 0 {
						return // a lone zero: only an error is sensible, position unspecified
					}
					if err != nil || end != want {
						h.failf("CheckSequenceEnd: input %s history%s: %v err=%v, rest %s", hx(in), hist, end, err != nil, hx(rest))
						return
					}
					if eoc {
						*r.pos += 2
					}
				case 7:
					hist += fmt.Sprintf(" end(%d)", i)
					err := r.a.ReadSequenceEnd()
					eoc := len(rest) >= 2 && rest[0] == 0 && rest[1] == 0
					if (err == nil) != (len(rest) == 0 || eoc) {
						h.failf("ReadSequenceEnd: input %s history%s: err=%v, rest %s", hx(in), hist, err != nil, hx(rest))
						return
					}
					if err != nil {
						return
					}
					if eoc {
						*r.pos += 2
					}
				}
				if !check(i) || !check(0) {
					return
				}
			}
		})
	}
	_ = time.Now
}
