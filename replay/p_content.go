package main

import (
	"bytes"
	"fmt"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
)

func init() {
	props["C10"] = c10
	props["C11"] = c11
}

func c10(h *H) {
	h.rule = "histories of set/assign/get on three content values; distinct = distinct histories"
	for n := h.n(60000); n > 0 && !h.stop(); n-- {
		hist := ""
		h.run(func() string { return "history" + hist }, func() {
			cps := []*embertree.ContentParameter{embertree.NewContentParameter(), embertree.NewContentParameter(), {}}
			vs := make([]value, 3)
			for k := 0; k < 1+h.rng.Intn(7); k++ {
				i := h.rng.Intn(3)
				if h.rng.Intn(2) == 0 {
					v := rValue(h.rng)
					hist += fmt.Sprintf(" %d:=%v", i, v)
					v.put(cps[i])
					vs[i] = v
				} else {
					j := h.rng.Intn(3)
					hist += fmt.Sprintf(" %d.Set(%d)", i, j)
					e := cps[i].Set(cps[j])
					want := vs[i].kind == 0 || vs[i].kind == vs[j].kind
					if (e == nil) != want {
						h.failf("Set: history%s: err=%v, types %v <- %v", hist, e != nil, vs[i], vs[j])
						return
					}
					if want && vs[j].kind != 0 {
						vs[i] = vs[j]
					}
				}
				for x := range cps {
					if d := vs[x].diff(cps[x]); d != "" {
						h.failf("value: history%s: value %d should be %v: %s", hist, x, vs[x], d)
						return
					}
				}
			}
		})
	}
}

func c11(h *H) {
	h.rule = "values of all types under all contexts, encoded and decoded; distinct = distinct (value, context)"
	one := func(v value, cx int, suf []byte) {
		h.run(func() string { return fmt.Sprint(v, " in context ", cx, " followed by ", hx(suf)) }, func() {
			cp := embertree.NewContentParameter()
			v.put(cp)
			enc, e := written(suf, func(w *asn1.ASNWriter) errors.Error { return cp.Encode(uint8(cx), w) })
			if e != nil {
				h.failf("Encode: %v in context %d fails: %v", v, cx, e)
				return
			}
			if d := v.diff(cp); d != "" {
				h.failf("Encode changes the value: %v: %s", v, d)
			}
			if v.kind == 0 {
				if len(enc) != 0 {
					h.failf("Encode: an unset value writes %s", hx(enc))
				}
				return
			}
			want := indef(ctx(cx), v.ber())
			ns, err := parseAll(enc)
			if err != nil || len(ns) != 1 {
				h.failf("Encode: %v in context %d writes %s: not one value (%v)", v, cx, hx(enc), err)
				return
			}
			wn, _ := parseAll(want)
			if ns[0].String() != wn[0].String() {
				h.failf("Encode: %v in context %d writes %s, want %s", v, cx, hx(enc), hx(want))
			}
			for form, in := range [][]byte{enc, indef(ctx(cx), v.ber()), tlv(ctx(cx), v.ber()), longForm(ctx(cx), v.ber())} {
				a := asn1.NewASNReader(cat(in, suf))
				r, e := embertree.DecodeValue(a, uint8(cx))
				if e != nil {
					h.failf("DecodeValue: %v from %s (form %d): %v", v, hx(in), form, e.Message)
				} else if d := v.diff(r); d != "" {
					h.failf("DecodeValue: %v from %s (form %d) followed by %s: %s", v, hx(in), form, hx(suf), d)
				} else if a.Len() != len(suf) {
					h.failf("DecodeValue: %v from %s (form %d) leaves %d octets, want %d", v, hx(in), form, a.Len(), len(suf))
				}
			}
		})
	}
	one(value{}, 3, nil)
	for cx := 0; cx <= 30; cx++ {
		for n := 0; n < 30; n++ {
			one(rValue(h.rng), cx, nil)
		}
	}
	for _, l := range []int{127, 128, 255, 256, 65535, 65536} {
		one(value{kind: 1, s: string(make([]byte, l))}, 2, []byte{0, 0})
		one(value{kind: 4, buf: bytes.Repeat([]byte{0xff}, l)}, 2, []byte{1})
		one(value{kind: 6, oid: make([]int32, l)}, 2, []byte{1})
	}
	for n := h.n(50000); n > 0 && !h.stop(); n-- {
		one(rValue(h.rng), h.rng.Intn(31), rBytes(h.rng, 4))
	}
}

func longForm(tag byte, c []byte) []byte {
	n := len(c)
	return cat([]byte{tag, 0x84, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, c)
}
