package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/embertree"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/socket"
)

func init() {
	props["C18"] = c18
	props["C19"] = c19
	props["C20"] = c20
	props["C21"] = c21
	props["C22"] = c22
}

// crc: CRC-16/X.25 register (reflected 0x1021, initial 0xFFFF, before the final complement), bit by bit
func crc(b []byte) uint16 {
	r := uint16(0xffff)
	for _, x := range b {
		r ^= uint16(x)
		for i := 0; i < 8; i++ {
			if r&1 != 0 {
				r = r>>1 ^ 0x8408
			} else {
				r >>= 1
			}
		}
	}
	return r
}

func escape(b []byte) []byte {
	out := []byte{}
	for _, x := range b {
		if x >= 0xf8 {
			out = append(out, 0xfd, x^0x20)
		} else {
			out = append(out, x)
		}
	}
	return out
}

// frame builds a frame around raw (unescaped) contents; bad flips the checksum
func frame(raw []byte, bad uint16) []byte {
	c := ^crc(raw) ^ bad
	return cat([]byte{0xfe}, escape(cat(raw, []byte{byte(c), byte(c >> 8)})), []byte{0xff})
}

func emberFrame(flags byte, payload []byte) []byte {
	return cat([]byte{0, 0x0e, 0, 1, flags, 1, 2, 0x1f, 2}, payload)
}

// parseFrame checks the well-formedness of one frame and returns its raw contents without the checksum
func parseFrame(f []byte) ([]byte, string) {
	if len(f) < 2 || f[0] != 0xfe || f[len(f)-1] != 0xff {
		return nil, "does not start with FE and end with FF"
	}
	var raw []byte
	in := f[1 : len(f)-1]
	for i := 0; i < len(in); i++ {
		b := in[i]
		if b == 0xfd {
			i++
			if i >= len(in) {
				return nil, "ends in an escape byte"
			}
			if in[i] >= 0xf8 {
				return nil, fmt.Sprintf("escaped byte %02x at %d is itself reserved", in[i], i)
			}
			raw = append(raw, in[i]^0x20)
			continue
		}
		if b >= 0xf8 {
			return nil, fmt.Sprintf("unescaped byte %02x at %d", b, i+1)
		}
		raw = append(raw, b)
	}
	if len(raw) < 2 || crc(raw) != 0xf0b8 {
		return nil, "has a wrong checksum"
	}
	return raw[:len(raw)-2], ""
}

func frames(data []byte) ([][]byte, string) {
	l := socket.EncodeMessage(data)
	var out [][]byte
	for i := 0; i < l.Size(); i++ {
		b, e := l.GetBytesAt(i)
		if e != nil {
			return nil, fmt.Sprint("GetBytesAt fails: ", e.Message)
		}
		out = append(out, b)
	}
	return out, ""
}

func rPayload(h *H) []byte {
	r := h.rng
	n := r.Intn(60)
	switch r.Intn(8) {
	case 0:
		n = 1000 + r.Intn(60)
	case 1:
		n = 500 + r.Intn(30)
	case 2:
		n = r.Intn(5000)
	case 3:
		n = 2040 + r.Intn(20)
	}
	b := make([]byte, n)
	switch r.Intn(6) {
	case 0:
		for i := range b {
			b[i] = byte(0xf8 + r.Intn(8))
		}
	case 1:
		for i := range b {
			b[i] = byte(r.Intn(0xf8))
		}
	case 2:
		for i := range b {
			b[i] = byte(0xf0 + r.Intn(16))
		}
	case 3: // mostly plain, the boundary region special
		r.Read(b)
		for i := range b {
			if i > 1015 && i < 1030 && r.Intn(2) == 0 {
				b[i] = 0xff
			} else {
				b[i] &= 0x7f
			}
		}
	default:
		r.Read(b)
	}
	return b
}

func c18(h *H) {
	h.rule = "payloads encoded to frames; distinct = distinct payloads (by length and content)"
	one := func(p []byte) {
		h.run(func() string { return fmt.Sprintf("payload of %d octets %s", len(p), hx(p)) }, func() {
			keep := append([]byte{}, p...)
			fs, d := frames(p)
			if d != "" || len(fs) == 0 {
				h.failf("EncodeMessage: %s gives %d frames %s", hx(p), len(fs), d)
				return
			}
			var sum []byte
			for i, f := range fs {
				raw, d := parseFrame(f)
				if d != "" {
					h.failf("EncodeMessage: frame %d of %d for a payload of %d octets (%s) %s: %s", i, len(fs), len(keep), hx(keep), d, hx(f))
					return
				}
				want := byte(0)
				if len(fs) == 1 {
					want = 0xc0
				} else if i == 0 {
					want = 0x80
				} else if i == len(fs)-1 {
					want = 0x40
				}
				if len(raw) < 9 || !bytes.Equal(raw[:9], emberFrame(want, nil)) {
					h.failf("EncodeMessage: frame %d of %d for %d octets (%s) has header %s, want %x", i, len(fs), len(keep), hx(keep), hx(raw[:min(9, len(raw))]), emberFrame(want, nil))
					return
				}
				sum = append(sum, raw[9:]...)
			}
			if !bytes.Equal(sum, keep) {
				h.failf("EncodeMessage: the frames of a payload of %d octets (%s) carry %d octets %s", len(keep), hx(keep), len(sum), hx(sum))
			}
			if !bytes.Equal(p, keep) {
				h.failf("EncodeMessage: changes its argument %s", hx(keep))
			}
		})
	}
	for i, f := range [][]byte{socket.GetKeepaliveRequest().Bytes(), socket.GetKeepAliveResponse().Bytes()} {
		raw, d := parseFrame(f)
		if d != "" || !bytes.Equal(raw, []byte{0, 0x0e, byte(1 + i), 1}) {
			h.failf("keep-alive frame %d: %s %s", i, hx(f), d)
		}
	}
	for i := 0; i < 65536; i++ {
		one([]byte{byte(i), byte(i >> 8)})
		if h.stop() {
			return
		}
	}
	for n := 0; n < 2200; n++ {
		if n > 40 && n < 500 {
			continue
		}
		b := make([]byte, n)
		one(b)
		for i := range b {
			b[i] = 0xff
		}
		one(b)
		h.rng.Read(b)
		one(b)
		if h.stop() {
			return
		}
	}
	for n := h.n(8000); n > 0 && !h.stop(); n-- {
		one(rPayload(h))
	}
}

type events struct {
	ev []string
}

func newDecoder(e *events) *socket.S101Decoder {
	return socket.NewS101Decoder(
		func(b []byte) errors.Error { e.ev = append(e.ev, "kreq"); return nil },
		func(b []byte) errors.Error { e.ev = append(e.ev, "kresp"); return nil },
		func(b []byte) errors.Error { e.ev = append(e.ev, "msg "+string(b)); return nil },
		func(x errors.Error) { e.ev = append(e.ev, "err") })
}

// show prints events readably
func show(ev []string) string {
	s := ""
	for _, x := range ev {
		if strings.HasPrefix(x, "msg ") {
			s += "[msg " + hx([]byte(x[4:])) + "]"
		} else {
			s += "[" + x + "]"
		}
	}
	return s
}

// oracle decoder state
type odec struct {
	in   []byte
	esc  bool
	open bool // a message is being assembled
	acc  []byte
	ev   []string
}

func (o *odec) feed(b byte) {
	switch {
	case b == 0xfe:
		o.in, o.esc = nil, false
	case b == 0xff:
		o.esc = false
		raw := o.in
		o.in = nil
		if e := o.frame(raw); !e {
			o.open, o.acc = false, nil
			o.ev = append(o.ev, "err")
		}
	case o.esc:
		o.in, o.esc = append(o.in, b^0x20), false
	case b == 0xfd:
		o.esc = true
	default:
		o.in = append(o.in, b)
	}
}

func (o *odec) frame(raw []byte) bool {
	if len(raw) < 5 || crc(raw) != 0xf0b8 {
		return false
	}
	f := raw[:len(raw)-2]
	if f[0] != 0 || f[1] != 0x0e {
		return false
	}
	switch f[2] {
	case 1:
		o.ev = append(o.ev, "kreq")
		return true
	case 2:
		o.ev = append(o.ev, "kresp")
		return true
	case 0:
	default:
		return false
	}
	if len(f) < 9 || f[5] != 1 || f[6] != 2 {
		return false
	}
	if f[4]&0x80 != 0 {
		o.open, o.acc = true, nil
	}
	if !o.open {
		return false
	}
	if f[4]&0x20 == 0 {
		o.acc = append(o.acc, f[9:]...)
	}
	if f[4]&0x40 != 0 {
		o.ev = append(o.ev, "msg "+string(o.acc))
		o.open, o.acc = false, nil
	}
	return true
}

// rStream: frames of all sorts with corruption and garbage
func rStream(h *H) []byte {
	r := h.rng
	var s []byte
	for k := 1 + r.Intn(6); k > 0; k-- {
		p := rBytes(r, 12)
		if r.Intn(30) == 0 {
			p = rPayload(h)
		}
		flags := []byte{0xc0, 0x80, 0x40, 0x00, 0xe0, 0x60, 0xa0, 0x20}[r.Intn(8)]
		if r.Intn(2) == 0 {
			flags = 0xc0
		}
		raw := emberFrame(flags, p)
		bad := uint16(0)
		switch r.Intn(16) {
		case 0:
			raw = []byte{0, 0x0e, byte(1 + r.Intn(2)), 1}
		case 1:
			raw[r.Intn(9)] ^= byte(1 << uint(r.Intn(8)))
		case 2:
			raw = raw[:r.Intn(len(raw)+1)]
		case 3:
			bad = uint16(1 + r.Intn(65535))
		case 4:
			raw = rBytes(r, 10)
		case 5:
			raw[r.Intn(9)] = byte(r.Intn(256))
		}
		f := frame(raw, bad)
		switch r.Intn(14) {
		case 0:
			f[r.Intn(len(f))] ^= byte(1 << uint(r.Intn(8)))
		case 1:
			i := r.Intn(len(f))
			f = append(f[:i:i], f[i+1:]...)
		case 2:
			i := r.Intn(len(f))
			f = cat(f[:i], rBytes(r, 3), f[i:])
		case 3:
			f = f[:r.Intn(len(f))]
		}
		s = append(s, f...)
		if r.Intn(8) == 0 {
			s = append(s, rBytes(r, 4)...)
		}
	}
	return s
}

func feedChunks(h *H, d *socket.S101Decoder, s []byte) string {
	cut := ""
	mode := h.rng.Intn(3)
	for len(s) > 0 {
		n := 1 + h.rng.Intn(len(s))
		if mode == 1 {
			n = min(len(s), 1+h.rng.Intn(4))
		} else if mode == 2 {
			n = len(s)
		}
		// the decoder is given a shared receive buffer, as the client does
		buf := make([]byte, n+h.rng.Intn(3))
		copy(buf, s[:n])
		for i := n; i < len(buf); i++ {
			buf[i] = 0xff
		}
		d.DecodeBuffer(n, buf)
		for i := range buf {
			buf[i] = 0xaa
		}
		cut += fmt.Sprint(n, " ")
		s = s[n:]
	}
	return cut
}

func c19(h *H) {
	h.rule = "byte streams of good, corrupted and foreign frames in random chunks; distinct = distinct streams"
	one := func(s []byte) {
		cut := ""
		h.run(func() string { return "stream " + hx(s) + " chunks " + cut }, func() {
			var e events
			d := newDecoder(&e)
			cut = feedChunks(h, d, s)
			o := &odec{}
			for _, b := range s {
				o.feed(b)
			}
			if fmt.Sprint(e.ev) != fmt.Sprint(o.ev) {
				h.failf("DecodeBuffer: stream %s in chunks %s gives %s, want %s", hx(s), cut, show(e.ev), show(o.ev))
			}
		})
	}
	// every command byte, slot, message id, DTD, length and flags byte with a valid checksum
	for i := 0; i < 9; i++ {
		for v := 0; v < 256; v++ {
			f := emberFrame(0xc0, []byte{1, 2, 0xff})
			f[i] = byte(v)
			one(frame(f, 0))
			f = emberFrame(0x80, []byte{9})
			f[i] = byte(v)
			one(cat(frame(f, 0), frame(emberFrame(0x40, []byte{7}), 0)))
		}
	}
	for n := 0; n < 14; n++ {
		f := emberFrame(0xc0, []byte{1, 2, 3, 4})
		one(frame(f[:n], 0))
		k := []byte{0, 0x0e, 1, 1}
		one(frame(k[:min(4, n)], 0))
		k[2] = 2
		one(frame(k[:min(4, n)], 0))
	}
	for bit := 0; bit < 16; bit++ {
		one(frame(emberFrame(0xc0, []byte{1}), 1<<uint(bit)))
		one(frame([]byte{0, 0x0e, 1, 1}, 1<<uint(bit)))
	}
	one([]byte{0xff})
	one([]byte{0xfe, 0xff})
	one([]byte{0xfe, 0xfd, 0xff})
	good := frame(emberFrame(0xc0, []byte("hello")), 0)
	// every truncation of a frame followed by a good one, and every byte damaged
	for i := range good {
		one(cat(good[:i], good))
		for bit := 0; bit < 8; bit++ {
			g := append([]byte{}, good...)
			g[i] ^= 1 << uint(bit)
			one(cat(g, good))
			one(cat(frame(emberFrame(0x80, []byte("a")), 0), g, frame(emberFrame(0x40, []byte("b")), 0), good))
		}
	}
	for n := h.n(60000); n > 0 && !h.stop(); n-- {
		one(rStream(h))
	}
}

func c20(h *H) {
	h.rule = "sequences of messages through EncodeMessage and the decoder, after arbitrary noise; distinct = distinct (noise, messages)"
	for n := h.n(12000); n > 0 && !h.stop(); n-- {
		var msgs [][]byte
		for k := 1 + h.rng.Intn(3); k > 0; k-- {
			msgs = append(msgs, rPayload(h))
		}
		var noise []byte
		switch h.rng.Intn(4) {
		case 0:
			noise = rStream(h)
		case 1:
			noise = rBytes(h.rng, 12)
		case 2:
			noise = frame(emberFrame(0x80, rBytes(h.rng, 9)), 0)
		}
		h.run(func() string {
			return fmt.Sprintf("noise %s then %d messages, first %s", hx(noise), len(msgs), hx(msgs[0]))
		}, func() {
			var e events
			d := newDecoder(&e)
			feedChunks(h, d, noise)
			e.ev = nil
			var s []byte
			for _, m := range msgs {
				fs, bad := frames(m)
				if bad != "" {
					h.failf("EncodeMessage: %s", bad)
					return
				}
				s = append(s, cat(fs...)...)
			}
			cut := feedChunks(h, d, s)
			want := []string{}
			for _, m := range msgs {
				want = append(want, "msg "+string(m))
			}
			if fmt.Sprint(e.ev) != fmt.Sprint(want) {
				h.failf("round trip: noise %s, messages %s, chunks %s: decoder gives %s", hx(noise), show(want), cut, show(e.ev))
			}
		})
	}
}

func c21(h *H) {
	h.rule = "byte sequences through the checksum functions; distinct = distinct sequences"
	one := func(b []byte) {
		h.run(func() string { return "bytes " + hx(b) }, func() {
			want := crc(b)
			if c := socket.CalculateCRC(bytes.NewReader(b)); c != want {
				h.failf("CalculateCRC: %s gives %04x, want %04x", hx(b), c, want)
			}
			if c := socket.CalculateCRCCE(bytes.NewReader(escape(b))); c != want {
				h.failf("CalculateCRCCE: escaped form %s of %s gives %04x, want %04x", hx(escape(b)), hx(b), c, want)
			}
			ok := cat(b, []byte{byte(^want), byte(^want >> 8)})
			if !socket.ValidateFrame(bytes.NewReader(ok)) {
				h.failf("ValidateFrame: rejects %s", hx(ok))
			}
			x := 1 + h.rng.Intn(65535)
			ok[len(b)] ^= byte(x)
			ok[len(b)+1] ^= byte(x >> 8)
			if socket.ValidateFrame(bytes.NewReader(ok)) {
				h.failf("ValidateFrame: accepts %s", hx(ok))
			}
		})
	}
	one(nil)
	for i := 0; i < 256; i++ {
		one([]byte{byte(i)})
		for j := 0; j < 256; j++ {
			one([]byte{byte(i), byte(j)})
		}
	}
	one([]byte("123456789"))
	for n := h.n(60000); n > 0 && !h.stop(); n-- {
		m := 60
		if n%100 == 0 {
			m = 20000
		}
		one(rBytes(h.rng, m))
	}
}

type countL struct{ n int }

func (c *countL) Receive(interface{}, errors.Error) { c.n++ }

// c22 drives a real client over a loopback connection
func c22(h *H) {
	if len(os.Args) == 4 {
		q, _ := strconv.Atoi(os.Args[2])
		k, _ := strconv.Atoi(os.Args[3])
		c22scen(h, q, k)
		fmt.Println("SCEN-DONE")
		os.Exit(0)
	}
	h.rule = "clients with queued requests connected to a loopback peer that sends keep-alives; distinct = distinct scenarios"
	// each scenario runs in a process of its own: the client's I/O goroutine does not end before the process
	scen := func(queued, kals int) {
		h.run(func() string { return fmt.Sprintf("%d queued requests, %d keep-alive requests", queued, kals) }, func() {
			h.curStart.Store(0)
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			defer cancel()
			out, _ := exec.CommandContext(ctx, os.Args[0], "C22", strconv.Itoa(queued), strconv.Itoa(kals)).CombinedOutput()
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "VERIF-FAIL ") {
					h.failf("%s", l[11:])
				}
			}
			if !strings.Contains(string(out), "SCEN-DONE") {
				h.failf("client: %d queued requests, %d keep-alive requests: the client process died: %s", queued, kals, string(out[:min(len(out), 900)]))
			}
		})
	}
	for _, q := range []int{0, 1, 3, 4, 255, 256, 257, 300} {
		scen(q, 0)
		scen(q, 1)
		if h.stop() {
			return
		}
	}
	for n := h.n(12); n > 0 && !h.stop(); n-- {
		scen(h.rng.Intn(30), h.rng.Intn(6))
	}
	_ = asn1.EMBER_SET
}

func cmdAll() *contents {
	return &contents{kind: kCmd, enc: func(bool) []byte { return tInt(-1) }}
}

func c22scen(h *H, queued int, kals int) {
	name := fmt.Sprintf("%d queued requests, %d keep-alive requests", queued, kals)
	h.run(func() string { return name }, func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			h.failf("listen: %v", err)
			return
		}
		defer l.Close()
		cl := socket.NewS101Client()
		accepted := 0
		for i := 0; i < queued; i++ {
			e := cl.GetDirectory(embertree.NewNode(i), &countL{})
			if e == nil {
				accepted++
				if accepted != i+1 {
					h.failf("queue: %s: request %d accepted after a refusal", name, i)
					return
				}
			}
		}
		if queued <= 256 && accepted != queued {
			h.failf("queue: %s: only %d accepted", name, accepted)
			return
		}
		if accepted > 256 {
			h.failf("queue: %s: %d accepted, the limit is 256", name, accepted)
			return
		}
		port := l.Addr().(*net.TCPAddr).Port
		if e := cl.Connect("127.0.0.1", uint16(port)); e != nil {
			h.failf("connect: %v", e.Message)
			return
		}
		c, err := l.Accept()
		if err != nil {
			h.failf("accept: %v", err)
			return
		}
		defer c.Close()
		raw := frame([]byte{0, 0x0e, 1, 1}, 0)
		go func() {
			for i := 0; i < kals; i++ {
				c.Write(raw)
				time.Sleep(time.Millisecond)
			}
		}()
		var buf []byte
		tmp := make([]byte, 65536)
		next, resp := 0, 0
		idle := 0
		for next < accepted || resp < kals || idle < 2 {
			c.SetReadDeadline(time.Now().Add(150 * time.Millisecond))
			n, err := c.Read(tmp)
			buf = append(buf, tmp[:n]...)
			if n == 0 {
				if err == io.EOF || idle > 60 {
					break
				}
				idle++
			} else {
				idle = 0
			}
			for {
				e := bytes.IndexByte(buf, 0xff)
				if e < 0 {
					break
				}
				f := buf[:e+1]
				buf = buf[e+1:]
				raw, d := parseFrame(f)
				if d != "" {
					h.failf("sent frame: %s: %s %s", name, hx(f), d)
					return
				}
				switch raw[2] {
				case 2:
					resp++
					if !bytes.Equal(raw, []byte{0, 0x0e, 2, 1}) {
						h.failf("keep-alive: %s: response %s", name, hx(raw))
						return
					}
				case 0:
					want := rootBER(false, (&elem{kind: kNode, qual: true, path: []int32{int32(next)}, kids: []*elem{{kind: kCmd, num: 32, con: cmdAll()}}}).ber(false))
					wn, _ := canon(want)
					gn, e := canon(raw[9:])
					if e != nil || wn != gn {
						h.failf("order: %s: message %d is %s, want %s", name, next, gn, wn)
						return
					}
					next++
				default:
					h.failf("sent frame: %s: command %d", name, raw[2])
					return
				}
			}
		}
		if next != accepted {
			h.failf("sent: %s: %d of %d queued messages were sent", name, next, accepted)
		}
		if resp != kals {
			h.failf("keep-alive: %s: %d responses", name, resp)
		}
	})
}
