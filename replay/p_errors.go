package main

import (
	stderr "errors"
	"fmt"

	"github.com/dufourgilles/emberlib/errors"
)

func init() { props["C23"] = c23 }

type cause struct{ n int }

func (c *cause) Error() string { return fmt.Sprint("cause ", c.n, " 100% %s %d") }

func c23(h *H) {
	h.rule = "chains of propagation over wrapped and new errors; distinct = distinct chains"
	h.run(func() string { return "nil" }, func() {
		if errors.NewError(nil) != nil {
			h.failf("NewError: of nil is not nil")
		}
		if errors.Update(nil) != nil {
			h.failf("Update: of nil is not nil")
		}
	})
	var hop func(e errors.Error, d int) errors.Error
	hop = func(e errors.Error, d int) errors.Error {
		if d == 0 {
			return errors.Update(e)
		}
		return errors.Update(hop(e, d-1))
	}
	for n := h.n(20000); n > 0 && !h.stop(); n-- {
		k := h.rng.Intn(30)
		mode := h.rng.Intn(4)
		h.run(func() string { return fmt.Sprint("mode ", mode, " hops ", k, " case ", n) }, func() {
			var e errors.Error
			var want error
			switch mode {
			case 0:
				c := &cause{n}
				want = c
				e = errors.NewError(c)
			case 1:
				want = stderr.New("x")
				e = errors.NewError(want)
			case 2:
				e = errors.New("plain %d", n)
				if e == nil || e.Message == nil || e.Message.Error() != fmt.Sprintf("plain %d", n) {
					h.failf("New: message is %v", e)
					return
				}
				want = e.Message
			case 3:
				e = errors.New("no arguments")
				if e == nil || e.Message == nil || e.Message.Error() != "no arguments" {
					h.failf("New: message is %v", e)
					return
				}
				want = e.Message
			}
			if e == nil || e.Message != want {
				h.failf("NewError: cause of the wrapped error is %v, want %v", e, want)
				return
			}
			prev := append([]string{}, e.Stack...)
			cur := e
			for i := 0; i < k; i++ {
				step := 1
				if i%7 == 3 {
					cur = hop(cur, 2)
					step = 3
				} else {
					cur = errors.Update(cur)
				}
				if cur != e {
					h.failf("Update: hop %d returns another error", i)
					return
				}
				if cur.Message != want {
					h.failf("Update: hop %d changes the cause to %v", i, cur.Message)
					return
				}
				if len(cur.Stack) != len(prev)+step {
					h.failf("Update: hop %d: trace has %d entries, had %d before %d hop(s)", i, len(cur.Stack), len(prev), step)
					return
				}
				// the earlier entries stay, in order, at one end
				pre, suf := true, true
				for j := range prev {
					pre = pre && cur.Stack[j] == prev[j]
					suf = suf && cur.Stack[j+step] == prev[j]
				}
				if !pre && !suf {
					h.failf("Update: hop %d changes earlier trace entries: %v -> %v", i, prev, cur.Stack)
					return
				}
				for _, s := range cur.Stack {
					if s == "" {
						h.failf("Update: hop %d leaves an empty trace entry: %q", i, cur.Stack)
						return
					}
				}
				prev = append([]string{}, cur.Stack...)
			}
		})
	}
	// two errors do not share their traces
	for n := 0; n < 2000 && !h.stop(); n++ {
		h.run(func() string { return fmt.Sprint("interleaved ", n) }, func() {
			es := []errors.Error{errors.New("a"), errors.New("b"), errors.NewError(stderr.New("c"))}
			cnt := make([]int, 3)
			var snap [3][]string
			for i := range es {
				cnt[i] = len(es[i].Stack)
				snap[i] = append([]string{}, es[i].Stack...)
			}
			for k := 0; k < 20; k++ {
				i := h.rng.Intn(3)
				errors.Update(es[i])
				cnt[i]++
				for j := range es {
					if len(es[j].Stack) != cnt[j] {
						h.failf("Update: of one error changes the trace of another: %v", es[j].Stack)
						return
					}
					if j != i && fmt.Sprint(es[j].Stack) != fmt.Sprint(snap[j]) {
						h.failf("Update: of one error changes the trace of another: %v", es[j].Stack)
						return
					}
					snap[j] = append([]string{}, es[j].Stack...)
				}
			}
		})
	}
}
