package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Queries over integers, booleans and uninterpreted functions go to an
// incremental solver that keeps the hypotheses consecutive queries share.
// What it cannot decide goes to the one-shot back ends.

type incLevel struct {
	h     *Term
	decls []string
	defs  []*Term
}

type incSolver struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	pipe   io.WriteCloser
	lines  chan string
	levels []incLevel
	decl   map[string]bool
	let    map[*Term]string
	ok     map[*Term]bool // eligible terms
}

func newInc() *incSolver {
	return &incSolver{decl: map[string]bool{}, let: map[*Term]string{}, ok: map[*Term]bool{}}
}

func (s *incSolver) eligible(t *Term) bool {
	if v, ok := s.ok[t]; ok {
		return v
	}
	r := true
	switch {
	case t.op == OForall:
		r = false
	case t.sort != SInt && t.sort != SBool:
		r = false
	case t.op == OApp && strings.HasPrefix(t.name, "crc!"):
		r = false
	}
	for _, a := range t.args {
		if !r {
			break
		}
		r = s.eligible(a)
	}
	s.ok[t] = r
	return r
}

func (s *incSolver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-t:1000")
	p, _ := s.cmd.StdinPipe()
	s.pipe = p
	s.in = bufio.NewWriterSize(p, 1<<16)
	o, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3-new: %v", err)
	}
	ch := make(chan string, 16)
	s.lines = ch
	go func() {
		rd := bufio.NewReaderSize(o, 1<<16)
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(ch)
				return
			}
			ch <- strings.TrimSpace(l)
		}
	}()
	s.levels = nil
	s.decl, s.let = map[string]bool{}, map[*Term]string{}
}

func (s *incSolver) close() {
	if s.cmd != nil {
		s.pipe.Close()
		s.cmd.Process.Kill()
		go func(c *exec.Cmd, ch chan string) {
			for range ch {
			}
			c.Wait()
		}(s.cmd, s.lines)
		s.cmd = nil
	}
}

func (s *incSolver) pop(n int) {
	if n == len(s.levels) {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", len(s.levels)-n)
	for _, l := range s.levels[n:] {
		for _, d := range l.decls {
			delete(s.decl, d)
		}
		for _, t := range l.defs {
			delete(s.let, t)
		}
	}
	s.levels = s.levels[:n]
}

func (s *incSolver) push(h *Term) {
	L := incLevel{h: h}
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	var walk func(t *Term)
	walk = func(t *Term) {
		if _, ok := s.let[t]; ok {
			return
		}
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OVar || t.op == OApp {
			if !s.decl[t.name] {
				s.decl[t.name] = true
				L.decls = append(L.decls, t.name)
				var as []string
				for _, a := range t.args {
					as = append(as, sortStr(a.sort))
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(as, " "), sortStr(t.sort))
			}
		} else if len(t.args) == 0 {
			return
		}
		var d strings.Builder
		t.printTop(&d, s.let)
		n := d.String()
		if len(t.args) > 0 {
			n = fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, sortStr(t.sort), d.String())
		}
		s.let[t] = n
		L.defs = append(L.defs, t)
		if (t.op == OVar || t.op == OApp) && t.sort == SInt {
			if t.lo != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", numStr(t.lo), n)
			}
			if t.hi != nil {
				fmt.Fprintf(&sb, "(assert (<= %s %s))\n", n, numStr(t.hi))
			}
		}
	}
	walk(h)
	sb.WriteString("(assert ")
	h.print(&sb, s.let)
	sb.WriteString(")\n")
	s.in.WriteString(sb.String())
	s.levels = append(s.levels, L)
}

// check decides the conjunction; Unknown also when a hypothesis is outside the fragment.
func (s *incSolver) check(hs []*Term) SatRes {
	for _, h := range hs {
		if !s.eligible(h) {
			return Unknown
		}
	}
	if s.cmd == nil {
		s.start()
	}
	n := 0
	for n < len(s.levels) && n < len(hs) && s.levels[n].h == hs[n] {
		n++
	}
	s.pop(n)
	for _, h := range hs[n:] {
		s.push(h)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	select {
	case l, ok := <-s.lines:
		if !ok {
			s.close()
			return Unknown
		}
		switch l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown":
			return Unknown
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Println("SMT ERROR:", l)
			fatal("malformed SMT query")
		}
		s.close()
		return Unknown
	case <-time.After(4 * time.Second):
		s.close()
		return Unknown
	}
}
