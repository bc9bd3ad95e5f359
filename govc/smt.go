package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// SMT back ends. One persistent z3 process per task; cvc5 and the older z3 as fall back.

type SatRes int

const (
	Unknown SatRes = iota
	Sat
	Unsat
)

func (r SatRes) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	Queries, Cached, UnsatN, SatN, UnknownN int
	ByBackend                               map[string]int
	Time                                    time.Duration
}

type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	cache   map[string]SatRes
	Stats   SolverStats
	Timeout int // ms, first attempt
	Retry   int // ms, fall back solvers
	Cross   bool
	lastQ   string
	log     io.Writer
	inc     *incSolver
}

func NewSolver(c *Ctx, timeout, retry int) *Solver {
	return &Solver{inc: newInc(), ctx: c, cache: map[string]SatRes{}, Timeout: timeout, Retry: retry, Stats: SolverStats{ByBackend: map[string]int{}}}
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3-new: %v", err)
	}
}

func (s *Solver) Close() {
	s.inc.close()
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// script renders the query hyps.
func (s *Solver) script(hyps []*Term) string {
	c := s.ctx
	// collect terms
	refs := map[*Term]int{}
	var order []*Term
	quant := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.op == OForall {
			quant[t] = true
		} else {
			for _, a := range t.args {
				walk(a)
			}
		}
		order = append(order, t)
	}
	for _, h := range hyps {
		walk(h)
	}
	ax := c.instances(order)
	for _, h := range ax {
		walk(h)
	}
	all := append(append([]*Term{}, hyps...), ax...)
	var sb strings.Builder
	decl := map[string]bool{}
	var declare func(t *Term, bound map[*Term]bool)
	dseen := map[*Term]bool{}
	declare = func(t *Term, bound map[*Term]bool) {
		if dseen[t] {
			return
		}
		dseen[t] = true
		switch t.op {
		case OVar:
			if !bound[t] && !decl[t.name] {
				decl[t.name] = true
				fmt.Fprintf(&sb, "(declare-const %s %s)\n", smtName(t.name), sortStr(t.sort))
			}
		case OApp:
			if !decl[t.name] {
				decl[t.name] = true
				var as []string
				for _, a := range t.args {
					as = append(as, sortStr(a.sort))
				}
				fmt.Fprintf(&sb, "(declare-fun %s (%s) %s)\n", smtName(t.name), strings.Join(as, " "), sortStr(t.sort))
			}
		case OForall:
			b2 := map[*Term]bool{t.args[0]: true}
			for k := range bound {
				b2[k] = true
			}
			declare(t.args[1], b2)
			return
		}
		for _, a := range t.args {
			declare(a, bound)
		}
	}
	for _, t := range order {
		declare(t, map[*Term]bool{})
	}
	for _, t := range order {
		if t.op == OForall {
			declare(t, map[*Term]bool{})
		}
	}
	let := map[*Term]string{}
	for _, t := range order {
		if (t.op == OVar || t.op == OApp) && t.sort == SInt {
			// bounds are asserted after definition below
		}
		if refs[t] > 1 && len(t.args) > 0 && t.op != OForall {
			n := fmt.Sprintf("t!%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, sortStr(t.sort))
			t.printTop(&sb, let)
			sb.WriteString(")\n")
			let[t] = n
		}
		if (t.op == OVar || t.op == OApp) && t.sort == SInt {
			if t.lo != nil {
				sb.WriteString("(assert (<= " + numStr(t.lo) + " ")
				t.print(&sb, let)
				sb.WriteString("))\n")
			}
			if t.hi != nil {
				sb.WriteString("(assert (<= ")
				t.print(&sb, let)
				sb.WriteString(" " + numStr(t.hi) + "))\n")
			}
		}
	}
	for _, h := range all {
		sb.WriteString("(assert ")
		h.print(&sb, let)
		sb.WriteString(")\n")
	}
	return sb.String()
}

var smtSem = make(chan struct{}, 16)

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(hyps []*Term) SatRes {
	return s.check(hyps, true)
}

// Quick is a check without fall back solvers (used for path feasibility and invariant search).
func (s *Solver) check(hyps []*Term, full bool) SatRes {
	set := map[int]bool{}
	var hs []*Term
	for _, h := range hyps {
		if h.IsFalse() {
			return Unsat
		}
		if h.IsTrue() || set[h.id] {
			continue
		}
		set[h.id] = true
		hs = append(hs, h)
	}
	ordered := append([]*Term{}, hs...)
	sort.Slice(hs, func(i, j int) bool { return hs[i].id < hs[j].id })
	kb := make([]byte, 0, 8*len(hs))
	for _, h := range hs {
		if set[s.ctx.NotOf(h).id] {
			return Unsat
		}
		kb = strconv.AppendInt(kb, int64(h.id), 10)
		kb = append(kb, ',')
	}
	key := string(kb)
	if r, ok := s.cache[key]; ok && (r != Unknown || !full) {
		s.Stats.Cached++
		return r
	}
	s.Stats.Queries++
	t0 := time.Now()
	r := s.inc.check(ordered)
	if r == Unknown && s.ctx.hasBVTerms(hs) {
		r = s.bvCheck(hs)
	}
	q := ""
	if r == Unknown || s.Cross && full && r == Unsat {
		q = s.script(hs)
		s.lastQ = q
	}
	if r == Unknown {
		to := s.Timeout
		if !full && to > 2000 {
			to = 2000
		}
		r = s.z3(q, to)
	}
	if r != Unknown {
		s.Stats.ByBackend["z3-new"]++
	}
	if r == Unknown && full {
		r2, who := portfolio(q, s.Retry)
		r = r2
		if r != Unknown {
			s.Stats.ByBackend[who]++
		}
	} else if r == Unsat && s.Cross && full {
		// thorough tier: a second solver has to agree (it must not find a model)
		if r2 := oneShot("cvc5", q, s.Timeout); r2 == Sat {
			r = Sat
		} else if r2 == Unsat {
			s.Stats.ByBackend["cvc5-confirm"]++
		}
	}
	d := time.Since(t0)
	if os.Getenv("GOVC_SLOWQ") != "" && d > 300*time.Millisecond {
		fmt.Println("SLOW", d, r, len(q), hs[len(hs)-1])
	}
	s.Stats.Time += d
	if s.log != nil && d > 500*time.Millisecond {
		fmt.Fprintf(s.log, "; slow %v %v\n%s\n", d, r, q)
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	s.cache[key] = r
	return r
}

func (s *Solver) z3(q string, timeout int) SatRes {
	if s.cmd == nil {
		s.start()
	}
	fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"done!\")\n", timeout, q)
	res := Unknown
	ch := make(chan bool, 1)
	go func() {
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- false
				return
			}
			line = strings.TrimSpace(line)
			switch line {
			case "sat":
				res = Sat
			case "unsat":
				res = Unsat
			case "done!", "\"done!\"":
				ch <- true
				return
			default:
				if strings.HasPrefix(line, "(error") {
					fmt.Println("SMT ERROR:", line)
					fmt.Println(q)
					fatal("malformed SMT query")
				}
			}
		}
	}()
	select {
	case ok := <-ch:
		if !ok {
			s.cmd.Process.Kill()
			s.cmd.Wait()
			s.cmd = nil
			return Unknown
		}
	case <-time.After(time.Duration(timeout+3000) * time.Millisecond):
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
		<-ch
		return Unknown
	}
	return res
}

func oneShot(bin, q string, ms int) SatRes {
	var cmd *exec.Cmd
	switch bin {
	case "cvc5":
		cmd = exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
		q = "(set-logic ALL)\n" + q
	case "z3":
		cmd = exec.Command("z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "z3-new":
		cmd = exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "z3-new-2":
		cmd = exec.Command("z3-new", "-in", "-smt2", "smt.arith.solver=2", "smt.random_seed=7", fmt.Sprintf("-t:%d", ms))
	}
	cmd.Stdin = strings.NewReader(q + "(check-sat)\n")
	timer := time.AfterFunc(time.Duration(ms+2000)*time.Millisecond, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	out, _ := cmd.Output()
	timer.Stop()
	for _, l := range strings.Split(string(out), "\n") {
		switch strings.TrimSpace(l) {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		}
	}
	return Unknown
}

func portfolio(q string, ms int) (SatRes, string) {
	type ans struct {
		r   SatRes
		who string
	}
	bins := []string{"cvc5", "z3", "z3-new-2", "z3-new"}
	ch := make(chan ans, len(bins))
	var wg sync.WaitGroup
	for _, b := range bins {
		wg.Add(1)
		go func(b string) { defer wg.Done(); ch <- ans{oneShot(b, q, ms), b} }(b)
	}
	for range bins {
		a := <-ch
		if a.r != Unknown {
			return a.r, a.who
		}
	}
	return Unknown, ""
}

// Model asks z3 for values of the given terms in a model of hyps.
func (s *Solver) Model(hyps []*Term, ts []*Term) map[*Term]string {
	c := s.ctx
	fs := append([]*Term{}, hyps...)
	names := make([]string, len(ts))
	for i, t := range ts {
		v := c.Var(fmt.Sprintf("mdl!%d", t.id), t.sort, nil, nil)
		fs = append(fs, c.mk(&Term{op: OEq, sort: SBool, args: []*Term{t, v}}))
		names[i] = v.name
	}
	q := s.script(fs)
	var sb strings.Builder
	sb.WriteString(q + "(check-sat)\n")
	for _, n := range names {
		sb.WriteString("(get-value (" + smtName(n) + "))\n")
	}
	cmd := exec.Command("z3-new", "-in", "-smt2", "-t:5000")
	cmd.Stdin = strings.NewReader(sb.String())
	timer := time.AfterFunc(8*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
	})
	out, _ := cmd.Output()
	timer.Stop()
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	if len(lines) == 0 || strings.TrimSpace(lines[0]) != "sat" {
		return nil
	}
	res := map[*Term]string{}
	for _, l := range lines[1:] {
		l = strings.TrimSpace(l)
		for i, n := range names {
			p := "((" + smtName(n) + " "
			p2 := "((" + n + " "
			for _, pp := range []string{p, p2} {
				if strings.HasPrefix(l, pp) {
					res[ts[i]] = strings.TrimSuffix(strings.TrimPrefix(l, pp), "))")
				}
			}
		}
	}
	return res
}

func hashStr(s string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(s)))[:12] }

func (c *Ctx) hasBVTerms(hs []*Term) bool {
	memo := map[*Term]bool{}
	for _, h := range hs {
		if hasBVTerm(h, memo) {
			return true
		}
	}
	return false
}
