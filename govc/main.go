package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go/types"
)

func newEngine(repo, specs string) *Engine {
	P, err := LoadProgram(repo, specs)
	if err != nil {
		fatal("loading %s: %v", repo, err)
	}
	E := &Engine{P: P, S: LoadSpecs(specs), tags: map[string]int64{}, tagT: map[int64]types.Type{}, fns: map[string]int{}, scc: map[string]map[string]bool{}, maxPaths: 6000, qms: 3000, rms: 20000}
	if s := os.Getenv("GOVC_QMS"); s != "" {
		E.qms, _ = strconv.Atoi(s)
	}
	E.mutGlobals = findMutGlobals(P)
	// stable type tags
	var names []string
	for n := range P.types {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		E.tagID(P.types[n])
		E.tagID(types.NewPointer(P.types[n]))
	}
	return E
}

type result struct {
	t    *TaskState
	wall time.Duration
	err  string
}

func (t *TaskState) failures() []string {
	var out []string
	for _, n := range t.order {
		o := t.obls[n]
		if len(o.fails) > 0 {
			out = append(out, t.name+": "+n+" -- "+o.fails[0])
		}
	}
	for _, u := range keysOf(t.unsup) {
		out = append(out, t.name+": not decided -- "+u)
	}
	if t.reached == 0 && len(t.unsup) == 0 {
		out = append(out, t.name+": vacuous -- no path reaches the end of the function")
	}
	return out
}

func keysOf[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (E *Engine) find(id string) *Behavior {
	i := strings.LastIndex(id, "/")
	if i < 0 {
		return nil
	}
	con := E.S.con[id[:i]]
	if con == nil {
		return nil
	}
	for _, b := range con.behs {
		if b.name == id[i+1:] {
			return b
		}
	}
	return nil
}

// runAll verifies the behaviours and, transitively, those they rely on.
func (E *Engine) runAll(start []*Behavior, budget time.Duration, par int) map[string]*result {
	res := map[string]*result{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, par)
	var launch func(b *Behavior)
	launch = func(b *Behavior) {
		mu.Lock()
		if _, ok := res[b.id()]; ok {
			mu.Unlock()
			return
		}
		rs := &result{}
		res[b.id()] = rs
		mu.Unlock()
		if b.trusted != "" || b.lemma != "" {
			// assumed, or justified by another behaviour
			if b.lemma != "" {
				if lb := E.find(b.lemma); lb != nil {
					launch(lb)
				} else {
					rs.err = "no lemma " + b.lemma
				}
			}
			return
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			st := time.Now()
			func() {
				defer func() {
					if x := recover(); x != nil {
						rs.err = fmt.Sprint("internal error: ", x)
						if os.Getenv("GOVC_V") != "" {
							panic(x)
						}
					}
				}()
				rs.t = E.verify(b, budget)
			}()
			rs.wall = time.Since(st)
			<-sem
			if rs.t != nil {
				for _, u := range keysOf(rs.t.used) {
					if nb := E.find(u); nb != nil {
						launch(nb)
					}
				}
			}
		}()
	}
	for _, b := range start {
		launch(b)
	}
	wg.Wait()
	return res
}

func report(res map[string]*result, verbose bool) (fails []string, obl, disch int) {
	for _, k := range keysOf(res) {
		rs := res[k]
		if rs.err != "" {
			fails = append(fails, k+": "+rs.err)
		}
		if rs.t == nil {
			continue
		}
		n, d := 0, 0
		for _, o := range rs.t.obls {
			if o.name == "safety" {
				// trivially discharged safety conditions, counted as one
			}
			n++
			if len(o.fails) == 0 {
				d++
			}
		}
		obl += n
		disch += d
		fs := rs.t.failures()
		fails = append(fails, fs...)
		if verbose {
			fmt.Printf("%-60s obl %d/%d paths %d passes %d %.1fs solver %v\n", k, d, n, rs.t.paths, rs.t.runs, rs.wall.Seconds(), rs.t.s.Stats)
			if os.Getenv("GOVC_OBL") != "" {
				for _, n := range rs.t.order {
					o := rs.t.obls[n]
					fmt.Printf("    %-5v %s (%d)\n", len(o.fails) == 0, n, o.proofs)
				}
			}
			for _, f := range fs {
				fmt.Println("   FAIL", f)
			}
			if os.Getenv("GOVC_CE") != "" {
				for _, n := range rs.t.order {
					for _, ce := range rs.t.obls[n].ces {
						for _, k := range keysOf(ce) {
							fmt.Printf("      %s = %s\n", k, ce[k])
						}
						break
					}
				}
			}
		}
	}
	return
}

func main() {
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fatal("usage: govc fn FUNC[/BEHAVIOUR]... | check PROPERTY")
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("REPO_DIR")
	if repo == "" {
		repo = "/repo"
	}
	par := runtime.NumCPU()
	switch os.Args[1] {
	case "dump":
		E := newEngine(repo, filepath.Join(verif, "specs"))
		for _, n := range os.Args[2:] {
			E.P.funcs[n].WriteTo(os.Stdout)
		}
	case "fn":
		E := newEngine(repo, filepath.Join(verif, "specs"))
		var bs []*Behavior
		deep := false
		budget := 300 * time.Second
		for _, n := range os.Args[2:] {
			if n == "-deep" {
				deep = true
				continue
			}
			if con := E.S.con[n]; con != nil {
				for _, b := range con.behs {
					bs = append(bs, b)
				}
				continue
			}
			if b := E.find(n); b != nil {
				bs = append(bs, b)
				continue
			}
			for _, k := range keysOf(E.S.con) {
				for _, b := range E.S.con[k].behs {
					if strings.Contains(b.id(), n) || n == "all" {
						bs = append(bs, b)
					}
				}
			}
		}
		res := map[string]*result{}
		if deep {
			res = E.runAll(bs, budget, par)
		} else {
			var wg sync.WaitGroup
			var mu sync.Mutex
			sem := make(chan bool, par)
			for _, b := range bs {
				if b.trusted != "" || b.lemma != "" {
					continue
				}
				b := b
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- true
					st := time.Now()
					t := E.verify(b, budget)
					mu.Lock()
					res[b.id()] = &result{t: t, wall: time.Since(st)}
					mu.Unlock()
					<-sem
				}()
			}
			wg.Wait()
		}
		fails, n, d := report(res, true)
		fmt.Printf("%d behaviours, %d/%d obligations, %d failures\n", len(res), d, n, len(fails))
	case "check":
		check(os.Args[2], repo, verif, par)
	default:
		fatal("unknown command")
	}
}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions"`
	Wall        float64                `json:"wall_s"`
	Violations  int                    `json:"violations"`
}

func check(prop, repo, verif string, par int) {
	st := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	evf := filepath.Join(verif, "evidence", prop+".json")
	// the replay harness runs next to the proofs
	type hres struct {
		out string
		err error
	}
	hc := make(chan hres, 1)
	go func() {
		cmd := exec.Command(filepath.Join(verif, "replay", "run.sh"), prop, tier)
		cmd.Env = append(os.Environ(), "REPO_DIR="+repo, "VERIF_DIR="+verif)
		b, err := cmd.CombinedOutput()
		hc <- hres{string(b), err}
	}()
	P, err := LoadProgram(repo, filepath.Join(verif, "specs"))
	var fails []string
	var obl, disch int
	res := map[string]*result{}
	if err != nil {
		fails = append(fails, "the sources do not load: "+err.Error())
	} else {
		_ = P
		E := newEngine(repo, filepath.Join(verif, "specs"))
		if tier == "thorough" {
			E.rms = 60000
		}
		var bs []*Behavior
		for _, k := range keysOf(E.S.con) {
			for _, b := range E.S.con[k].behs {
				for _, p := range b.props {
					if p == prop {
						bs = append(bs, b)
					}
				}
			}
		}
		budget := 300 * time.Second
		if tier == "thorough" {
			budget = 1500 * time.Second
		}
		if len(bs) > 0 {
			E.deadline = st.Add(650 * time.Second)
			if tier == "thorough" {
				E.deadline = st.Add(3 * time.Hour)
			}
			res = E.runAll(bs, budget, par)
		}
		fails, obl, disch = report(res, false)
	}
	h := <-hc
	// harness output: lines "FAIL <key>: ..." / "STATS json"
	var hfails, known []string
	stats := map[string]interface{}{}
	for _, l := range strings.Split(h.out, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "VERIF-FAIL "); i >= 0 {
			hfails = append(hfails, l[i+len("VERIF-FAIL "):])
		}
		if i := strings.Index(l, "VERIF-KNOWN "); i >= 0 {
			known = append(known, l[i+len("VERIF-KNOWN "):])
		}
		if i := strings.Index(l, "VERIF-STATS "); i >= 0 {
			var m map[string]interface{}
			if json.Unmarshal([]byte(l[i+len("VERIF-STATS "):]), &m) == nil {
				for k, v := range m {
					stats[k] = v
				}
			}
		}
	}
	if _, ok := stats["evaluations"]; !ok && len(hfails) == 0 {
		// the harness died: a crash of the code under test counts as its finding
		tail := h.out
		if len(tail) > 3000 {
			tail = tail[len(tail)-3000:]
		}
		hfails = append(hfails, "the replay harness did not finish: "+tail)
	}
	var funcs, inl, assump, trusted, perTask []string
	solver := 0.0
	queries := 0
	backends := map[string]int{}
	seenInl, seenA := map[string]bool{}, map[string]bool{}
	samples := []string{}
	for _, k := range keysOf(res) {
		rs := res[k]
		if rs.t == nil {
			if rs.err == "" {
				trusted = append(trusted, k)
			}
			continue
		}
		funcs = append(funcs, k)
		for n := range rs.t.inlined {
			if !seenInl[n] {
				seenInl[n] = true
				inl = append(inl, n)
			}
		}
		for n := range rs.t.assump {
			if !seenA[n] {
				seenA[n] = true
				assump = append(assump, n)
			}
		}
		solver += rs.t.s.Stats.Time.Seconds()
		queries += rs.t.s.Stats.Queries
		for b, n := range rs.t.s.Stats.ByBackend {
			backends[b] += n
		}
		perTask = append(perTask, fmt.Sprintf("%s: %d obligations, %d paths, %.1fs", k, len(rs.t.obls), rs.t.paths, rs.wall.Seconds()))
		for _, n := range rs.t.order {
			if len(samples) < 12 && n != "safety" {
				samples = append(samples, k+": "+n)
			}
		}
	}
	sort.Strings(inl)
	sort.Strings(assump)
	level := "proof"
	if len(res) == 0 {
		level = "other"
	}
	if lv := levelOf(verif, prop); lv != "" {
		level = lv
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": disch,
		"checker_cmd":              "govc check " + prop,
		"trusted_base":             trusted,
		"functions_under_contract": funcs,
		"functions_inlined":        inl,
		"back_ends":                backends,
		"solver_queries":           queries,
		"solver_seconds":           solver,
		"per_task":                 perTask,
		"failed_obligations":       len(fails),
		"bounded_supplement":       stats,
		"samples":                  samples,
		"explanation":              "contracts in /verif/specs discharged over the SSA of /repo's current sources; the bounded supplement runs the real code against an independent oracle and is not counted as proved",
	}
	for _, k := range []string{"evaluations", "distinct_nontrivial", "rule"} {
		if v, ok := stats[k]; ok {
			cov[k] = v
		}
	}
	if len(samples) == 0 {
		if v, ok := stats["samples"]; ok {
			cov["samples"] = v
		}
	}
	viol := 0
	status := 0
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	rp := filepath.Join(verif, "evidence", prop+".replay")
	switch {
	case len(hfails) > 0:
		viol = len(hfails)
		var sb strings.Builder
		sb.WriteString("failing input on the real code:\n")
		for _, f := range hfails {
			sb.WriteString(f + "\n")
		}
		if len(fails) > 0 {
			sb.WriteString("\nfailed obligations:\n" + strings.Join(fails, "\n") + "\n")
		}
		sb.WriteString("\nreplay: " + filepath.Join(verif, "replay", "run.sh") + " " + prop + "\n")
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Println(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		status = 1
	case len(fails) > 0:
		viol = len(fails)
		os.WriteFile(rp, []byte("failed obligations (no failing input was found by the replay harness):\n"+strings.Join(fails, "\n")+"\n"), 0o644)
		for _, f := range fails {
			fmt.Println("FAILED", f)
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		status = 1
	}
	ev := evidence{prop, tier, seed, level, cov, assump, time.Since(st).Seconds(), viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(evf, append(b, '\n'), 0o644)
	fmt.Printf("%s: %d/%d obligations in %d tasks, harness %v cases, %.1fs\n", prop, disch, obl, len(funcs), stats["evaluations"], time.Since(st).Seconds())
	os.Exit(status)
}

func levelOf(verif, prop string) string {
	b, err := os.ReadFile(filepath.Join(verif, "MANIFEST.json"))
	if err != nil {
		return ""
	}
	var m struct {
		Checks []struct{ Property, Level string }
	}
	if json.Unmarshal(b, &m) != nil {
		return ""
	}
	for _, c := range m.Checks {
		if c.Property == prop {
			return c.Level
		}
	}
	return ""
}
