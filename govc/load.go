package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the current source of /repo in SSA form (plus the ghost client
// functions of /verif/specs, laid over the packages as extra files).

type Program struct {
	prog  *ssa.Program
	pkgs  []*ssa.Package
	funcs map[string]*ssa.Function // by display name
	impls map[string][]*ssa.Function
	types map[string]types.Type
	loops map[*ssa.Function]*loopForest
	files int
	mu    sync.Mutex
}

const modPath = "github.com/dufourgilles/emberlib/"

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "govc: "+f+"\n", a...)
	os.Exit(2)
}

// shortName: asn1.(*ASNReader).ReadInt
func shortName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath, "")
	if strings.HasPrefix(s, "(*") || strings.HasPrefix(s, "(") {
		// (*asn1.ASNReader).ReadInt -> asn1.(*ASNReader).ReadInt
		i := strings.Index(s, ")")
		recv := s[1:i]
		star := ""
		if strings.HasPrefix(recv, "*") {
			star, recv = "*", recv[1:]
		}
		if j := strings.LastIndex(recv, "."); j >= 0 {
			return recv[:j] + ".(" + star + recv[j+1:] + ")" + s[i+1:]
		}
	}
	return s
}

var byteWord = regexp.MustCompile(`(^|[^.\w])byte\b`)

func typeName(t types.Type) string {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Uint8 {
		return "uint8"
	}
	s := strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), "interface {}", "any")
	if strings.Contains(s, "byte") {
		s = byteWord.ReplaceAllString(s, "${1}uint8")
	}
	return s
}

func LoadProgram(repo, specDir string) (*Program, error) {
	overlay := map[string][]byte{}
	for _, p := range []string{"asn1", "embertree", "errors", "socket", "logger"} {
		fs, _ := filepath.Glob(filepath.Join(specDir, p, "*.go"))
		sort.Strings(fs)
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			overlay[filepath.Join(repo, p, "zz_govc_"+filepath.Base(f))] = b
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off"),
	}
	initial, err := packages.Load(cfg, "./asn1", "./embertree", "./errors", "./socket", "./logger")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics|ssa.GlobalDebug)
	P := &Program{prog: prog, funcs: map[string]*ssa.Function{}, impls: map[string][]*ssa.Function{}, types: map[string]types.Type{}, loops: map[*ssa.Function]*loopForest{}}
	for _, p := range pkgs {
		if p != nil {
			p.Build()
			P.pkgs = append(P.pkgs, p)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil || fn.Object() != nil {
			n := shortName(fn)
			if strings.Contains(fn.String(), modPath) {
				if fn.Synthetic == "" || P.funcs[n] == nil {
					P.funcs[n] = fn
				}
			}
		}
	}
	for _, p := range P.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Type:
				t := m.Type()
				P.types[typeName(t)] = t
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						if f := prog.MethodValue(ms.At(i)); f != nil {
							n := shortName(f)
							if f.Synthetic == "" {
								P.funcs[n] = f
							}
						}
					}
				}
			case *ssa.Function:
				P.funcs[shortName(m)] = m
			}
		}
	}
	return P, nil
}

// lookupMethod finds the method of a dynamic type.
func (P *Program) lookupMethod(t types.Type, name string, pkg *types.Package) *ssa.Function {
	return P.prog.LookupMethod(t, pkg, name)
}

// implementers of an interface among the named types of the repository.
func (P *Program) implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	var names []string
	for n := range P.types {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := P.types[n]
		if types.IsInterface(t) {
			continue
		}
		pt := types.NewPointer(t)
		if types.Implements(t, iface) {
			out = append(out, t)
		} else if types.Implements(pt, iface) {
			out = append(out, pt)
		}
	}
	return out
}

// ---- natural loops

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	line   int
}
type loopForest struct {
	byHeader map[*ssa.BasicBlock]*loopInfo
}

func (P *Program) loopsOf(fn *ssa.Function) *loopForest {
	P.mu.Lock()
	defer P.mu.Unlock()
	if l, ok := P.loops[fn]; ok {
		return l
	}
	lf := &loopForest{byHeader: map[*ssa.BasicBlock]*loopInfo{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := lf.byHeader[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					lf.byHeader[s] = li
				}
				var stack []*ssa.BasicBlock
				if !li.blocks[b] {
					li.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !li.blocks[p] {
							li.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	P.loops[fn] = lf
	return lf
}
