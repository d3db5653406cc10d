package main

import (
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/WatchBeam/rtmp"

type Program struct {
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by path
	Funcs map[string]*ssa.Function
	All   []*ssa.Function // functions of the repository (incl. anonymous)
	loops map[*ssa.Function][]*Loop
	locks map[string]map[string]bool
	mut   *mutableSet
}

func load(dir, overlay string, patterns ...string) *Program {
	env := append(os.Environ(), "GOFLAGS=-mod=mod -overlay="+overlay, "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		fatal("load: %v", err)
	}
	if packages.PrintErrors(ps) > 0 {
		fatal("the packages under verification do not type-check")
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, Funcs: map[string]*ssa.Function{}, loops: map[*ssa.Function][]*Loop{}}
	for _, pk := range prog.AllPackages() {
		p.Pkgs[pk.Pkg.Path()] = pk
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == nil {
			continue
		}
		if k := funcKey(fn); k != "" {
			if o, ok := p.Funcs[k]; ok && o.Synthetic == "" {
				continue
			}
			p.Funcs[k] = fn
		}
		if strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			p.All = append(p.All, fn)
		}
	}
	sort.Slice(p.All, func(i, j int) bool { return p.All[i].String() < p.All[j].String() })
	return p
}

func shortPkg(path string) string {
	if path == modPath {
		return "rtmp"
	}
	return strings.TrimPrefix(strings.TrimPrefix(path, modPath+"/"), "github.com/WatchBeam/")
}

// funcKey: "chunk.Header.Read", "spec.Uint32", "encoding/binary.bigEndian.Uint32"
func funcKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return ""
	}
	if fn.Pkg == nil {
		return ""
	}
	p := shortPkg(fn.Pkg.Pkg.Path())
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + fn.Name()
		}
		return ""
	}
	return p + "." + fn.Name()
}

type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
	Kind   string // select, range (map range), loop
}

func (p *Program) loopsOf(fn *ssa.Function) []*Loop {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	byH := map[*ssa.BasicBlock]*Loop{}
	var out []*Loop
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := byH[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					byH[s] = l
					out = append(out, l)
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.Blocks[x] {
						return
					}
					l.Blocks[x] = true
					for _, q := range x.Preds {
						add(q)
					}
				}
				add(b)
			}
		}
	}
	for _, l := range out {
		l.Kind = "loop"
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				switch in.(type) {
				case *ssa.Select:
					l.Kind = "select"
				}
			}
		}
		if l.Kind == "loop" {
			for _, in := range l.Header.Instrs {
				if n, ok := in.(*ssa.Next); ok && !n.IsString {
					l.Kind = "range"
				}
			}
		}
	}
	p.loops[fn] = out
	return out
}
func (p *Program) loopAt(b *ssa.BasicBlock) *Loop {
	for _, l := range p.loopsOf(b.Parent()) {
		if l.Header == b {
			return l
		}
	}
	return nil
}
