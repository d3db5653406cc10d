package main

// Package initialisation: the values of package-level variables that no function of the
// repository changes afterwards, obtained by executing the packages' init functions
// symbolically.

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// the fields and element types that functions other than package initialisers store to
type mutableSet struct {
	fields map[string]bool // typeKey(T).f
	owners map[string]bool // typeKey(T)
	arrs   map[string]bool
	maps   map[string]bool
	vars   map[*ssa.Global]bool
}

func (p *Program) mutable() *mutableSet {
	if p.mut != nil {
		return p.mut
	}
	m := &mutableSet{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[*ssa.Global]bool{}}
	for _, fn := range p.All {
		if fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					m.addr(i.Addr)
				case *ssa.MapUpdate:
					if _, ok := i.Map.(*ssa.MakeMap); !ok {
						m.maps[typeKey(i.Map.Type())] = true
					}
				}
			}
		}
	}
	p.mut = m
	return m
}

func (m *mutableSet) addr(a ssa.Value) {
	fresh := func(v ssa.Value) bool {
		for {
			switch w := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = w.X
			case *ssa.IndexAddr:
				if _, ok := w.X.Type().Underlying().(*types.Pointer); !ok {
					return false
				}
				v = w.X
			default:
				return false
			}
		}
	}
	if fresh(a) {
		return
	}
	switch w := a.(type) {
	case *ssa.Global:
		m.vars[w] = true
	case *ssa.FieldAddr:
		pt := w.X.Type().Underlying().(*types.Pointer).Elem()
		f := pt.Underlying().(*types.Struct).Field(w.Field).Name()
		m.fields[typeKey(pt)+"."+f] = true
		m.owners[typeKey(pt)] = true
		if g, ok := w.X.(*ssa.Global); ok {
			m.vars[g] = true
		}
	case *ssa.IndexAddr:
		t := w.X.Type().Underlying()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem().Underlying()
		}
		switch u := t.(type) {
		case *types.Slice:
			m.arrs[typeKey(under2(u.Elem()))] = true
		case *types.Array:
			m.arrs[typeKey(under2(u.Elem()))] = true
		}
	default:
		if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
			k := typeKey(pt.Elem())
			m.owners[k] = true
			if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					m.fields[k+"."+st.Field(i).Name()] = true
				}
			} else {
				m.fields[k] = true
			}
		}
	}
}

// may a heap component be changed after initialisation (at objects made during it)?
func (m *mutableSet) comp(c string) bool {
	switch {
	case strings.HasPrefix(c, "arr:"):
		return m.arrs[strings.SplitN(c[4:], "|", 2)[0]] || m.arrs[c[4:]] || strings.HasPrefix(c, "arr:uint8")
	case strings.HasPrefix(c, "map"):
		for k := range m.maps {
			if strings.Contains(c, k) {
				return true
			}
		}
		return false
	}
	for k := range m.fields {
		if c == k || strings.HasPrefix(c, k+".") || strings.HasPrefix(c, k+"|") {
			return true
		}
	}
	return false
}

// skip: the package whose own initialiser is under verification (nil: none)
func (x *Exec) initHeap(st *State, skip *ssa.Package) {
	y := newExec(x.p, x.specs)
	y.name = "package initialisation"
	y.initMode = true
	y.con = &Contract{Key: y.name}
	y.closures = x.closures
	s := st
	s.x = y
	ctr := s.ctr
	s.ctr = big64(5000)
	// dependency order
	var pkgs []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package{}, p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if strings.HasPrefix(p.Path(), modPath) {
			if sp := x.p.Pkgs[p.Path()]; sp != nil && sp != skip {
				pkgs = append(pkgs, sp)
			}
		}
	}
	visit(x.fn.Package().Pkg)
	done := false
	var run func(i int, st *State)
	run = func(i int, st *State) {
		if i == len(pkgs) {
			if done {
				panic(unsupportedErr{"package initialisation branches"})
			}
			done = true
			s = st
			return
		}
		fn := pkgs[i].Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			run(i+1, st)
			return
		}
		if g, ok := pkgs[i].Members["init$guard"].(*ssa.Global); ok {
			st.store(Ptr{Root: types.Typ[types.Bool], Addr: globalAddr(g), Elem: types.Typ[types.Bool]}, Scalar{False})
		}
		y.fn = fn
		y.enter(st, fn, nil, nil, nil, func(st *State, _ []Value) { run(i+1, st) })
	}
	y.guard(func() { run(0, s) })
	if !done {
		why := "package initialisation: " + strings.Join(y.unsup, "; ")
		panic(unsupportedErr{why})
	}
	mut := x.p.mutable()
	gaddr := map[string]bool{}
	for g := range mut.vars {
		gaddr[globalAddr(g).String()] = true
	}
	for _, c := range sortedKeys(s.heap) {
		if strings.HasPrefix(c, "ghost:") || strings.HasPrefix(c, "frozen") || !mut.comp(c) {
			continue
		}
		// keep nothing that may change later, except variables nobody assigns
		b := baseVar(s.heap[c])
		if b.Op != "var" {
			if v := x.compVar[c]; v != nil {
				b = v
			} else if v := y.compVar[c]; v != nil {
				b = v
			}
		}
		t := s.heap[c]
		var keep [][2]*Term
		for t.Op == "store" {
			a := t.Args[1]
			if a.isInt() && a.I.IsInt64() && a.I.Int64() < 5000 && !gaddr[a.String()] {
				keep = append(keep, [2]*Term{a, t.Args[2]})
			}
			t = t.Args[0]
		}
		for i := len(keep) - 1; i >= 0; i-- {
			b = Store(b, keep[i][0], keep[i][1])
		}
		s.heap[c] = b
	}
	for c, v := range y.compVar {
		x.compVar[c] = v
	}
	for c, v := range y.compLeaf {
		x.compLeaf[c] = v
	}
	for k := range y.stdUsed {
		x.stdUsed[k] = true
	}
	for k := range y.inlined {
		x.inlined[k] = true
	}
	x.stdUsed["package-level variables keep the values package initialisation gives them (nobody outside the repository reassigns them)"] = true
	*st = *s
	st.x = x
	st.ctr = ctr
	st.env = map[EnvKey]Value{}
	st.defers = map[int][]Deferred{}
	st.events = nil
	x.use(st)
}

// an error variable that only its package's initialiser assigns, with errors.New
func (p *Program) sentinel(g *ssa.Global) bool {
	if typeKey(g.Type().(*types.Pointer).Elem()) != "error" || g.Pkg == nil {
		return false
	}
	if !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return g.Pkg.Pkg.Path() == "io"
	}
	if p.mutable().vars[g] {
		return false
	}
	fn := g.Pkg.Func("init")
	if fn == nil {
		return false
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok || s.Addr != g {
				continue
			}
			c, ok := s.Val.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil {
				return false
			}
			switch callKey(c.Call.StaticCallee()) {
			case "errors.New", "fmt.Errorf":
				n++
			default:
				return false
			}
		}
	}
	return n == 1
}
