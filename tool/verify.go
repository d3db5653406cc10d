package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type guardInfo struct {
	comp string
	addr *Term
	desc string
}

// ---- channels

func (s *Specs) chanInv(x *Exec, st *State, et types.Type, v Value) *Term {
	r := True
	for _, ci := range s.chans {
		t := x.p.parseType(ci.Type)
		if t == nil || typeKey(t) != typeKey(et) {
			continue
		}
		env := map[string]TV{ci.Var: goTV(v, et)}
		r = And(r, x.evalExpr(st, st, env, ci.E))
	}
	return r
}

func (x *Exec) neverClosed(st *State, ch *Term) bool {
	if x.con == nil || x.env == nil {
		return false
	}
	for _, e := range x.con.Open {
		v := x.evalTV(st, x.old, x.env, e)
		if v.S != nil && Eq(v.S, ch) == True {
			return true
		}
	}
	return false
}

// ---- locks

func (x *Exec) lockOp(st *State, op string, p Ptr, pos token.Pos) {
	c := comp(p.Root, p.Path)
	fld := p.Path
	if i := strings.LastIndex(fld, "."); i >= 0 {
		fld = fld[i+1:]
	}
	if op == "Lock" {
		for _, h := range st.held {
			if h.Comp == c {
				x.oblige(st, "lock", "no mutex is acquired twice ("+c+")", nil, pos, Ne(h.Addr, p.Addr))
			}
		}
		h := Held{Comp: c, Addr: p.Addr, Fld: fld}
		x.interfere(st, p)
		if x.sharedGuards(p) != nil {
			h.At = st.snap()
		}
		st.held = append(st.held, h)
		x.locksSeen++
		return
	}
	for i := len(st.held) - 1; i >= 0; i-- {
		h := st.held[i]
		if h.Comp == c && Eq(h.Addr, p.Addr) == True {
			st.held = append(append([]Held{}, st.held[:i]...), st.held[i+1:]...)
			if h.At != nil {
				x.use(st)
				for _, g := range x.sharedGuards(p) {
					x.oblige(st, "lock", fmt.Sprintf("what a critical section does to %s.%s: %s", g.Type, g.Field, g.Rel.Label), g.Rel.Props, pos, x.evalExpr(st, h.At, x.guardEnv(p, g), g.Rel.E))
				}
				st.freed = append(st.freed, h)
			}
			return
		}
	}
	x.oblige(st, "lock", "unlock of a mutex that is not held ("+c+")", nil, pos, False)
}

// the guards of p's mutex that say what others may do
func (x *Exec) sharedGuards(p Ptr) []*Guard {
	var r []*Guard
	if p.Arr != nil || p.Addr.isInt() && p.Addr.I.Cmp(BASE) >= 0 {
		return nil
	}
	k := typeKey(p.Root)
	for i, g := range x.specs.guards {
		if g.Rel != nil && g.Type == k && p.Path == "."+g.Mutex {
			r = append(r, &x.specs.guards[i])
		}
	}
	return r
}

func (x *Exec) guardEnv(p Ptr, g *Guard) map[string]TV {
	o := Ptr{Root: p.Root, Addr: p.Addr, Elem: p.Root}
	return map[string]TV{g.Var: goTV(o, types.NewPointer(p.Root))}
}

// between two critical sections of one call others may have had theirs
func (x *Exec) interfere(st *State, p Ptr) {
	gs := x.sharedGuards(p)
	if gs == nil {
		return
	}
	again := false
	for _, h := range st.freed {
		again = again || h.Comp == comp(p.Root, p.Path) && Eq(h.Addr, p.Addr) != False
	}
	if !again {
		return
	}
	st.interf = true
	for _, g := range gs {
		pre := st.snap()
		env := x.guardEnv(p, g)
		f := &Expr{Op: "field", Name: g.Field, Args: []*Expr{{Op: "id", Name: g.Var}}}
		x.havocMods(st, &Contract{Key: g.Type + "." + g.Mutex, Mod: []*Expr{{Op: "call", Name: "map", Args: []*Expr{f}}}}, env, pre)
		x.bump(st, callGap)
		x.use(st)
		st.assume(x.evalExpr(st, pre, env, g.Rel.E))
		x.use(st)
	}
}

// a callee may take the locks its code takes
func (x *Exec) lockCall(st *State, key string, con *Contract, pos token.Pos) {
	if len(st.held) == 0 {
		return
	}
	for c := range x.p.mayLock(key) {
		for _, h := range st.held {
			if h.Comp == c {
				x.oblige(st, "lock", "call of "+key+" while holding "+c+", which it may acquire", nil, pos, False)
			}
		}
	}
}

// mutexes (as components) a function may acquire, directly or through calls
func (p *Program) mayLock(key string) map[string]bool {
	if p.locks == nil {
		p.buildLocks()
	}
	return p.locks[key]
}

func mutexField(v ssa.Value) string {
	if f, ok := v.(*ssa.FieldAddr); ok {
		t := f.X.Type().(*types.Pointer).Elem()
		s := under(t).(*types.Struct)
		return comp(t, "."+fieldName(s, f.Field))
	}
	return ""
}

func (p *Program) buildLocks() {
	p.locks = map[string]map[string]bool{}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	own := map[*ssa.Function]map[string]bool{}
	var impls func(c *ssa.CallCommon) []*ssa.Function
	impls = func(c *ssa.CallCommon) []*ssa.Function {
		var out []*ssa.Function
		it, ok := under(c.Value.Type()).(*types.Interface)
		if !ok {
			return nil
		}
		for _, f := range p.All {
			if f.Name() == c.Method.Name() && f.Signature.Recv() != nil {
				if types.Implements(f.Signature.Recv().Type(), it) || types.Implements(types.NewPointer(f.Signature.Recv().Type()), it) {
					out = append(out, f)
				}
			}
		}
		return out
	}
	for _, f := range p.All {
		calls[f] = map[*ssa.Function]bool{}
		own[f] = map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var c *ssa.CallCommon
				switch v := in.(type) {
				case *ssa.Call:
					c = &v.Call
				case *ssa.Defer:
					c = &v.Call
				default:
					continue
				}
				if c.IsInvoke() {
					for _, g := range impls(c) {
						calls[f][g] = true
					}
					continue
				}
				g := c.StaticCallee()
				if g == nil {
					continue
				}
				switch callKey(g) {
				case "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock":
					if m := mutexField(c.Args[0]); m != "" {
						own[f][m] = true
					}
				}
				calls[f][g] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for f, gs := range calls {
			for g := range gs {
				for m := range own[g] {
					if !own[f][m] {
						own[f][m] = true
						ch = true
					}
				}
			}
		}
	}
	for _, f := range p.All {
		if k := funcKey(f); k != "" {
			p.locks[k] = own[f]
		}
	}
	// interface methods: the union of their implementations
	for _, pkg := range p.Pkgs {
		if pkg.Pkg.Path() != modPath && !strings.HasPrefix(pkg.Pkg.Path(), modPath+"/") {
			continue
		}
		for _, n := range pkg.Pkg.Scope().Names() {
			tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			it, ok := under(tn.Type()).(*types.Interface)
			if !ok {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				u := map[string]bool{}
				for _, f := range p.All {
					if f.Name() == it.Method(i).Name() && f.Signature.Recv() != nil && types.Implements(f.Signature.Recv().Type(), it) {
						for m := range own[f] {
							u[m] = true
						}
					}
				}
				p.locks[typeKey(tn.Type())+"."+it.Method(i).Name()] = u
			}
		}
	}
}

func (x *Exec) checkLocks(st, pre *State, pos token.Pos, when string) {
	same := len(st.held) == len(pre.held)
	if same {
		for i := range st.held {
			if st.held[i].Comp != pre.held[i].Comp || st.held[i].Addr != pre.held[i].Addr {
				same = false
			}
		}
	}
	if !same {
		x.oblige(st, "lock", "every mutex acquired is released "+when, nil, pos, False)
	} else if x.locksSeen > 0 {
		x.oblige(st, "lock", "every mutex acquired is released "+when, nil, pos, True)
	}
}

func (x *Exec) guardOf(p Ptr) *Guard {
	if p.Arr != nil {
		return nil
	}
	k := typeKey(p.Root)
	for i, g := range x.specs.guards {
		if g.Type == k && (p.Path == "."+g.Field || strings.HasPrefix(p.Path, "."+g.Field+".")) {
			return &x.specs.guards[i]
		}
	}
	return nil
}

func (x *Exec) holds(st *State, c string, addr *Term) *Term {
	// objects this function allocated are not shared yet
	r := False
	if addr.isInt() && addr.I.Cmp(BASE) >= 0 {
		return True
	}
	for _, h := range st.held {
		if h.Comp == c {
			r = Or(r, Eq(h.Addr, addr))
		}
	}
	return r
}

func (x *Exec) guarded(st *State, p Ptr, pos token.Pos) {
	g := x.guardOf(p)
	if g == nil {
		return
	}
	x.oblige(st, "lock", fmt.Sprintf("%s.%s is accessed under %s", g.Type, g.Field, g.Mutex), nil, pos, x.holds(st, g.Type+"|."+g.Mutex, p.Addr))
}

// contents reached through a guarded field are guarded too
func (x *Exec) noteGuard(st *State, p Ptr, v Value) {
	g := x.guardOf(p)
	if g == nil {
		return
	}
	if s, ok := v.(Scalar); ok {
		if _, isMap := under(p.Elem).(*types.Map); isMap && !s.T.isInt() {
			x.mapGuard[s.T] = guardInfo{g.Type + "|." + g.Mutex, p.Addr, g.Type + "." + g.Field}
		}
	}
}

func (x *Exec) guardedMap(st *State, m *Term, pos token.Pos) {
	gi, ok := x.mapGuard[m]
	if !ok {
		return
	}
	x.oblige(st, "lock", "the map "+gi.desc+" is accessed under its mutex", nil, pos, x.holds(st, gi.comp, gi.addr))
}

// ---- invariants with typed holes

func (x *Exec) holeVals(st *State, fr *Frame, t types.Type, anyInt bool) []TV {
	var out []TV
	seen := map[string]bool{}
	add := func(v Value, ty types.Type) {
		ls, ok := st.valLeaves(v)
		if !ok {
			return
		}
		k := fmt.Sprintf("%T", v)
		for _, l := range ls {
			k += fmt.Sprintf(",%d", l.id)
		}
		if seen[k] {
			return
		}
		seen[k] = true
		out = append(out, goTV(v, ty))
	}
	type ent struct {
		v ssa.Value
		r Value
	}
	var es []ent
	fs := map[int]bool{}
	for f := fr; f != nil; f = f.up {
		fs[f.id] = true
	}
	for k, v := range st.env {
		if fs[k.f] {
			es = append(es, ent{k.v, v})
		}
	}
	sort.Slice(es, func(i, j int) bool {
		a, b := es[i].v, es[j].v
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.Name() < b.Name()
	})
	want := typeKey(t)
	for _, e := range es {
		if _, ok := e.r.(Tuple); ok {
			continue
		}
		if typeKey(e.v.Type()) == want {
			add(e.r, e.v.Type())
			if s, ok := e.r.(Scalar); ok && x.wide && want == "int" {
				if _, phi := e.v.(*ssa.Phi); phi {
					add(Scalar{Sub(s.T, Int(1))}, e.v.Type())
					add(Scalar{Add(s.T, Int(1))}, e.v.Type())
				}
			}
		}
	}
	for _, n := range sortedKeys(x.env) {
		tv := x.env[n]
		if tv.T != nil && tv.V != nil && typeKey(tv.T) == want {
			add(tv.V, tv.T)
		}
	}
	return out
}

func (x *Exec) holes(st *State, fr *Frame, vars []BVar, f func(env map[string]TV)) {
	var rec func(i int, env map[string]TV)
	n := 0
	rec = func(i int, env map[string]TV) {
		if n > 200 {
			return
		}
		if i == len(vars) {
			n++
			f(env)
			return
		}
		t := x.p.parseType(vars[i].Type)
		if t == nil {
			panic(unsupportedErr{"type " + vars[i].Type + " of an invariant variable"})
		}
		for _, v := range x.holeVals(st, fr, t, false) {
			e2 := map[string]TV{}
			for k, w := range env {
				e2[k] = w
			}
			e2[vars[i].Name] = v
			rec(i+1, e2)
		}
	}
	rec(0, x.env)
}

func (x *Exec) userInvs(head *State, fr *Frame, l *Loop) []cand {
	if x.con == nil {
		return nil
	}
	var out []cand
	seen := map[*Term]bool{}
	for _, c := range x.con.Invs {
		c := c
		x.holes(head, fr, c.Vars, func(env map[string]TV) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); ok {
						return
					}
					panic(r)
				}
			}()
			t := x.evalBool(head, x.old, env, c)
			// conjuncts are kept or dropped one by one
			for _, t := range flattenAnd([]*Term{t}) {
				if t == True || seen[t] {
					continue
				}
				seen[t] = true
				out = append(out, cand{t: t, label: c.Label, props: c.Props, user: true, must: c.Label != c.Src && len(c.Vars) == 0})
			}
		})
	}
	return out
}

func (x *Exec) userMeasures(head *State, fr *Frame) []*Term {
	if x.con == nil {
		return nil
	}
	var out []*Term
	for _, c := range x.con.Decr {
		c := c
		x.holes(head, fr, c.Vars, func(env map[string]TV) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); ok {
						return
					}
					panic(r)
				}
			}()
			v := x.evalTV(head, x.old, env, c.E)
			if v.S != nil && v.S.Sort == SInt {
				out = append(out, v.S)
			}
		})
	}
	return out
}

// ---- steps

func (x *Exec) stepsFor(l *Loop, fr *Frame) []*StepSpec {
	if x.con == nil {
		return nil
	}
	var out []*StepSpec
	for _, s := range x.con.Steps {
		if s.Kind == l.Kind || s.Kind == "any" {
			out = append(out, s)
		}
	}
	return out
}

func (x *Exec) stepOuter(st *State, l *Loop, fr *Frame) bool {
	return len(x.loopSt) == 0 && len(x.stepsFor(l, fr)) > 0 && (st.step == nil || len(st.step.specs) == 0)
}

func (x *Exec) checkPrologue(st *State, pos token.Pos) {
	if x.con == nil {
		return
	}
	for _, c := range x.con.Prologue {
		x.oblige(st, "prologue", c.Label, c.Props, pos, x.evalBool(st, x.old, x.env, c))
	}
}

func (x *Exec) checkSteps(st *State, steps []*StepSpec, pre *State, pos token.Pos, exits bool) {
	if x.trial > 0 || x.peek != nil {
		return
	}
	st.exiting = exits
	for _, s := range steps {
		s := s
		run := func(env map[string]TV) {
			t := x.evalBool(st, pre, env, s)
			x.steps[s.Label]++
			n := len(x.obls)
			x.oblige(st, "step", s.Label, s.Props, pos, t)
			if x.con != nil && len(x.con.Split) > 0 {
				var cs []*Term
				for i := n; i < len(x.obls); i++ {
					if x.obls[i].Done {
						continue
					}
					if cs == nil {
						for _, e := range x.con.Split {
							cs = append(cs, x.evalExpr(st, pre, env, e))
						}
					}
					x.obls[i].Cases = cs
				}
			}
		}
		if len(s.Vars) == 0 || st.step == nil || st.step.fr == nil {
			run(x.env)
			continue
		}
		// variables of the loop: one of them has to fit
		any := False
		x.holes(st.step.head, st.step.fr, s.Vars, func(env map[string]TV) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			any = Or(any, x.evalBool(st, pre, env, s))
		})
		x.steps[s.Label]++
		x.oblige(st, "step", s.Label, s.Props, pos, any)
	}
	st.exiting = false
}

// ---- functions

func (x *Exec) sigEnv(con *Contract, fn *ssa.Function, args []Value) map[string]TV {
	env := map[string]TV{}
	if len(con.Params) != len(args) {
		panic(unsupportedErr{fmt.Sprintf("contract of %s names %d parameters, the function has %d", con.Key, len(con.Params), len(args))})
	}
	for i, n := range con.Params {
		env[n] = goTV(args[i], fn.Params[i].Type())
	}
	return env
}

// verify runs the body of fn under con; icon is the interface contract it implements (or nil)
func (x *Exec) verify(fn *ssa.Function, con, icon *Contract) {
	x.fn, x.con = fn, con
	st := x.newState()
	x.use(st)
	switch {
	case fn.Name() == "init" && fn.Synthetic != "":
		x.initUnit = true
		x.initHeap(st, fn.Package())
		if g, ok := fn.Package().Members["init$guard"].(*ssa.Global); ok {
			st.store(Ptr{Root: types.Typ[types.Bool], Addr: globalAddr(g), Elem: types.Typ[types.Bool]}, Scalar{False})
		}
	case con.WithInit || x.onGlobal != nil:
		x.initHeap(st, nil)
	}
	var args []Value
	for i, p := range fn.Params {
		if i == 0 && x.onGlobal != nil {
			g := x.onGlobal
			et := g.Type().(*types.Pointer).Elem()
			v := st.load(Ptr{Root: et, Addr: globalAddr(g), Elem: et})
			if f, ok := v.(Iface); ok && !types.IsInterface(p.Type()) {
				f = st.resolve(f)
				if f.Dyn == nil || !types.Identical(f.Dyn, p.Type()) {
					panic(unsupportedErr{"the dynamic type of " + g.String() + " is not known"})
				}
				v = f.Val
			}
			args = append(args, v)
			continue
		}
		args = append(args, x.symbolic(st, p.Type(), p.Name()))
	}
	x.runFunc(st, fn, nil, args, con, icon)
}

func (x *Exec) runFunc(st *State, fn *ssa.Function, bind []Value, args []Value, con, icon *Contract) {
	x.env = x.sigEnv(con, fn, args)
	for n, v := range x.env {
		for _, t := range leafTerms(st, v) {
			x.inputs[n+t.s] = t.t
		}
	}
	recvNonNil := func() {
		if fn.Signature.Recv() != nil {
			if p, ok := args[0].(Ptr); ok {
				st.assume(Ne(p.Addr, Int(0)))
				x.use(st)
			}
		}
	}
	recvNonNil()
	var ienv map[string]TV
	if icon != nil {
		ienv = map[string]TV{}
		if len(icon.Params) != len(args) {
			panic(unsupportedErr{"interface contract " + icon.Key + " does not fit " + con.Key})
		}
		for i, n := range icon.Params {
			if i == 0 {
				t := fn.Params[0].Type()
				ienv[n] = goTV(x.mkIfaceOf(st, args[0], t), t)
				continue
			}
			ienv[n] = goTV(args[i], fn.Params[i].Type())
		}
		for _, c := range icon.Req {
			st.assume(x.evalBool(st, st, ienv, c))
			x.use(st)
		}
		// the function's own precondition must follow from the interface's
		for _, c := range con.Req {
			x.oblige(st, "conform", "the interface precondition implies: "+c.Label, nil, fn.Pos(), x.evalBool(st, st, x.env, c))
		}
	}
	for _, c := range con.Req {
		st.assume(x.evalBool(st, st, x.env, c))
		x.use(st)
	}
	x.reqOK = x.feasible(st)
	old := st.snap()
	x.old = old
	x.modLocs = x.allLocs(st, old, x.env, con.Mod)
	if icon != nil {
		// effects must be allowed by both
		il := x.allLocs(st, old, ienv, icon.Mod)
		for _, m := range x.modLocs {
			ok := False
			for _, j := range il {
				if j.comp == m.comp {
					if j.whole {
						ok = True
					} else if j.n == nil && !m.whole {
						ok = Or(ok, Eq(j.addr, m.addr))
					} else if !m.whole && m.n != nil {
						ok = Or(ok, And(Eq(j.addr, m.addr), Le(j.off, m.off), Le(Add(m.off, m.n), Add(j.off, j.n))))
					}
				}
			}
			x.oblige(st, "conform", "effects are allowed by the interface contract ("+m.comp+")", nil, fn.Pos(), ok)
		}
	}
	heldPre := st.snap()
	fr := fn
	x.guard(func() {
		x.enter(st, fr, bind, args, nil, func(st *State, rs []Value) {
			x.use(st)
			x.exits++
			env := map[string]TV{}
			for k, v := range x.env {
				env[k] = v
			}
			for i, r := range rs {
				t := fn.Signature.Results().At(i).Type()
				if i < len(con.Results) {
					env[con.Results[i]] = goTV(r, t)
				}
				if icon != nil && i < len(icon.Results) {
					ienv2 := map[string]TV{}
					for k, v := range ienv {
						ienv2[k] = v
					}
					ienv2[icon.Results[i]] = goTV(r, t)
					ienv = ienv2
				}
			}
			pos := fn.Pos()
			for _, u := range con.Uses {
				st.assume(x.useLemma(st, old, env, u))
				x.use(st)
			}
			saved := x.env
			x.env = env
			for _, c := range con.Ens {
				g := x.evalBool(st, old, env, c)
				x.oblige(st, "ensures", c.Label, c.Props, pos, g)
			}
			if icon != nil {
				for _, c := range icon.Ens {
					x.oblige(st, "conform", icon.Key+": "+c.Label, c.Props, pos, x.evalBool(st, old, ienv, c))
				}
			}
			x.env = saved
			if st.step != nil && len(st.step.specs) > 0 {
				x.env = env
				x.checkSteps(st, st.step.specs, st.step.pre, pos, true)
				x.env = saved
			}
			x.checkLocks(st, heldPre, pos, "before returning")
			x.frameCheck(st, old, pos)
		})
	})
}

type namedTerm struct {
	s string
	t *Term
}

func leafTerms(st *State, v TV) []namedTerm {
	if v.V == nil || v.T == nil {
		return nil
	}
	if opaque(v.T) != "" {
		return nil
	}
	ls := leaves(v.T)
	ts, ok := st.valLeaves(v.V)
	if !ok || len(ls) != len(ts) {
		return nil
	}
	var out []namedTerm
	for i := range ls {
		out = append(out, namedTerm{ls[i].Path, ts[i]})
	}
	return out
}

// everything that changed was allowed to change
func (x *Exec) frameCheck(st, old *State, pos token.Pos) {
	if x.trial > 0 || x.con != nil && x.con.World {
		return
	}
	for _, c := range sortedKeys(st.heap) {
		now := st.heap[c]
		if c == "ghost:chancap" {
			continue
		}
		then := old.heap[c]
		if then == nil {
			then = x.compVar[c]
		}
		if then == nil {
			then = baseVar(now)
		}
		if now == then {
			continue
		}
		as, ok := storesBetween(now, then)
		if !ok {
			b := FreshVar("fr", SInt, ptrRng)
			ex := Or(x.modExcept(c, b), Not(Lt(b, BigT(BASE))))
			if ex == True {
				continue
			}
			x.oblige(st, "frame", "only what the contract names is modified ("+c+")", nil, pos, Forall(Or(ex, Eq(Select(now, b), Select(then, b))), b))
			continue
		}
		seen := map[*Term]bool{}
		for _, a := range as {
			if seen[a] {
				continue
			}
			seen[a] = true
			if a.isInt() && a.I.Cmp(BASE) >= 0 {
				continue
			}
			g := Ge(a, BigT(BASE))
			g = Or(g, Eq(Select(now, a), Select(then, a)))
			for _, m := range x.modLocs {
				if m.comp != c {
					continue
				}
				if m.whole {
					g = True
					break
				}
				if m.n == nil {
					g = Or(g, Eq(a, m.addr))
					continue
				}
				// only the named part of the array
				s, t := Select(now, a), Select(then, a)
				e := Add(m.off, m.n)
				x.use(st)
				g = Or(g, And(Eq(a, m.addr), Eq(Len(s), Len(t)), Eq(Extract(s, Int(0), m.off), Extract(t, Int(0), m.off)),
					Eq(Extract(s, e, Sub(Len(s), e)), Extract(t, e, Sub(Len(t), e)))))
			}
			x.oblige(st, "frame", "only what the contract names is modified ("+c+")", nil, pos, g)
		}
	}
}

// ---- goroutine bodies given as closures

func (x *Exec) runSpawn(st *State, f Func, args []Value, pos token.Pos) {
	if x.con == nil || x.con.Spawn == nil {
		// what it does is not known; the rest of the function is still judged
		x.unsupOnce("goroutine closure without a spawn contract")
		return
	}
	if x.trial > 0 || x.peek != nil {
		return
	}
	con := x.con.Spawn
	if len(con.Params) != len(args) {
		panic(unsupportedErr{"spawn contract does not fit the closure's parameters"})
	}
	y := newExec(x.p, x.specs)
	y.name = x.name + " (goroutine)"
	y.fn, y.con = f.Fn, con
	y.base = FreshName("@g")
	y.closures = x.closures
	// the goroutine runs later: what is on the heap then is unknown, but the
	// captured values are what they are now (captured variables are read through the heap)
	s := y.newState()
	s.ctr = st.ctr
	s.path = st.path[:len(st.path):len(st.path)]
	s.facts = newFacts(st.facts)
	s.x = y
	y.use(s)
	// variables captured by reference that nobody writes any more keep their value
	for i, b := range f.Bind {
		p, ok := b.(Ptr)
		if !ok || p.Arr != nil {
			continue
		}
		if x.p.singleStore(f.Fn, i) {
			v := st.load(p)
			saved := s.heap
			s.store(p, v)
			_ = saved
		}
	}
	env := map[string]TV{}
	for k, v := range x.env {
		env["$"+k] = v
		env[k] = v
	}
	for i, n := range con.Params {
		env[n] = goTV(args[i], f.Fn.Params[i].Type())
	}
	for _, c := range con.Req {
		g := x.evalBool(st, x.old, env, c)
		x.oblige(st, "requires", "go func: "+c.Label, nil, pos, g)
		s.assume(y.evalBool(s, s, env, c))
		y.use(s)
	}
	y.env = env
	y.reqOK = y.feasible(s)
	old := s.snap()
	y.old = old
	y.modLocs = y.allLocs(s, old, env, con.Mod)
	y.guard(func() {
		y.enter(s, f.Fn, f.Bind, args, nil, func(s *State, rs []Value) {
			y.use(s)
			y.exits++
			for _, c := range con.Ens {
				y.oblige(s, "ensures", c.Label, c.Props, f.Fn.Pos(), y.evalBool(s, old, env, c))
			}
			if s.step != nil && len(s.step.specs) > 0 {
				y.checkSteps(s, s.step.specs, s.step.pre, f.Fn.Pos(), true)
			}
			y.checkLocks(s, old, f.Fn.Pos(), "before returning")
			y.frameCheck(s, old, f.Fn.Pos())
		})
	})
	x.use(st)
	x.merge(y)
}

func (x *Exec) merge(y *Exec) {
	x.obls = append(x.obls, y.obls...)
	for _, u := range y.unsup {
		x.unsupported(u)
	}
	for k := range y.callees {
		x.callees[k] = true
	}
	for k := range y.inlined {
		x.inlined[k] = true
	}
	for k := range y.stdUsed {
		x.stdUsed[k] = true
	}
	for k, v := range y.steps {
		x.steps["goroutine: "+k] += v
	}
	x.subExits += y.exits
	x.ntriv += y.ntriv
}

// the variable captured as binding i is assigned exactly once, before the closure is made
func (p *Program) singleStore(fn *ssa.Function, i int) bool {
	par := fn.Parent()
	if par == nil {
		return false
	}
	var bound ssa.Value
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				if bound != nil && bound != mc.Bindings[i] {
					return false
				}
				bound = mc.Bindings[i]
			}
		}
	}
	al, ok := bound.(*ssa.Alloc)
	if !ok {
		return false
	}
	n := 0
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al {
			n++
		}
	}
	// writes inside closures
	for _, f := range append([]*ssa.Function{fn}, par.AnonFuncs...) {
		for _, fv := range f.FreeVars {
			if fv.Name() != al.Comment {
				continue
			}
			for _, r := range *fv.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == fv {
					return false
				}
			}
		}
	}
	return n <= 1
}

// ---- lemma uses

func (x *Exec) useLemma(st, old *State, env map[string]TV, e *Expr) *Term {
	// guard ==> lemma(args)
	if e.Op == "bin" && e.Name == "==>" {
		return Implies(x.evalExpr(st, old, env, e.Args[0]), x.useLemma(st, old, env, e.Args[1]))
	}
	if e.Op != "call" {
		panic(unsupportedErr{"use: lemma application expected"})
	}
	l := x.specs.lemmas[e.Name]
	if l == nil {
		panic(unsupportedErr{"unknown lemma " + e.Name})
	}
	x.lemmasUsed[l.Name] = true
	c := &ectx{x: x, st: st, old: old, env: env, cur: st}
	lenv := map[string]TV{}
	if len(e.Args) != len(l.Vars) {
		panic(unsupportedErr{"lemma " + l.Name + ": wrong number of arguments"})
	}
	for i, v := range l.Vars {
		tv := c.eval(e.Args[i])
		if s, _ := sortOfSpec(v.Type); s != nil {
			tv = specTV(c.mathOf(tv, e))
			if (s == SSeq || s == SSSeq) && tv.S.Sort != s {
				tv = specTV(c.seq(e.Args[i]))
			}
		}
		lenv[v.Name] = tv
	}
	req, ens := True, True
	for _, q := range l.Req {
		req = And(req, x.evalBool(st, old, lenv, q))
	}
	for _, q := range l.Ens {
		ens = And(ens, x.evalBool(st, old, lenv, q))
	}
	return Implies(req, ens)
}
