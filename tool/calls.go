package main

import (
	"fmt"
	"os"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ReflVal struct{ V Iface }

func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, fv Value, args []Value, pos token.Pos, k Cont) {
	x.use(st)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, b.Name(), c, args, pos, k)
		return
	}
	if c.IsInvoke() {
		if rv, ok := fv.(Scalar); ok {
			_ = rv
			panic(unsupportedErr{"method call on " + c.Value.Type().String()})
		}
		i, ok := fv.(Iface)
		if !ok {
			panic(unsupportedErr{"interface call"})
		}
		x.invoke(st, fr, i, c.Value.Type(), c.Method, args, pos, k)
		return
	}
	f, ok := fv.(Func)
	if !ok {
		panic(unsupportedErr{"call of non-function"})
	}
	x.callFunc(st, fr, f, args, pos, k)
}

func (x *Exec) callFunc(st *State, fr *Frame, f Func, args []Value, pos token.Pos, k Cont) {
	if f.Fn != nil {
		x.callFn(st, fr, f.Fn, f.Bind, args, pos, k)
		return
	}
	if f.ID.isInt() && f.ID.I.Sign() != 0 {
		if g, ok := st.funcVal(f.ID).(Func); ok && g.Fn != nil {
			x.callFn(st, fr, g.Fn, g.Bind, args, pos, k)
			return
		}
	}
	x.must(st, "panic", "call of nil function", pos, Ne(f.ID, Int(0)))
	// one of the functions known to the program
	var cs []*ssa.Function
	for _, t := range st.possible(f.ID) {
		if t.isInt() && t.I.IsInt64() {
			if g := funcByID[int(t.I.Int64())]; g != nil {
				cs = append(cs, g)
			}
		}
	}
	if len(cs) == 0 {
		panic(unsupportedErr{"call of an unknown function value"})
	}
	var alts []alt
	rest := True
	for _, g := range cs {
		g := g
		e := Eq(f.ID, funcID(g))
		rest = And(rest, Not(e))
		alts = append(alts, alt{e, "", func(st *State) { x.callFn(st, fr, g, nil, args, pos, k) }})
	}
	if !provableAt(st, Not(rest)) {
		panic(unsupportedErr{"call of an unknown function value"})
	}
	x.fork(st, alts...)
}

// integer constants a term is compared with or may evaluate to on this path
func (st *State) possible(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(c *Term) {
		if c.isInt() && !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	var reads []*Term
	var walk func(u *Term)
	walk = func(u *Term) {
		if u.Op == "ite" {
			walk(u.Args[1])
			walk(u.Args[2])
			return
		}
		if u.Op == "select" {
			reads = append(reads, u)
		}
		add(u)
	}
	walk(t)
	var scan func(h *Term)
	done := map[*Term]bool{}
	scan = func(h *Term) {
		if done[h] {
			return
		}
		done[h] = true
		if h.Op == "=" {
			if h.Args[0] == t {
				walk(h.Args[1])
			}
			if h.Args[1] == t {
				walk(h.Args[0])
			}
			// the same map or array read at another place
			for _, r := range reads {
				for i := 0; i < 2; i++ {
					if o := h.Args[i]; o.Op == "select" && o.Args[0] == r.Args[0] {
						add(h.Args[1-i])
					}
				}
			}
		}
		for _, a := range h.Args {
			if a.Sort == SBool {
				scan(a)
			}
		}
	}
	for _, h := range st.path {
		scan(h)
	}
	// stores into the map or array the value was read from
	var under func(a *Term)
	under = func(a *Term) {
		switch a.Op {
		case "store":
			if a.Args[2].Sort == SInt {
				walk(a.Args[2])
			} else {
				under(a.Args[2])
			}
			under(a.Args[0])
		case "select":
			under(a.Args[0])
		case "ite":
			under(a.Args[1])
			under(a.Args[2])
		}
	}
	if t.Op == "select" {
		under(t.Args[0])
	}
	if t.Op == "ite" {
		for _, b := range t.Args[1:] {
			if b.Op == "select" {
				under(b.Args[0])
			}
		}
	}
	return out
}

// use what the path knows about the dynamic type
func (st *State) resolve(i Iface) Iface {
	if i.Dyn != nil || i.Tag.isInt() {
		return i
	}
	for id := 1; id <= len(tagIDs); id++ {
		c := Eq(i.Tag, Int(int64(id)))
		if c == True || st.facts.known(c) {
			return st.mkIface(Int(int64(id)), i.Data).(Iface)
		}
	}
	return i
}

func ifaceKey(t types.Type) string { return typeKey(t) }

func (x *Exec) invoke(st *State, fr *Frame, i Iface, it types.Type, m *types.Func, args []Value, pos token.Pos, k Cont) {
	x.must(st, "panic", "method call on nil interface", pos, Ne(i.Tag, Int(0)))
	if st.dead {
		return
	}
	i = st.resolve(i)
	if i.Dyn != nil {
		if tv, ok := i.Val.(TypeVal); ok {
			x.reflectType(st, tv, m.Name(), args, k)
			return
		}
		sel := x.p.Prog.MethodSets.MethodSet(i.Dyn).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			panic(unsupportedErr{"method " + m.Name() + " of " + i.Dyn.String()})
		}
		fn := x.p.Prog.MethodValue(sel)
		x.callFn(st, fr, fn, nil, append([]Value{i.Val}, args...), pos, k)
		return
	}
	if os.Getenv("GOCV_DEBUGL") != "" {
		fmt.Fprintln(os.Stderr, "dynamic call", m.Name(), i.Tag)
	}
	name := m.Name()
	if h, ok := ifaceNatives[name+m.Type().String()]; ok {
		x.stdUsed["io interface contract: "+name] = true
		h(x, st, i, args, pos, k)
		return
	}
	key := ifaceKey(it) + "." + name
	con := x.specs.ifaces[key]
	if con == nil {
		// an embedded interface may carry the contract
		for _, ck := range sortedKeys(x.specs.ifaces) {
			c := x.specs.ifaces[ck]
			if strings.HasSuffix(ck, "."+name) {
				n := x.p.lookupType(strings.TrimSuffix(ck, "."+name))
				if n != nil {
					if ii, ok := under(n).(*types.Interface); ok && types.Implements(it, ii) {
						con, key = c, ck
						break
					}
				}
			}
		}
	}
	if con == nil {
		if it2, ok := it.(*types.Named); ok && it2.Obj().Name() == "Type" && it2.Obj().Pkg().Path() == "reflect" {
			x.reflectSym(st, i, name, args, k)
			return
		}
		if n, ok := it.(*types.Named); ok && (n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)) {
			// a standard interface's query: plain values in and out
			if sig := m.Type().(*types.Signature); plainSig(sig) {
				x.stdUsed["interface "+key+" (a query without effects)"] = true
				var out []Value
				for j := 0; j < sig.Results().Len(); j++ {
					out = append(out, x.symbolic(st, sig.Results().At(j).Type(), name))
				}
				k(st, out)
				return
			}
		}
		panic(unsupportedErr{"no contract for interface method " + key})
	}
	x.callees["interface "+key] = true
	sig := m.Type().(*types.Signature)
	x.contractCall(st, fr, con, key, sig, it, append([]Value{i}, args...), pos, k)
}

func (p *Program) lookupType(key string) types.Type {
	i := strings.LastIndex(key, ".")
	if i < 0 {
		return types.Universe.Lookup(key).Type()
	}
	pk, n := key[:i], key[i+1:]
	for path, pkg := range p.Pkgs {
		if shortPkg(path) == pk {
			if o := pkg.Pkg.Scope().Lookup(n); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	}
	return nil
}

var inlineStd = map[string]bool{
	"encoding/binary.bigEndian.Uint16": true, "encoding/binary.bigEndian.Uint32": true, "encoding/binary.bigEndian.Uint64": true,
	"encoding/binary.bigEndian.PutUint16": true, "encoding/binary.bigEndian.PutUint32": true, "encoding/binary.bigEndian.PutUint64": true,
	"encoding/binary.littleEndian.Uint16": true, "encoding/binary.littleEndian.Uint32": true, "encoding/binary.littleEndian.Uint64": true,
	"encoding/binary.littleEndian.PutUint16": true, "encoding/binary.littleEndian.PutUint32": true, "encoding/binary.littleEndian.PutUint64": true,
	"encoding/binary.bigEndian.AppendUint16": true, "encoding/binary.bigEndian.AppendUint32": true, "encoding/binary.bigEndian.AppendUint64": true,
	"encoding/binary.littleEndian.AppendUint16": true, "encoding/binary.littleEndian.AppendUint32": true, "encoding/binary.littleEndian.AppendUint64": true,
}

// standard functions over plain values: nothing the repository can see changes,
// the results are arbitrary
var plainPkgs = map[string]bool{"time": true, "strconv": true, "strings": true, "math": true, "math/bits": true, "unicode": true, "log": true, "runtime": true, "fmt": true, "math/rand": true}

func (x *Exec) plainStd(st *State, fn *ssa.Function, args []Value, k Cont) bool {
	if fn.Pkg == nil || !plainPkgs[fn.Pkg.Pkg.Path()] || inlineStd[callKey(fn)] {
		return false
	}
	path := fn.Pkg.Pkg.Path()
	if fn.Signature.Recv() != nil && !plainType(fn.Signature.Recv().Type()) {
		return false
	}
	if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic") || strings.HasPrefix(fn.Name(), "Fprint") || strings.Contains(fn.Name(), "can") || fn.Name() == "Goexit" {
		return false
	}
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		if fn.Signature.Variadic() && i == ps.Len()-1 && (path == "fmt" || path == "log") {
			continue
		}
		if !plainType(ps.At(i).Type()) {
			return false
		}
	}
	rs := fn.Signature.Results()
	var out []Value
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		switch {
		case plainType(t) || types.Identical(t, types.Universe.Lookup("error").Type()):
			out = append(out, x.symbolic(st, t, fn.Name()))
		case isChan(t):
			out = append(out, Scalar{x.alloc(st)})
		default:
			return false
		}
	}
	k(st, out)
	return true
}
func plainSig(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		if !plainType(s.Params().At(i).Type()) {
			return false
		}
	}
	for i := 0; i < s.Results().Len(); i++ {
		if !plainType(s.Results().At(i).Type()) {
			return false
		}
	}
	return s.Results().Len() > 0
}
func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func plainType(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer && u.Kind() != types.Float32 && u.Kind() != types.Float64
	case *types.Struct:
		n, ok := t.(*types.Named)
		return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time"
	}
	return false
}

func inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path() == modPath || strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
	}
	if fn.Parent() != nil {
		return inModule(fn.Parent())
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	return false
}

// key of a function including wrappers for promoted and bound methods
func callKey(fn *ssa.Function) string {
	if fn.Pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil && fn.Signature.Recv() != nil {
		t := fn.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return funcKey(fn)
}

func (x *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, bind []Value, args []Value, pos token.Pos, k Cont) {
	x.use(st)
	if (x.initMode || x.initUnit) && fn.Name() == "init" && fn.Synthetic != "" {
		k(st, nil)
		return
	}
	key := callKey(fn)
	if h, ok := natives[key]; ok {
		x.stdUsed[key] = true
		h(x, st, args, pos, k)
		return
	}
	if con := x.specs.funcs[key]; con != nil && !con.Inline && fn.Parent() == nil && !(x.initMode && con.Trusted == "") {
		x.callees[key] = true
		x.contractCall(st, fr, con, key, fn.Signature, nil, args, pos, k)
		return
	}
	if x.plainStd(st, fn, args, k) {
		x.stdUsed[key] = true
		return
	}
	if !inModule(fn) && !inlineStd[key] && fn.Synthetic == "" {
		panic(unsupportedErr{"no contract for " + fn.String()})
	}
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			n := 0
			for g := fr; g != nil; g = g.up {
				if g.fn == fn {
					n++
				}
			}
			if n > 8 {
				panic(unsupportedErr{"recursion of " + fn.String() + " without a contract"})
			}
		}
	}
	if inModule(fn) {
		x.inlined[fn.String()] = true
	} else {
		x.stdUsed[key+" (inlined)"] = true
	}
	x.enter(st, fn, bind, args, fr, func(st *State, rs []Value) { k(st, rs) })
}

// ---- contracts at call sites

func (x *Exec) contractEnv(con *Contract, sig *types.Signature, recvT types.Type, args []Value) map[string]TV {
	env := map[string]TV{}
	var ts []types.Type
	if sig.Recv() != nil {
		if recvT != nil {
			ts = append(ts, recvT)
		} else {
			ts = append(ts, sig.Recv().Type())
		}
	} else if recvT != nil {
		ts = append(ts, recvT)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	if len(con.Params) != len(args) || len(ts) != len(args) {
		panic(unsupportedErr{"contract of " + con.Key + " does not fit the function's signature"})
	}
	for i, n := range con.Params {
		env[n] = goTV(args[i], ts[i])
	}
	return env
}

func (x *Exec) contractCall(st *State, fr *Frame, con *Contract, key string, sig *types.Signature, recvT types.Type, args []Value, pos token.Pos, k Cont) {
	env := x.contractEnv(con, sig, recvT, args)
	if sig.Recv() != nil && recvT == nil {
		if p, ok := args[0].(Ptr); ok {
			x.nonNil(st, p, pos, "receiver of "+key)
			if st.dead {
				return
			}
		}
	}
	for _, c := range con.Req {
		t := x.evalBool(st, st, env, c)
		x.oblige(st, "requires", key+": "+c.Label, nil, pos, t)
		st.assume(t)
		x.use(st)
		if st.dead {
			return
		}
	}
	x.lockCall(st, key, con, pos)
	pre := st.snap()
	x.havocMods(st, con, env, pre)
	x.bump(st, callGap)
	st.epoch++
	x.use(st)
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		v := x.symbolic(st, t, shortName(key))
		rs = append(rs, v)
		if i < len(con.Results) {
			env[con.Results[i]] = goTV(v, t)
		}
	}
	if con.Pure != "" {
		for i := range rs {
			t := sig.Results().At(i).Type()
			rs[i] = st.pureRes(key, i, t, args, true)
			if i < len(con.Results) {
				env[con.Results[i]] = goTV(rs[i], t)
			}
		}
	}
	np := len(st.path)
	for _, c := range con.Ens {
		st.assume(x.evalBool(st, pre, env, c))
		x.use(st)
	}
	if !st.dead {
		x.sigRes = nil
		for i := 0; i < sig.Results().Len(); i++ {
			x.sigRes = append(x.sigRes, sig.Results().At(i).Type())
		}
		x.settle(st, rs, pre, st.path[np:])
		if con.Pure == "" {
			for i := range rs {
				if i < len(con.Results) {
					env[con.Results[i]] = goTV(rs[i], sig.Results().At(i).Type())
				}
			}
		}
	}
	if x.trial == 0 && x.peek == nil && !x.feasible(st) && x.feasible(pre) {
		// a contract always leaves a way to go on: this one would make what follows hold vacuously
		panic(unsupportedErr{"the contract of " + key + " cannot be met at a call in " + x.name})
	}
	if st.dead {
		return
	}
	for i := range rs {
		if f, ok := rs[i].(Iface); ok {
			rs[i] = st.resolve(f)
		}
	}
	if con.Event {
		st.events = append(st.events, Event{Kind: "call", Name: key, Args: args, Res: rs, Pre: pre})
	}
	k(st, rs)
}

// results and ids in new objects that the contract equates with something
// known: what follows uses that (the equations stay assumed)
func (x *Exec) settle(st *State, rs []Value, pre *State, path []*Term) {
	resv := map[*Term]bool{}
	for _, r := range rs {
		if ls, ok := st.valLeaves(r); ok {
			for _, t := range ls {
				if t.Op == "var" {
					resv[t] = true
				}
			}
		}
	}
	if len(resv) == 0 {
		return
	}
	eqs := flattenAnd(path)
	sub := map[*Term]*Term{}
	for _, e := range eqs {
		if e.Op != "=" || e.Args[0].Sort != SInt {
			continue
		}
		for k := 0; k < 2; k++ {
			a, b := e.Args[k], e.Args[1-k]
			if resv[a] && sub[a] == nil && !mentions(b, resv) {
				sub[a] = b
			}
		}
	}
	comps := map[*Term]string{}
	for c, v := range x.compVar {
		if st.heap[c] == nil && v.Sort == ArrOf(SInt) {
			comps[v] = c
		}
	}
	for c, t := range st.heap {
		if t.Sort == ArrOf(SInt) {
			comps[t] = c
		}
	}
	type upd struct {
		c    string
		i, t *Term
	}
	var us []upd
	for _, e := range eqs {
		if e.Op != "=" || e.Args[0].Sort != SInt {
			continue
		}
		for k := 0; k < 2; k++ {
			a, b := e.Args[k], e.Args[1-k]
			if a.Op != "select" || !resv[a.Args[1]] {
				continue
			}
			c, ok := comps[a.Args[0]]
			i := a.Args[1]
			if s := sub[i]; s != nil {
				i = s
			}
			if !ok || !provable(Sub(i, BigT(pre.ctr))) || b.Op == "select" && resv[b.Args[1]] {
				continue
			}
			us = append(us, upd{c, i, Subst(b, sub)})
			break
		}
	}
	for _, u := range us {
		t := st.heap[u.c]
		if t == nil {
			t = x.compVar[u.c]
		}
		st.set(u.c, Store(t, u.i, u.t))
	}
	if len(sub) == 0 {
		return
	}
	for i, r := range rs {
		ls, ok := st.valLeaves(r)
		if !ok {
			continue
		}
		switch r.(type) {
		case Ptr, Scalar, Iface, Slice:
		default:
			continue
		}
		n := make([]*Term, len(ls))
		ch := false
		for j, t := range ls {
			n[j] = t
			if s := sub[t]; s != nil {
				n[j] = s
				ch = true
			}
		}
		if ch {
			rs[i] = st.fromLeaves(n, x.sigRes[i])
		}
	}
}

// the result of a pure method: a function of its arguments
func (st *State) pureRes(key string, i int, t types.Type, args []Value, facts bool) Value {
	var as []*Term
	for i := range args {
		ls, ok := st.valLeaves(args[i])
		if !ok {
			panic(unsupportedErr{"pure call argument"})
		}
		as = append(as, ls...)
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for j, l := range ls {
		ts[j] = App(fmt.Sprintf("pure:%s:%d%s", key, i, l.Path), l.Sort, l.Rng, as...)
		if l.Ptr && facts {
			st.ptrFact(ts[j])
		}
	}
	return st.fromLeaves(ts, t)
}

func shortName(k string) string { return k[strings.LastIndex(k, ".")+1:] }

// ---- go statements

func (x *Exec) goStmt(st *State, fr *Frame, v *ssa.Go) {
	c := &v.Call
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	ev := Event{Kind: "go"}
	if c.IsInvoke() {
		i := x.val(st, fr, c.Value).(Iface)
		x.must(st, "panic", "go on nil interface", v.Pos(), Ne(i.Tag, Int(0)))
		ev.Name = ifaceKey(c.Value.Type()) + "." + c.Method.Name()
		ev.Args = append([]Value{i}, args...)
		if con := x.specs.ifaces[ev.Name]; con != nil {
			x.callees["interface "+ev.Name] = true
			x.spawnReq(st, con, ev.Name, c.Method.Type().(*types.Signature), c.Value.Type(), ev.Args, v.Pos())
		}
		st.events = append(st.events, ev)
		return
	}
	f, ok := x.val(st, fr, c.Value).(Func)
	if !ok || f.Fn == nil {
		panic(unsupportedErr{"go of unknown function"})
	}
	ev.Name = callKey(f.Fn)
	ev.Args = args
	if con := x.specs.funcs[ev.Name]; con != nil && f.Fn.Parent() == nil && !con.Inline {
		x.callees[ev.Name] = true
		x.spawnReq(st, con, ev.Name, f.Fn.Signature, nil, args, v.Pos())
		st.events = append(st.events, ev)
		return
	}
	ev.Name = "func"
	st.events = append(st.events, ev)
	x.runSpawn(st, f, args, v.Pos())
}

func (x *Exec) spawnReq(st *State, con *Contract, key string, sig *types.Signature, recvT types.Type, args []Value, pos token.Pos) {
	env := x.contractEnv(con, sig, recvT, args)
	for _, c := range con.Req {
		t := x.evalBool(st, st, env, c)
		x.oblige(st, "requires", "go "+key+": "+c.Label, nil, pos, t)
	}
}

// ---- builtins

func (x *Exec) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []Value, pos token.Pos, k Cont) {
	ret := func(v Value) { k(st, []Value{v}) }
	switch name {
	case "len":
		switch a := args[0].(type) {
		case Slice:
			ret(Scalar{a.Len})
		case Scalar:
			switch under(c.Args[0].Type()).(type) {
			case *types.Map:
				x.guardedMap(st, a.T, pos)
				ret(Scalar{App("maplen", SInt, lenRng, st.mapDom(a.T, under(c.Args[0].Type()).(*types.Map)))})
			case *types.Chan:
				ret(Scalar{FreshVar("chanlen", SInt, lenRng)})
			default:
				ret(Scalar{x.strLen(a.T)})
			}
		case Array:
			ret(Scalar{Int(under(a.T).(*types.Array).Len())})
		case Ptr:
			ret(Scalar{Int(under(a.Elem).(*types.Array).Len())})
		default:
			panic(unsupportedErr{"len"})
		}
	case "cap":
		if a, ok := args[0].(Slice); ok {
			ret(Scalar{a.Cap})
			return
		}
		panic(unsupportedErr{"cap"})
	case "append":
		x.appendTo(st, args[0].(Slice), args[1], c.Args[1].Type(), pos, func(st *State, s Slice) { k(st, []Value{s}) })
	case "copy":
		d := args[0].(Slice)
		src, ok := args[1].(Slice)
		if !ok {
			panic(unsupportedErr{"copy from string"})
		}
		n := Ite(Le(src.Len, d.Len), src.Len, d.Len)
		ls := elemLeaves(d.Elem)
		if len(ls) != 1 || ls[0].Sort != SSeq {
			panic(unsupportedErr{"copy of " + d.Elem.String()})
		}
		x.writable(st, &d.Arr, pos)
		v := Extract(st.seqOf(src), Int(0), n)
		x.setSlice(st, d, Int(0), v)
		ret(Scalar{n})
	case "delete":
		m := args[0].(Scalar).T
		x.guardedMap(st, m, pos)
		st.mapDel(m, under(c.Args[0].Type()).(*types.Map), st.mapKey(args[1]))
		k(st, nil)
	case "close":
		x.closeChan(st, args[0].(Scalar).T, under(c.Args[0].Type()).(*types.Chan).Elem(), pos)
		k(st, nil)
	case "min", "max":
		r := args[0].(Scalar).T
		for _, a := range args[1:] {
			t := a.(Scalar).T
			if name == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Ge(r, t), r, t)
			}
		}
		ret(Scalar{r})
	case "print", "println":
		k(st, nil)
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		x.nonNil(st, p, pos, "call")
		ret(p)
	default:
		panic(unsupportedErr{"builtin " + name})
	}
}

func (x *Exec) strLen(t *Term) *Term {
	if t.isInt() && t.I.IsInt64() {
		if t.I.Sign() == 0 {
			return Int(0)
		}
		if s, ok := strVals[int(t.I.Int64())]; ok {
			return Int(int64(len(s)))
		}
	}
	return App("strlen", SInt, lenRng, t)
}

func (x *Exec) setSlice(st *State, d Slice, off, v *Term) {
	l := elemLeaves(d.Elem)[0]
	c := st.arrContent(d.Arr, l)
	st.setArrContent(d.Arr, l, Splice(c, Add(d.Off, off), v))
}

func (x *Exec) appendTo(st *State, s Slice, more Value, mt types.Type, pos token.Pos, k func(*State, Slice)) {
	var n *Term
	var get func(st *State, l Leaf) *Term
	switch m := more.(type) {
	case Slice:
		n = m.Len
		get = func(st *State, l Leaf) *Term { return st.seqOfLeaf(m, l) }
	case Scalar:
		c := App("strbytes", SSeq, byteRng, m.T)
		if m.T.isInt() && m.T.I.IsInt64() {
			c = bytesLit([]byte(strVals[int(m.T.I.Int64())]))
		}
		n = Len(c)
		get = func(*State, Leaf) *Term { return c }
	default:
		panic(unsupportedErr{"append"})
	}
	if n == Int(0) {
		k(st, s)
		return
	}
	total := Add(s.Len, n)
	fits := Le(total, s.Cap)
	some := Gt(n, Int(0))
	var alts []alt
	if some != True {
		alts = append(alts, alt{Not(some), "nothing to append", func(st *State) { k(st, s) }})
	}
	x.fork(st, append(alts,
		alt{And(some, fits), "append in place", func(st *State) {
			x.writable(st, &s.Arr, pos)
			for _, l := range elemLeaves(s.Elem) {
				c := st.arrContent(s.Arr, l)
				st.setArrContent(s.Arr, l, Splice(c, Add(s.Off, s.Len), get(st, l)))
			}
			r := s
			r.Len = total
			k(st, r)
		}},
		alt{Not(fits), "append reallocates", func(st *State) {
			a := x.alloc(st)
			r := Slice{Arr: ArrLoc{Comp: arrComp(s.Elem), Addr: a}, Off: Int(0), Len: total, Elem: s.Elem}
			spare := FreshVar("spare", SInt, lenRng)
			r.Cap = Add(total, spare)
			st.assume(Le(r.Cap, BigT(maxLen)))
			x.use(st)
			for _, l := range elemLeaves(s.Elem) {
				old := emptyOf(l.Sort)
				if s.Len != Int(0) {
					old = st.seqOfLeaf(s, l)
				}
				j := FreshVar("sparec", l.Sort, l.Rng)
				st.assume(Eq(Len(j), spare))
				x.use(st)
				st.setArrContent(r.Arr, l, Concat(l.Sort, old, get(st, l), j))
			}
			st.set("frozen:"+r.Arr.Comp, Store(st.get("frozen:"+r.Arr.Comp, ArrOf(SBool), nil), a, False))
			k(st, r)
		}})...)
}

// the goal follows from the facts of the path
func provableAt(st *State, goal *Term) bool {
	return quickProve(st.path, goal, 200) || quickProve(st.path, goal, 5000)
}
