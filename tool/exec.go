package main

// Symbolic execution of go/ssa in continuation-passing style.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

func constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Scalar{BoolT(constant.BoolVal(c.Value))}
	case constant.String:
		return Scalar{strConst(constant.StringVal(c.Value))}
	case constant.Int:
		if _, _, ok := intInfo(t); ok {
			n, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return Scalar{BigT(n)}
		}
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Scalar{floatConst(c.Value)}
		}
	case constant.Float:
		return Scalar{floatConst(c.Value)}
	}
	panic(unsupportedErr{"constant " + c.String()})
}

func floatConst(v constant.Value) *Term {
	return strConst("float:" + v.ExactString())
}

var globalIDs = map[*ssa.Global]int{}

func globalAddr(g *ssa.Global) *Term {
	id, ok := globalIDs[g]
	if !ok {
		id = len(globalIDs) + 1
		globalIDs[g] = id
	}
	return Int(int64(1000 + id))
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		et := c.Type().(*types.Pointer).Elem()
		return Ptr{Root: et, Addr: globalAddr(c), Elem: et}
	case *ssa.Function:
		return Func{ID: funcID(c), Fn: c}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c {
				return fr.bind[i]
			}
		}
	case *ssa.Builtin:
		return nil
	}
	r, ok := st.env[EnvKey{fr.id, v}]
	if !ok {
		panic(unsupportedErr{fmt.Sprintf("value %s of %s undefined", v.Name(), fr.fn)})
	}
	return r
}
func (x *Exec) term(st *State, fr *Frame, v ssa.Value) *Term {
	r := x.val(st, fr, v)
	if s, ok := r.(Scalar); ok {
		return s.T
	}
	panic(unsupportedErr{fmt.Sprintf("scalar expected for %s (%T)", v.Name(), r)})
}
func (x *Exec) put(st *State, fr *Frame, v ssa.Value, r Value) {
	st.env[EnvKey{fr.id, v}] = r
}

func (x *Exec) newFrame(fn *ssa.Function, bind []Value, up *Frame, ret Cont) *Frame {
	x.frames++
	fr := &Frame{id: x.frames, fn: fn, bind: bind, ret: ret, up: up}
	if up != nil {
		fr.depth = up.depth + 1
	}
	return fr
}

// run fn's body on args
func (x *Exec) enter(st *State, fn *ssa.Function, bind []Value, args []Value, up *Frame, ret Cont) {
	if len(fn.Blocks) == 0 {
		panic(unsupportedErr{"no body for " + fn.String()})
	}
	fr := x.newFrame(fn, bind, up, ret)
	if fr.depth > 60 {
		panic(unsupportedErr{"call depth at " + fn.String()})
	}
	for i, p := range fn.Params {
		x.put(st, fr, p, args[i])
	}
	x.runBlock(st, fr, fn.Blocks[0], nil)
}

func (x *Exec) topLoop() *LoopRun {
	if n := len(x.loopSt); n > 0 {
		return x.loopSt[n-1]
	}
	return nil
}

func (x *Exec) runBlock(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if st.dead {
		return
	}
	x.use(st)
	if top := x.topLoop(); top != nil && top.fr == fr {
		if b == top.loop.Header {
			top.back(st, prev)
			return
		}
		if !top.loop.Blocks[b] {
			top.exits = append(top.exits, loopEx{st, prev != top.loop.Header, func(st *State) { x.runBlock(st, fr, b, prev) }})
			return
		}
	}
	if l := x.p.loopAt(b); l != nil {
		x.enterLoop(st, fr, l, prev)
		return
	}
	x.phis(st, fr, b, prev)
	x.runFrom(st, fr, b, 0)
}

func (x *Exec) phis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	var vals []Value
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, p)
		vals = append(vals, x.val(st, fr, p.Edges[pi]))
	}
	for i, p := range ph {
		x.put(st, fr, p, vals[i])
	}
}

func (x *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	x.use(st)
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		in := b.Instrs[i]
		i := i
		next := func(st *State) { x.runFrom(st, fr, b, i+1) }
		switch v := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			et := v.Type().(*types.Pointer).Elem()
			x.put(st, fr, v, x.newObject(st, et))
		case *ssa.BinOp:
			if x.binop(st, fr, v, next) {
				return
			}
		case *ssa.UnOp:
			switch v.Op {
			case token.MUL:
				p, ok := x.val(st, fr, v.X).(Ptr)
				if !ok {
					panic(unsupportedErr{"load of non-pointer"})
				}
				x.nonNil(st, p, v.Pos(), "load")
				x.guarded(st, p, v.Pos())
				r := st.load(p)
				x.noteGuard(st, p, r)
				if g, ok := v.X.(*ssa.Global); ok && x.p.sentinel(g) {
					if i, ok := r.(Iface); ok {
						st.assume(Ne(i.Tag, Int(0)))
						x.use(st)
						x.stdUsed["package-level error values made with errors.New are not reassigned from outside the repository"] = true
					}
				}
				x.put(st, fr, v, r)
			case token.ARROW:
				ch := x.term(st, fr, v.X)
				et := under(v.X.Type()).(*types.Chan).Elem()
				x.recv(st, ch, et, v.Pos(), func(st *State, val Value, ok *Term) {
					if v.CommaOk {
						x.put(st, fr, v, Tuple{val, Scalar{ok}})
					} else {
						x.put(st, fr, v, val)
					}
					next(st)
				})
				return
			case token.NOT:
				x.put(st, fr, v, Scalar{Not(x.term(st, fr, v.X))})
			case token.SUB:
				if _, _, ok := intInfo(v.Type()); !ok {
					x.put(st, fr, v, Scalar{App("fneg", SInt, nil, x.term(st, fr, v.X))})
				} else {
					x.put(st, fr, v, Scalar{wrap(MulC(x.term(st, fr, v.X), big64(-1)), v.Type())})
				}
			case token.XOR:
				_, s, ok := intInfo(v.Type())
				if !ok {
					panic(unsupportedErr{"^"})
				}
				t := x.term(st, fr, v.X)
				if s {
					x.put(st, fr, v, Scalar{Sub(Int(-1), t)})
				} else {
					x.put(st, fr, v, Scalar{Sub(BigT(rngOf(v.Type()).Hi), t)})
				}
			default:
				panic(unsupportedErr{"unary " + v.Op.String()})
			}
		case *ssa.Store:
			p := x.val(st, fr, v.Addr).(Ptr)
			x.nonNil(st, p, v.Pos(), "store")
			x.guarded(st, p, v.Pos())
			x.writable(st, p.Arr, v.Pos())
			st.store(p, x.val(st, fr, v.Val))
		case *ssa.FieldAddr:
			p := x.val(st, fr, v.X).(Ptr)
			x.nonNil(st, p, v.Pos(), "field access")
			s := under(v.X.Type().(*types.Pointer).Elem()).(*types.Struct)
			f := s.Field(v.Field)
			q := p
			q.Elem = f.Type()
			if p.Arr != nil {
				q.Sub = p.Sub + "." + fieldName(s, v.Field)
			} else {
				q.Path = p.Path + "." + fieldName(s, v.Field)
			}
			x.put(st, fr, v, q)
		case *ssa.Field:
			s := x.val(st, fr, v.X).(Struct)
			x.put(st, fr, v, s.Fields[v.Field])
		case *ssa.IndexAddr:
			idx := x.term(st, fr, v.Index)
			switch a := x.val(st, fr, v.X).(type) {
			case Slice:
				x.bounds(st, idx, a.Len, v.Pos())
				loc := a.Arr
				x.put(st, fr, v, Ptr{Root: a.Elem, Elem: a.Elem, Arr: &loc, Idx: Add(a.Off, idx), Addr: a.Arr.Addr})
			case Ptr:
				x.nonNil(st, a, v.Pos(), "index")
				at := under(a.Elem).(*types.Array)
				x.bounds(st, idx, Int(at.Len()), v.Pos())
				x.put(st, fr, v, Ptr{Root: at.Elem(), Elem: at.Elem(), Arr: st.arrOf(a), Idx: idx, Addr: a.Addr})
			default:
				panic(unsupportedErr{"indexaddr"})
			}
		case *ssa.Index:
			idx := x.term(st, fr, v.Index)
			switch a := x.val(st, fr, v.X).(type) {
			case Array:
				at := under(a.T).(*types.Array)
				x.bounds(st, idx, Int(at.Len()), v.Pos())
				if a.Seq == nil || !isScalar(at.Elem()) {
					panic(unsupportedErr{"index of array value"})
				}
				x.put(st, fr, v, Scalar{Nth(a.Seq, idx)})
			case Scalar: // string
				l := App("strlen", SInt, lenRng, a.T)
				x.bounds(st, idx, l, v.Pos())
				x.put(st, fr, v, Scalar{App("strat", SInt, byteRng, a.T, idx)})
			default:
				panic(unsupportedErr{"index"})
			}
		case *ssa.Slice:
			x.slice(st, fr, v)
		case *ssa.MakeSlice:
			n := x.term(st, fr, v.Len)
			c := x.term(st, fr, v.Cap)
			x.must(st, "panic", "make: length out of range", v.Pos(), And(Ge0(n), Le(n, c), Le(c, BigT(maxLen))))
			x.put(st, fr, v, x.makeSlice(st, under(v.Type()).(*types.Slice).Elem(), n, c))
		case *ssa.MakeMap:
			x.put(st, fr, v, Scalar{x.newMap(st, under(v.Type()).(*types.Map))})
		case *ssa.MakeChan:
			id := x.alloc(st)
			if sz := x.term(st, fr, v.Size); sz != Int(0) {
				st.set("ghost:chancap", Store(st.get("ghost:chancap", ArrOf(SInt), lenRng), id, sz))
			}
			x.put(st, fr, v, Scalar{id})
		case *ssa.MakeInterface:
			x.put(st, fr, v, x.mkIfaceOf(st, x.val(st, fr, v.X), v.X.Type()))
		case *ssa.MakeClosure:
			f := Func{Fn: v.Fn.(*ssa.Function)}
			for _, bv := range v.Bindings {
				f.Bind = append(f.Bind, x.val(st, fr, bv))
			}
			x.put(st, fr, v, f)
		case *ssa.ChangeInterface:
			x.put(st, fr, v, x.val(st, fr, v.X))
		case *ssa.ChangeType:
			x.put(st, fr, v, x.retype(x.val(st, fr, v.X), v.Type()))
		case *ssa.Convert:
			x.put(st, fr, v, x.convert(st, x.val(st, fr, v.X), v.X.Type(), v.Type()))
		case *ssa.Extract:
			t, ok := x.val(st, fr, v.Tuple).(Tuple)
			if !ok {
				panic(unsupportedErr{"extract"})
			}
			x.put(st, fr, v, t[v.Index])
		case *ssa.TypeAssert:
			x.typeAssert(st, fr, v, next)
			return
		case *ssa.Lookup:
			if x.lookup(st, fr, v) {
				continue
			}
		case *ssa.MapUpdate:
			m := x.term(st, fr, v.Map)
			mt := under(v.Map.Type()).(*types.Map)
			x.must(st, "panic", "assignment to nil map", v.Pos(), Ne(m, Int(0)))
			x.guardedMap(st, m, v.Pos())
			st.mapSet(m, mt, x.val(st, fr, v.Key), x.val(st, fr, v.Value))
		case *ssa.Range:
			mt, ok := under(v.X.Type()).(*types.Map)
			if !ok {
				panic(unsupportedErr{"range over string"})
			}
			m := x.term(st, fr, v.X)
			x.guardedMap(st, m, v.Pos())
			x.put(st, fr, v, MapIter{M: m, T: mt})
		case *ssa.Next:
			x.nextMap(st, fr, v, next)
			return
		case *ssa.Send:
			x.send(st, x.term(st, fr, v.Chan), under(v.Chan.Type()).(*types.Chan).Elem(), x.val(st, fr, v.X), v.Pos())
		case *ssa.Select:
			x.sel(st, fr, v, next)
			return
		case *ssa.Go:
			x.goStmt(st, fr, v)
		case *ssa.Defer:
			d := Deferred{call: &v.Call, pos: v.Pos()}
			if !v.Call.IsInvoke() {
				d.fn = x.val(st, fr, v.Call.Value)
			} else {
				d.fn = x.val(st, fr, v.Call.Value)
			}
			for _, a := range v.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			x.runDefers(st, fr, next)
			return
		case *ssa.Call:
			var fv Value
			if _, ok := v.Call.Value.(*ssa.Builtin); !ok {
				fv = x.val(st, fr, v.Call.Value)
			}
			var args []Value
			for _, a := range v.Call.Args {
				args = append(args, x.val(st, fr, a))
			}
			x.call(st, fr, &v.Call, fv, args, v.Pos(), func(st *State, rs []Value) {
				x.use(st)
				switch len(rs) {
				case 0:
				case 1:
					x.put(st, fr, v, rs[0])
				default:
					x.put(st, fr, v, Tuple(rs))
				}
				next(st)
			})
			return
		case *ssa.If:
			c := x.term(st, fr, v.Cond)
			if x.peek != nil && x.peek.fr == fr && x.peek.block == b {
				x.peek.conds = append(x.peek.conds, c)
				return
			}
			if x.collect {
				if top := x.topLoop(); top != nil && top.fr == fr && c != True && c != False {
					x.ifConds = append(x.ifConds, c)
				}
			}
			x.fork(st,
				alt{c, "", func(st *State) { x.runBlock(st, fr, b.Succs[0], b) }},
				alt{Not(c), "", func(st *State) { x.runBlock(st, fr, b.Succs[1], b) }})
			return
		case *ssa.Jump:
			if x.peek != nil && x.peek.fr == fr && x.peek.block == b {
				x.peek.other = true
				return
			}
			x.runBlock(st, fr, b.Succs[0], b)
			return
		case *ssa.Return:
			if x.peek != nil && x.peek.fr == fr {
				x.peek.other = true
				return
			}
			var rs []Value
			for _, r := range v.Results {
				rs = append(rs, x.val(st, fr, r))
			}
			if top := x.topLoop(); top != nil && top.fr == fr {
				top.exits = append(top.exits, loopEx{st, true, func(st *State) { x.runReturn(st, fr, rs) }})
				return
			}
			x.doReturn(st, fr, rs)
			return
		case *ssa.Panic:
			x.oblige(st, "panic", "explicit panic reachable", nil, v.Pos(), False)
			return
		default:
			panic(unsupportedErr{fmt.Sprintf("instruction %T", in)})
		}
	}
}

func (x *Exec) runReturn(st *State, fr *Frame, rs []Value) {
	if top := x.topLoop(); top != nil && top.fr == fr {
		top.exits = append(top.exits, loopEx{st, true, func(st *State) { x.runReturn(st, fr, rs) }})
		return
	}
	x.doReturn(st, fr, rs)
}

func (x *Exec) doReturn(st *State, fr *Frame, rs []Value) {
	x.use(st)
	fr.ret(st, rs)
}

// must: obligation that holds afterwards
func (x *Exec) must(st *State, kind, label string, pos token.Pos, c *Term) {
	x.oblige(st, kind, label, nil, pos, c)
	st.assume(c)
	x.use(st)
}

func (x *Exec) nonNil(st *State, p Ptr, pos token.Pos, what string) {
	if p.Arr != nil {
		return
	}
	c := Ne(p.Addr, Int(0))
	if c == True {
		return
	}
	x.must(st, "panic", "nil pointer dereference", pos, c)
}
func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.must(st, "panic", "index out of range", pos, And(Ge0(i), Lt(i, n)))
}

// location of the array a pointer points to
func (st *State) arrOf(p Ptr) *ArrLoc {
	if p.Arr != nil {
		panic(unsupportedErr{"array inside slice element"})
	}
	return &ArrLoc{Comp: comp(p.Root, p.Path), Addr: p.Addr}
}

func (x *Exec) newObject(st *State, et types.Type) Ptr {
	a := x.alloc(st)
	p := Ptr{Root: et, Addr: a, Elem: et}
	st.store(p, zero(et))
	if _, ok := under(et).(*types.Array); ok {
		st.set("frozen:"+comp(et, ""), Store(st.get("frozen:"+comp(et, ""), ArrOf(SBool), nil), a, False))
	}
	return p
}

func (x *Exec) makeSlice(st *State, et types.Type, n, c *Term) Slice {
	a := x.alloc(st)
	s := Slice{Arr: ArrLoc{Comp: arrComp(et), Addr: a}, Off: Int(0), Len: n, Cap: c, Elem: et}
	for _, l := range elemLeaves(et) {
		z := Zeros(c)
		if l.Sort == SSSeq {
			if c.isInt() && c.I.Sign() == 0 {
				z = EmptySSeq
			} else {
				z = FreshVar("ssjunk", SSSeq, byteRng)
				st.assume(Eq(Len(z), c))
			}
		}
		st.setArrContent(s.Arr, l, z)
	}
	st.set("frozen:"+s.Arr.Comp, Store(st.get("frozen:"+s.Arr.Comp, ArrOf(SBool), nil), a, False))
	return s
}

// a fresh slice with given content (single leaf element types)
func (x *Exec) freshSlice(st *State, et types.Type, content *Term, exact bool) Slice {
	a := x.alloc(st)
	n := Len(content)
	c := n
	s := Slice{Arr: ArrLoc{Comp: arrComp(et), Addr: a}, Off: Int(0), Len: n, Elem: et}
	full := content
	if !exact {
		l := elemLeaves(et)[0]
		junk := FreshVar("spare", l.Sort, l.Rng)
		c = Add(n, Len(junk))
		full = Concat(l.Sort, content, junk)
		st.assume(Le(c, BigT(maxLen)))
	}
	s.Cap = c
	st.setArrContent(s.Arr, elemLeaves(et)[0], full)
	st.set("frozen:"+s.Arr.Comp, Store(st.get("frozen:"+s.Arr.Comp, ArrOf(SBool), nil), a, False))
	return s
}

// writing into an array that was handed over as an element of a [][]byte
func (x *Exec) writable(st *State, a *ArrLoc, pos token.Pos) {
	if a == nil {
		return
	}
	if a.Snap != nil {
		panic(unsupportedErr{"write to a retained byte slice"})
	}
	f := st.isFrozen(*a)
	if f == False || !x.specs.retained[a.Comp] {
		return
	}
	x.must(st, "frame", "write to memory that was handed over", pos, Not(f))
}

func (x *Exec) slice(st *State, fr *Frame, v *ssa.Slice) {
	var lo, hi, max *Term
	if v.Low != nil {
		lo = x.term(st, fr, v.Low)
	} else {
		lo = Int(0)
	}
	if v.High != nil {
		hi = x.term(st, fr, v.High)
	}
	if v.Max != nil {
		max = x.term(st, fr, v.Max)
	}
	switch a := x.val(st, fr, v.X).(type) {
	case Slice:
		if hi == nil {
			hi = a.Len
		}
		if max == nil {
			max = a.Cap
		} else {
			x.must(st, "panic", "slice bounds out of range", v.Pos(), Le(max, a.Cap))
		}
		if v.High == nil {
			x.must(st, "panic", "slice bounds out of range", v.Pos(), And(Ge0(lo), Le(lo, hi)))
		} else {
			x.must(st, "panic", "slice bounds out of range", v.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, max)))
		}
		r := Slice{Arr: a.Arr, Off: Add(a.Off, lo), Len: Sub(hi, lo), Cap: Sub(max, lo), Elem: a.Elem}
		x.put(st, fr, v, r)
	case Ptr:
		x.nonNil(st, a, v.Pos(), "slice")
		at := under(a.Elem).(*types.Array)
		n := Int(at.Len())
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		x.must(st, "panic", "slice bounds out of range", v.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, max), Le(max, n)))
		x.put(st, fr, v, Slice{Arr: *st.arrOf(a), Off: lo, Len: Sub(hi, lo), Cap: Sub(max, lo), Elem: at.Elem()})
	case Scalar:
		if hi == nil {
			hi = App("strlen", SInt, lenRng, a.T)
		}
		x.must(st, "panic", "slice bounds out of range", v.Pos(), And(Ge0(lo), Le(lo, hi), Le(hi, App("strlen", SInt, lenRng, a.T))))
		x.put(st, fr, v, Scalar{App("substr", SInt, nil, a.T, lo, hi)})
	default:
		panic(unsupportedErr{"slice expression"})
	}
}

func (x *Exec) mkIfaceOf(st *State, v Value, t types.Type) Value {
	if i, ok := v.(Iface); ok {
		return i
	}
	i := Iface{Tag: tagOf(t), Dyn: t, Val: v}
	if _, ok := v.(Struct); ok {
		if len(leaves(t)) > 0 {
			i.Data = FreshVar("box", SInt, ptrRng)
		} else {
			i.Data = Int(1)
		}
	} else if f, ok := v.(Func); ok {
		i.Data = st.funcTerm(f)
	}
	i.Data = st.ifaceData(i)
	return i
}

func (x *Exec) retype(v Value, t types.Type) Value {
	switch a := v.(type) {
	case Struct:
		a.T = t
		return a
	case Array:
		a.T = t
		return a
	case Ptr:
		pt := under(t).(*types.Pointer).Elem()
		if a.Arr == nil && a.Path == "" && typeKey(pt) != typeKey(a.Root) {
			panic(unsupportedErr{"pointer type conversion"})
		}
		a.Elem = pt
		return a
	}
	return v
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fb, fok := under(from).(*types.Basic)
	tb, tok := under(to).(*types.Basic)
	s, isS := v.(Scalar)
	if fok && tok && isS {
		fi := fb.Info()&types.IsInteger != 0
		ti := tb.Info()&types.IsInteger != 0
		switch {
		case fi && ti:
			return Scalar{wrap(s.T, to)}
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0:
			if typeKey(under(from)) == typeKey(under(to)) {
				return v
			}
			return Scalar{App("fconv:"+tb.Name()+":"+fb.Name(), SInt, rngOf(to), s.T)}
		case fi && tb.Info()&types.IsString != 0:
			return Scalar{App("runestr", SInt, nil, s.T)}
		}
	}
	if isS && fok && fb.Info()&types.IsString != 0 && isByteSlice(to) {
		c := App("strbytes", SSeq, byteRng, s.T)
		if s.T.isInt() && s.T.I.IsInt64() {
			if lit, ok := strVals[int(s.T.I.Int64())]; ok || s.T.I.Sign() == 0 {
				c = bytesLit([]byte(lit))
			}
		}
		return x.freshSlice(st, under(to).(*types.Slice).Elem(), c, false)
	}
	if sl, ok := v.(Slice); ok && tok && tb.Info()&types.IsString != 0 {
		r := App("bytestr", SInt, nil, st.seqOf(sl))
		return Scalar{r}
	}
	panic(unsupportedErr{fmt.Sprintf("conversion %s to %s", from, to)})
}

func bytesLit(b []byte) *Term {
	var us []*Term
	for _, c := range b {
		us = append(us, Unit(Int(int64(c))))
	}
	return Concat(SSeq, us...)
}

// ---- binary operators; returns true when it took over the continuation

func (x *Exec) binop(st *State, fr *Frame, v *ssa.BinOp, next func(*State)) bool {
	a, b := x.val(st, fr, v.X), x.val(st, fr, v.Y)
	if bt, ok := under(v.X.Type()).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		for _, s := range []Value{a, b} {
			// the empty string is the one without bytes
			if t, ok := s.(Scalar); ok && !t.T.isInt() {
				st.assume(Iff(Eq(x.strLen(t.T), Int(0)), Eq(t.T, Int(0))))
			}
		}
	}
	switch v.Op {
	case token.EQL:
		x.put(st, fr, v, Scalar{x.eqVal(st, a, b, v.X.Type())})
		return false
	case token.NEQ:
		x.put(st, fr, v, Scalar{Not(x.eqVal(st, a, b, v.X.Type()))})
		return false
	}
	p, ok1 := a.(Scalar)
	q, ok2 := b.(Scalar)
	if !ok1 || !ok2 {
		panic(unsupportedErr{"binary operator on composite"})
	}
	w, signed, isInt := intInfo(v.X.Type())
	if !isInt {
		switch v.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			x.put(st, fr, v, Scalar{App("ord:"+v.Op.String(), SBool, nil, p.T, q.T)})
		default:
			x.put(st, fr, v, Scalar{App("op:"+v.Op.String()+typeKey(under(v.Type())), SInt, nil, p.T, q.T)})
		}
		return false
	}
	s, t := p.T, q.T
	var r *Term
	switch v.Op {
	case token.LSS:
		x.put(st, fr, v, Scalar{Lt(s, t)})
		return false
	case token.LEQ:
		x.put(st, fr, v, Scalar{Le(s, t)})
		return false
	case token.GTR:
		x.put(st, fr, v, Scalar{Gt(s, t)})
		return false
	case token.GEQ:
		x.put(st, fr, v, Scalar{Ge(s, t)})
		return false
	case token.ADD:
		r = wrap(Add(s, t), v.Type())
	case token.SUB:
		r = wrap(Sub(s, t), v.Type())
	case token.MUL:
		r = wrap(Mul(s, t), v.Type())
	case token.QUO, token.REM:
		x.must(st, "panic", "division by zero", v.Pos(), Ne(t, Int(0)))
		if signed && !(provable(s) && provable(t)) {
			// truncated division
			sg := Ite(Ge0(s), Ite(Ge0(t), Int(0), Int(1)), Ite(Ge0(t), Int(2), Int(3)))
			_ = sg
			as := Ite(Ge0(s), s, MulC(s, big64(-1)))
			at := Ite(Ge0(t), t, MulC(t, big64(-1)))
			qq := Div(as, at)
			neg := Not(Eq(Ge0(s), Ge0(t)))
			qt := Ite(neg, MulC(qq, big64(-1)), qq)
			if v.Op == token.QUO {
				r = wrap(qt, v.Type())
			} else {
				r = Sub(s, Mul(qt, t))
			}
			break
		}
		if v.Op == token.QUO {
			r = Div(s, t)
		} else {
			r = Mod(s, t)
		}
	case token.SHL:
		if _, ts, _ := intInfo(v.Y.Type()); ts {
			x.must(st, "panic", "negative shift amount", v.Pos(), Ge0(t))
		}
		if t.isInt() && t.I.IsInt64() {
			k := t.I.Int64()
			if k >= int64(w) {
				r = Int(0)
			} else {
				r = wrap(MulC(s, pow2(int(k))), v.Type())
			}
		} else {
			r = App(fmt.Sprintf("shl%d", w), SInt, rngOf(v.Type()), s, t)
		}
	case token.SHR:
		if _, ts, _ := intInfo(v.Y.Type()); ts {
			x.must(st, "panic", "negative shift amount", v.Pos(), Ge0(t))
		}
		if t.isInt() && t.I.IsInt64() {
			k := t.I.Int64()
			if k >= int64(w) && !signed {
				r = Int(0)
			} else {
				if k >= int64(w) {
					k = int64(w)
				}
				r = Div(s, BigT(pow2(int(k))))
			}
		} else {
			r = App(fmt.Sprintf("shr%d", w), SInt, rngOf(v.Type()), s, t)
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if signed && !(provable(s) && provable(t)) {
			r = App(fmt.Sprintf("sbit:%s%d", v.Op, w), SInt, rngOf(v.Type()), s, t)
			break
		}
		switch v.Op {
		case token.AND:
			r = BitAnd(s, t, w)
		case token.OR:
			r = BitOr(s, t, w)
		case token.XOR:
			r = BitXor(s, t, w)
		default:
			hi := rngOf(v.Type()).Hi
			r = BitAnd(s, Sub(BigT(hi), t), w)
		}
	default:
		panic(unsupportedErr{"operator " + v.Op.String()})
	}
	x.put(st, fr, v, Scalar{r})
	return false
}

func (x *Exec) eqVal(st *State, a, b Value, t types.Type) *Term {
	switch p := a.(type) {
	case Scalar:
		if q, ok := b.(Scalar); ok {
			return Eq(p.T, q.T)
		}
		if q, ok := b.(Iface); ok {
			return x.eqVal(st, x.mkIfaceOf(st, a, t), q, t)
		}
	case Ptr:
		q, ok := b.(Ptr)
		if !ok {
			if i, ok := b.(Iface); ok {
				return x.eqVal(st, x.mkIfaceOf(st, a, t), i, t)
			}
			break
		}
		if p.Arr == nil && q.Arr == nil {
			if p.Path == q.Path {
				return Eq(p.Addr, q.Addr)
			}
			if q.Addr == Int(0) || p.Addr == Int(0) {
				return Eq(p.Addr, q.Addr)
			}
			return False
		}
		if q.Arr == nil && q.Addr == Int(0) || p.Arr == nil && p.Addr == Int(0) {
			return False
		}
	case Slice:
		if q, ok := b.(Slice); ok {
			if q.Arr.Addr == Int(0) {
				return Eq(p.Arr.Addr, Int(0))
			}
			if p.Arr.Addr == Int(0) {
				return Eq(q.Arr.Addr, Int(0))
			}
		}
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			q, ok = x.mkIfaceOf(st, b, t).(Iface)
		}
		if ok {
			if p.Tag == Int(0) || q.Tag == Int(0) {
				return Eq(p.Tag, q.Tag)
			}
			return And(Eq(p.Tag, q.Tag), Eq(st.ifaceData(p), st.ifaceData(q)))
		}
	case Func:
		if q, ok := b.(Func); ok {
			if p.Fn != nil && q.Fn == nil && q.ID == Int(0) || q.Fn != nil && p.Fn == nil && p.ID == Int(0) {
				return False
			}
			return Eq(st.funcTerm(p), st.funcTerm(q))
		}
	case Struct:
		if q, ok := b.(Struct); ok {
			u := under(p.T).(*types.Struct)
			var cs []*Term
			for i := range p.Fields {
				cs = append(cs, x.eqVal(st, p.Fields[i], q.Fields[i], u.Field(i).Type()))
			}
			return And(cs...)
		}
	case Array:
		if q, ok := b.(Array); ok && p.Seq != nil && q.Seq != nil {
			return Eq(p.Seq, q.Seq)
		}
	}
	panic(unsupportedErr{fmt.Sprintf("comparison %T %T", a, b)})
}

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert, next func(*State)) {
	i, ok := x.val(st, fr, v.X).(Iface)
	if !ok {
		panic(unsupportedErr{"type assertion"})
	}
	done := func(st *State, val Value, ok *Term) {
		if v.CommaOk {
			x.put(st, fr, v, Tuple{val, Scalar{ok}})
		} else {
			x.put(st, fr, v, val)
		}
		next(st)
	}
	if it, ok := under(v.AssertedType).(*types.Interface); ok {
		if i.Tag == Int(0) {
			if !v.CommaOk {
				x.oblige(st, "panic", "type assertion fails", nil, v.Pos(), False)
				return
			}
			done(st, nilIface, False)
			return
		}
		if i.Dyn != nil {
			if _, tv := i.Val.(TypeVal); !tv {
				if types.Implements(i.Dyn, it) {
					done(st, i, True)
					return
				}
			}
			if !v.CommaOk {
				x.oblige(st, "panic", "type assertion fails", nil, v.Pos(), False)
				return
			}
			done(st, nilIface, False)
			return
		}
		has := And(Ne(i.Tag, Int(0)), App("implements:"+typeKey(v.AssertedType), SBool, nil, i.Tag))
		if st.implKnown(i, it) {
			has = Ne(i.Tag, Int(0))
		}
		if !v.CommaOk {
			x.must(st, "panic", "type assertion fails", v.Pos(), has)
			done(st, i, True)
			return
		}
		x.fork(st,
			alt{has, "", func(st *State) { done(st, i, True) }},
			alt{Not(has), "", func(st *State) { done(st, nilIface, False) }})
		return
	}
	tag := tagOf(v.AssertedType)
	c := Eq(i.Tag, tag)
	val := func(st *State) Value {
		if i.Dyn != nil {
			return i.Val
		}
		return st.unbox(v.AssertedType, i.Data)
	}
	if !v.CommaOk {
		x.must(st, "panic", "type assertion fails", v.Pos(), c)
		if st.dead {
			return
		}
		done(st, val(st), True)
		return
	}
	x.fork(st,
		alt{c, "", func(st *State) { done(st, val(st), True) }},
		alt{Not(c), "", func(st *State) { done(st, zero(v.AssertedType), False) }})
}

// an interface value whose static interface already includes the asserted one
func (st *State) implKnown(i Iface, it *types.Interface) bool { return false }

// ---- maps

func mapComp(t *types.Map) string {
	return "map:" + typeKey(t.Key()) + ":" + typeKey(t.Elem())
}

const keyMul = 4096

func (st *State) mapKey(v Value) *Term {
	switch k := v.(type) {
	case Scalar:
		if k.T.Sort == SBool {
			return Ite(k.T, Int(1), Int(0))
		}
		return k.T
	case Iface:
		// the inverse of the encoding (bound variables)
		if d, t := k.Data, k.Tag; d != nil && d.Op == "div" && t.Op == "mod" && d.Args[0] == t.Args[0] && d.Args[1] == t.Args[1] && d.Args[1] == Int(keyMul) {
			return d.Args[0]
		}
		return Add(MulC(st.ifaceData(k), big64(keyMul)), k.Tag)
	case Ptr:
		if k.Arr == nil && k.Path == "" {
			return k.Addr
		}
	}
	panic(unsupportedErr{fmt.Sprintf("map key %T", v)})
}

var sArrB = ArrOf(SBool)
var sArrI = ArrOf(SInt)

func (st *State) mapDom(m *Term, t *types.Map) *Term {
	return Select(st.get(mapComp(t)+"|dom", ArrOf(sArrB), nil), m)
}
func (st *State) mapVals(m *Term, t *types.Map, l Leaf) *Term {
	s := ArrOf(l.Sort)
	return Select(st.get(mapComp(t)+"|val"+l.Path, ArrOf(s), l.Rng), m)
}
func (st *State) setMapDom(m *Term, t *types.Map, d *Term) {
	c := mapComp(t) + "|dom"
	st.set(c, Store(st.get(c, ArrOf(sArrB), nil), m, d))
}
func (st *State) setMapVals(m *Term, t *types.Map, l Leaf, d *Term) {
	c := mapComp(t) + "|val" + l.Path
	st.set(c, Store(st.get(c, ArrOf(ArrOf(l.Sort)), l.Rng), m, d))
}
func zeroLeaf(l Leaf) *Term {
	switch l.Sort {
	case SBool:
		return False
	case SInt:
		return Int(0)
	}
	return emptyOf(l.Sort)
}
func (x *Exec) newMap(st *State, t *types.Map) *Term {
	m := x.alloc(st)
	st.setMapDom(m, t, ConstArr(sArrB, False))
	for _, l := range leaves(t.Elem()) {
		st.setMapVals(m, t, l, ConstArr(ArrOf(l.Sort), zeroLeaf(l)))
	}
	return m
}

// a missing key reads as the zero value: kept as an invariant of the representation
func (st *State) mapGet(m *Term, t *types.Map, k *Term) (Value, *Term) {
	d := Select(st.mapDom(m, t), k)
	d = And(Ne(m, Int(0)), d)
	ls := leaves(t.Elem())
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		e := Select(st.mapVals(m, t, l), k)
		ts[i] = Ite(d, e, zeroLeaf(l))
		if l.Ptr {
			st.ptrFact(ts[i])
		}
	}
	v := st.fromLeaves(ts, t.Elem())
	st.typeFacts(v, t.Elem())
	return v, d
}
func (st *State) mapSet(m *Term, t *types.Map, key, val Value) {
	k := st.mapKey(key)
	st.setMapDom(m, t, Store(st.mapDom(m, t), k, True))
	ts := st.toLeaves(val, t.Elem())
	for i, l := range leaves(t.Elem()) {
		st.setMapVals(m, t, l, Store(st.mapVals(m, t, l), k, ts[i]))
	}
	if it, ok := st.x.mapKeys[m]; ok {
		st.x.mapKeys[m] = append(it, key)
	}
}
func (st *State) mapDel(m *Term, t *types.Map, k *Term) {
	st.setMapDom(m, t, Store(st.mapDom(m, t), k, False))
	for _, l := range leaves(t.Elem()) {
		st.setMapVals(m, t, l, Store(st.mapVals(m, t, l), k, zeroLeaf(l)))
	}
}

func (x *Exec) lookup(st *State, fr *Frame, v *ssa.Lookup) bool {
	mt, ok := under(v.X.Type()).(*types.Map)
	if !ok {
		s := x.term(st, fr, v.X)
		idx := x.term(st, fr, v.Index)
		x.bounds(st, idx, App("strlen", SInt, lenRng, s), v.Pos())
		x.put(st, fr, v, Scalar{App("strat", SInt, byteRng, s, idx)})
		return true
	}
	m := x.term(st, fr, v.X)
	x.guardedMap(st, m, v.Pos())
	val, in := st.mapGet(m, mt, st.mapKey(x.val(st, fr, v.Index)))
	if v.CommaOk {
		x.put(st, fr, v, Tuple{val, Scalar{in}})
	} else {
		x.put(st, fr, v, val)
	}
	return true
}

// one step of a map iteration: an arbitrary present key, or the end
func (x *Exec) nextMap(st *State, fr *Frame, v *ssa.Next, next func(*State)) {
	it, ok := x.val(st, fr, v.Iter).(MapIter)
	if !ok || v.IsString {
		panic(unsupportedErr{"range over string"})
	}
	tt := v.Type().(*types.Tuple)
	more := FreshVar("more", SBool, nil)
	zk := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return Scalar{Int(0)}
		}
		return zero(t)
	}
	x.fork(st,
		alt{more, "", func(st *State) {
			key := x.symbolic(st, it.T.Key(), "key")
			kt := st.mapKey(key)
			val, in := st.mapGet(it.M, it.T, kt)
			st.assume(in)
			_ = val
			x.use(st)
			val, _ = st.mapGet(it.M, it.T, kt)
			x.rangeKey(st, it, key)
			x.put(st, fr, v, Tuple{Scalar{True}, key, val})
			next(st)
		}},
		alt{Not(more), "", func(st *State) {
			x.put(st, fr, v, Tuple{Scalar{False}, zk(tt.At(1).Type()), zk(tt.At(2).Type())})
			next(st)
		}})
}

func (x *Exec) rangeKey(st *State, it MapIter, key Value) {
	st.rangeKeys = append(st.rangeKeys[:len(st.rangeKeys):len(st.rangeKeys)], key)
}

// ---- defers

func (x *Exec) runDefers(st *State, fr *Frame, next func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		next(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1 : len(ds)-1]
	x.call(st, fr, d.call, d.fn, d.args, d.pos, func(st *State, _ []Value) {
		x.use(st)
		x.runDefers(st, fr, next)
	})
}

// ---- channels

func (x *Exec) chanVal(st *State, et types.Type, val Value) *Term {
	return x.specs.chanInv(x, st, et, val)
}

func (x *Exec) send(st *State, ch *Term, et types.Type, v Value, pos token.Pos) {
	x.use(st)
	noteChan(ch, et)
	x.oblige(st, "panic", "send on a channel that may be closed", nil, pos, Not(x.mayBeClosed(st, ch)))
	if inv := x.chanVal(st, et, v); inv != True {
		x.oblige(st, "channel", "value sent satisfies the channel invariant", nil, pos, inv)
	}
	if i, ok := v.(Iface); ok && typeKey(et) == "error" {
		x.oblige(st, "channel", "no nil error is sent", nil, pos, Ne(i.Tag, Int(0)))
	}
	st.events = append(st.events, Event{Kind: "send", Ch: ch, Elem: et, Val: v})
}

// channels this execution has closed itself
func (x *Exec) mayBeClosed(st *State, ch *Term) *Term {
	if len(st.closedAny) > 0 {
		if k := chanElem[ch]; k == "" || k == "?" {
			return True
		}
		for _, k := range st.closedAny {
			if k == "?" || k == "" || k == chanElem[ch] {
				return True
			}
		}
	}
	r := False
	for _, e := range st.events {
		if e.Kind == "close" {
			r = Or(r, chanEq(e.Ch, ch))
		}
	}
	for _, c := range st.closed {
		r = Or(r, chanEq(c, ch))
	}
	return r
}

// element types of the channels terms stand for; channels of different types are different
var chanElem = map[*Term]string{}

func noteChan(ch *Term, et types.Type) {
	if ch.isInt() || et == nil {
		return
	}
	k := typeKey(et)
	if o, ok := chanElem[ch]; ok && o != k {
		k = "?"
	}
	chanElem[ch] = k
}

func chanEq(a, b *Term) *Term {
	ka, kb := chanElem[a], chanElem[b]
	if ka != "" && kb != "" && ka != "?" && kb != "?" && ka != kb {
		return False
	}
	return Eq(a, b)
}

func (x *Exec) recv(st *State, ch *Term, et types.Type, pos token.Pos, k func(*State, Value, *Term)) {
	x.use(st)
	noteChan(ch, et)
	good := FreshVar("recvok", SBool, nil)
	if x.neverClosed(st, ch) {
		good = True
	}
	x.fork(st,
		alt{good, "", func(st *State) {
			v := x.symbolic(st, et, "recv")
			st.assume(x.chanVal(st, et, v))
			if i, ok := v.(Iface); ok && typeKey(et) == "error" {
				st.assume(Ne(i.Tag, Int(0)))
			}
			x.use(st)
			st.events = append(st.events, Event{Kind: "recv", Ch: ch, Elem: et, Val: v, Ok: True})
			k(st, v, True)
		}},
		alt{Not(good), "", func(st *State) {
			v := zero(et)
			st.events = append(st.events, Event{Kind: "recv", Ch: ch, Elem: et, Val: v, Ok: False})
			k(st, v, False)
		}})
}

func (x *Exec) sel(st *State, fr *Frame, v *ssa.Select, next func(*State)) {
	tt := v.Type().(*types.Tuple)
	var alts []alt
	choice := FreshVar("select", SInt, nil)
	nrecv := 0
	for i, s := range v.States {
		i, s := i, s
		ri := -1
		if s.Dir == types.RecvOnly {
			ri = nrecv
			nrecv++
		}
		ch := x.term(st, fr, s.Chan)
		et := under(s.Chan.Type()).(*types.Chan).Elem()
		alts = append(alts, alt{Eq(choice, Int(int64(i))), fmt.Sprintf("select case %d", i), func(st *State) {
			// a nil channel never becomes ready
			st.assume(Ne(ch, Int(0)))
			res := func(idx int, okv *Term, val Value) Tuple {
				t := Tuple{Scalar{Int(int64(idx))}, Scalar{okv}}
				for j := 2; j < tt.Len(); j++ {
					t = append(t, zero(tt.At(j).Type()))
				}
				if ri >= 0 && val != nil {
					t[2+ri] = val
				}
				return t
			}
			if s.Dir == types.SendOnly {
				x.send(st, ch, et, x.val(st, fr, s.Send), v.Pos())
				x.put(st, fr, v, res(i, False, nil))
				next(st)
				return
			}
			x.recv(st, ch, et, v.Pos(), func(st *State, val Value, okv *Term) {
				x.put(st, fr, v, res(i, okv, val))
				next(st)
			})
		}})
	}
	if !v.Blocking {
		alts = append(alts, alt{Eq(choice, Int(-1)), "select default", func(st *State) {
			t := Tuple{Scalar{Int(-1)}, Scalar{False}}
			for j := 2; j < tt.Len(); j++ {
				t = append(t, zero(tt.At(j).Type()))
			}
			x.put(st, fr, v, t)
			next(st)
		}})
	}
	// the cases are exclusive by construction
	for _, a := range alts {
		s := st.clone()
		x.use(s)
		s.assume(a.cond)
		if a.note != "" {
			s.trail = append(s.trail, a.note)
		}
		run := a.run
		x.guard(func() { run(s) })
	}
}

func (x *Exec) closeChan(st *State, ch *Term, et types.Type, pos token.Pos) {
	x.use(st)
	noteChan(ch, et)
	x.oblige(st, "panic", "close of nil channel", nil, pos, Ne(ch, Int(0)))
	x.oblige(st, "panic", "close of a channel that may be closed", nil, pos, Not(x.mayBeClosed(st, ch)))
	st.events = append(st.events, Event{Kind: "close", Ch: ch, Elem: et})
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOCV_TRACE") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}
