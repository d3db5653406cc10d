package main

// The contract language: evaluation of expressions over symbolic states.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// TV is a value of the contract language: a Go value with its type, or a mathematical term.
type TV struct {
	V   Value
	T   types.Type // nil: mathematical
	S   *Term
	Loc *Ptr
	Nil bool
}

func goTV(v Value, t types.Type) TV {
	r := TV{V: v, T: t}
	if s, ok := v.(Scalar); ok {
		r.S = s.T
	}
	return r
}
func specTV(t *Term) TV { return TV{S: t} }

type ectx struct {
	outer bool // events of the enclosing loop's iteration, up to this loop
	x       *Exec
	st, old *State
	env     map[string]TV
	cur     *State // whose facts steer simplification
	guards  []*Term
	onCall  func(d *Def, args []*Term, guards []*Term)
	depth   int
	inOld   bool
	evst    *State // whose events count, if not those of st
}

type specErr struct{ msg string }

func (c *ectx) fail(e *Expr, f string, a ...interface{}) {
	panic(unsupportedErr{"contract " + e.Pos + ": " + fmt.Sprintf(f, a...)})
}

func (x *Exec) evalBool(st, old *State, env map[string]TV, cl *Clause) *Term {
	return x.evalExpr(st, old, env, cl.E)
}
func (x *Exec) evalExpr(st, old *State, env map[string]TV, e *Expr) *Term {
	c := &ectx{x: x, st: st, old: old, env: env, cur: st}
	saved := curFacts
	x.use(st)
	defer func() { curFacts = saved }()
	return c.boolean(e)
}
func (x *Exec) evalTV(st, old *State, env map[string]TV, e *Expr) TV {
	c := &ectx{x: x, st: st, old: old, env: env, cur: st}
	saved := curFacts
	x.use(st)
	defer func() { curFacts = saved }()
	return c.eval(e)
}

func (c *ectx) boolean(e *Expr) *Term {
	v := c.eval(e)
	if v.S == nil || v.S.Sort != SBool {
		c.fail(e, "boolean expected")
	}
	return v.S
}
func (c *ectx) integer(e *Expr) *Term {
	v := c.eval(e)
	if v.S == nil || v.S.Sort != SInt {
		c.fail(e, "integer expected")
	}
	return v.S
}

// evaluate under an extra assumption
func (c *ectx) under(g *Term, f func() *Term) *Term {
	saved := curFacts
	curFacts = newFacts(saved)
	curFacts.learn(g)
	c.guards = append(c.guards, g)
	defer func() { curFacts = saved; c.guards = c.guards[:len(c.guards)-1] }()
	return f()
}
func (c *ectx) seq(e *Expr) *Term {
	v := c.eval(e)
	return c.asSeq(v, e)
}
func (c *ectx) asSeq(v TV, e *Expr) *Term {
	if v.S != nil && (v.S.Sort == SSeq || v.S.Sort == SSSeq) {
		return v.S
	}
	switch a := v.V.(type) {
	case Slice:
		return c.st.seqOf(a)
	case Array:
		if a.Seq != nil {
			return a.Seq
		}
	case Ptr:
		if opaque(a.Elem) == "buf" {
			return c.st.seqAt(comp(a.Root, a.Path+".content"), a.Addr)
		}
		if _, ok := under(a.Elem).(*types.Array); ok {
			return c.st.load(a).(Array).Seq
		}
	case Struct:
		if v.Loc != nil && opaque(a.T) == "buf" {
			return c.st.seqAt(comp(v.Loc.Root, v.Loc.Path+".content"), v.Loc.Addr)
		}
	case Iface:
		a = c.st.resolve(a)
		if a.Dyn != nil {
			return c.asSeq(goTV(a.Val, a.Dyn), e)
		}
	case Scalar:
		if b, ok := under(v.T).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if a.T.isInt() && a.T.I.IsInt64() {
				if s, ok := strVals[int(a.T.I.Int64())]; ok || a.T.I.Sign() == 0 {
					return bytesLit([]byte(s))
				}
			}
			return App("strbytes", SSeq, byteRng, a.T)
		}
	}
	c.fail(e, "sequence expected, have %T", v.V)
	return nil
}

func (p *Program) parseType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		t := p.parseType(s[1:])
		if t == nil {
			return nil
		}
		return types.NewPointer(t)
	case strings.HasPrefix(s, "[]"):
		t := p.parseType(s[2:])
		if t == nil {
			return nil
		}
		return types.NewSlice(t)
	case strings.HasPrefix(s, "chan "):
		t := p.parseType(s[5:])
		return types.NewChan(types.SendRecv, t)
	case strings.HasPrefix(s, "map["):
		d := 0
		for i, r := range s[3:] {
			if r == '[' {
				d++
			}
			if r == ']' {
				d--
				if d == 0 {
					k, v := p.parseType(s[4:3+i]), p.parseType(s[4+i:])
					if k == nil || v == nil {
						return nil
					}
					return types.NewMap(k, v)
				}
			}
		}
	}
	if !strings.Contains(s, ".") {
		if o := types.Universe.Lookup(s); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		return nil
	}
	return p.lookupType(s)
}

func (c *ectx) typ(s string, e *Expr) types.Type {
	t := c.x.p.parseType(s)
	if t == nil {
		c.fail(e, "type %s not found", s)
	}
	return t
}

func (c *ectx) global(name string, e *Expr) *ssa.Global {
	i := strings.LastIndex(name, ".")
	for path, pkg := range c.x.p.Pkgs {
		if i > 0 && shortPkg(path) == name[:i] {
			if g, ok := pkg.Members[name[i+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	c.fail(e, "global %s not found", name)
	return nil
}

// bound variable of a quantifier
func (c *ectx) bound(v BVar, e *Expr) (TV, *Term, *Term) {
	switch v.Type {
	case "int":
		t := FreshVar("b_"+v.Name, SInt, nil)
		return specTV(t), t, True
	case "nat":
		t := FreshVar("b_"+v.Name, SInt, nil)
		return specTV(t), t, Ge0(t)
	case "bool":
		t := FreshVar("b_"+v.Name, SBool, nil)
		return specTV(t), t, True
	case "seq":
		t := FreshVar("b_"+v.Name, SSeq, byteRng)
		return specTV(t), t, True
	}
	ty := c.typ(v.Type, e)
	switch u := under(ty).(type) {
	case *types.Pointer:
		t := FreshVar("b_"+v.Name, SInt, nil)
		return goTV(Ptr{Root: u.Elem(), Addr: t, Elem: u.Elem()}, ty), t, Ge0(t)
	case *types.Basic:
		if r := rngOf(ty); r != nil {
			t := FreshVar("b_"+v.Name, SInt, nil)
			return goTV(Scalar{t}, ty), t, And(Le(BigT(r.Lo), t), Le(t, BigT(r.Hi)))
		}
	case *types.Interface:
		t := FreshVar("b_"+v.Name, SInt, ptrRng)
		return goTV(Iface{Tag: Mod(t, Int(keyMul)), Data: Div(t, Int(keyMul))}, ty), t, Ge0(t)
	case *types.Chan, *types.Map:
		t := FreshVar("b_"+v.Name, SInt, nil)
		return goTV(Scalar{t}, ty), t, Ge0(t)
	}
	c.fail(e, "quantification over %s", v.Type)
	return TV{}, nil, nil
}

func (c *ectx) withOld(f func(o *ectx) TV) TV {
	if c.old == nil {
		panic(unsupportedErr{"old state not available"})
	}
	return c.in(c.old, f)
}

// in another state
func (c *ectx) in(st *State, f func(o *ectx) TV) TV {
	o := *st
	o.facts = newFacts(st.facts)
	n := len(o.path)
	o.path = o.path[:n:n]
	d := *c
	d.st = &o
	d.inOld = true
	r := f(&d)
	if c.cur != nil {
		for _, t := range o.path[n:] {
			c.cur.assume(t)
		}
	}
	return r
}

func (c *ectx) let(name string, v TV) *ectx {
	env := make(map[string]TV, len(c.env)+1)
	for k, w := range c.env {
		env[k] = w
	}
	env[name] = v
	d := *c
	d.env = env
	return &d
}

func (c *ectx) eval(e *Expr) TV {
	switch e.Op {
	case "int":
		return specTV(BigT(e.N))
	case "str":
		return TV{S: strConst(e.Name), V: Scalar{strConst(e.Name)}, T: types.Typ[types.String]}
	case "id":
		if v, ok := c.env[e.Name]; ok {
			return v
		}
		switch e.Name {
		case "true":
			return specTV(True)
		case "false":
			return specTV(False)
		case "nil":
			return TV{Nil: true, S: Int(0)}
		case "empty":
			return specTV(EmptySeq)
		}
		c.fail(e, "unknown name %s", e.Name)
	case "un":
		if e.Name == "!" {
			return specTV(Not(c.boolean(e.Args[0])))
		}
		return specTV(MulC(c.integer(e.Args[0]), big64(-1)))
	case "bin":
		return c.bin(e)
	case "ite":
		g := c.boolean(e.Args[0])
		if g == True {
			return c.eval(e.Args[1])
		}
		if g == False {
			return c.eval(e.Args[2])
		}
		var a, b TV
		c.under(g, func() *Term { a = c.eval(e.Args[1]); return nil })
		c.under(Not(g), func() *Term { b = c.eval(e.Args[2]); return nil })
		ta, tb := c.mathOf(a, e), c.mathOf(b, e)
		return specTV(Ite(g, ta, tb))
	case "let":
		v := c.eval(e.Args[0])
		return c.let(e.Name, v).eval(e.Args[1])
	case "forall", "exists":
		d := c
		var vs []*Term
		g := True
		for _, v := range e.Vars {
			tv, t, r := c.bound(v, e)
			d = d.let(v.Name, tv)
			vs = append(vs, t)
			g = And(g, r)
		}
		// facts about bound variables stay inside
		tmp := *d
		if d.cur != nil {
			s := *d.cur
			s.facts = newFacts(d.cur.facts)
			s.path = s.path[:len(s.path):len(s.path)]
			tmp.cur = &s
			if tmp.st == d.cur {
				tmp.st = &s
			}
		}
		if e.Op == "forall" {
			b := tmp.under(g, func() *Term { return tmp.boolean(e.Args[0]) })
			return specTV(Forall(Implies(g, b), vs...))
		}
		b := tmp.under(g, func() *Term { return tmp.boolean(e.Args[0]) })
		return specTV(Not(Forall(Not(And(g, b)), vs...)))
	case "field":
		return c.field(c.eval(e.Args[0]), e.Name, e)
	case "index":
		return c.index(c.eval(e.Args[0]), e)
	case "slice":
		s := c.seq(e.Args[0])
		lo, hi := Int(0), Len(s)
		if e.Args[1] != nil {
			lo = c.integer(e.Args[1])
		}
		if e.Args[2] != nil {
			hi = c.integer(e.Args[2])
		}
		return specTV(Extract(s, lo, Sub(hi, lo)))
	case "global":
		g := c.global(e.Name, e)
		et := g.Type().(*types.Pointer).Elem()
		p := Ptr{Root: et, Addr: globalAddr(g), Elem: et}
		r := goTV(c.st.load(p), et)
		r.Loc = &p
		return r
	case "const":
		i := strings.LastIndex(e.Name, ".")
		for path, pkg := range c.x.p.Pkgs {
			if shortPkg(path) == e.Name[:i] {
				if k, ok := pkg.Members[e.Name[i+1:]].(*ssa.NamedConst); ok {
					v := constVal(k.Value)
					return goTV(v, k.Type())
				}
			}
		}
		c.fail(e, "constant %s not found", e.Name)
	case "rtype":
		return goTV(c.x.rtype(c.typ(e.Name, e)), nil)
	case "call":
		return c.call(e)
	}
	c.fail(e, "cannot evaluate %s", e.Op)
	return TV{}
}

// a term standing for a value in conditional expressions
func (c *ectx) mathOf(v TV, e *Expr) *Term {
	if v.S != nil {
		return v.S
	}
	switch v.V.(type) {
	case Slice, Array:
		return c.asSeq(v, e)
	case Ptr:
		return v.V.(Ptr).Addr
	}
	c.fail(e, "no mathematical value for %T", v.V)
	return nil
}

func isNilable(v Value) bool {
	switch v.(type) {
	case Ptr, Iface, Func, Slice, Scalar:
		return true
	}
	return false
}

func (c *ectx) isNil(v TV, e *Expr) *Term {
	switch a := v.V.(type) {
	case Ptr:
		if a.Arr != nil || a.Path != "" {
			return False
		}
		return Eq(a.Addr, Int(0))
	case Iface:
		return Eq(a.Tag, Int(0))
	case Func:
		if a.Fn != nil {
			return False
		}
		return Eq(a.ID, Int(0))
	case Slice:
		if a.Arr.Snap != nil {
			c.fail(e, "nil test of retained slice")
		}
		return Eq(a.Arr.Addr, Int(0))
	case Scalar:
		return Eq(a.T, Int(0))
	}
	c.fail(e, "nil comparison")
	return nil
}

func (c *ectx) equal(a, b TV, e *Expr) *Term {
	if a.Nil && b.Nil {
		return True
	}
	if a.Nil {
		return c.isNil(b, e)
	}
	if b.Nil {
		return c.isNil(a, e)
	}
	if a.S != nil && b.S != nil {
		if a.S.Sort != b.S.Sort {
			c.fail(e, "comparison of %s and %s", a.S.Sort.Name, b.S.Sort.Name)
		}
		return Eq(a.S, b.S)
	}
	if (a.S != nil && a.S.Sort == SSeq) || (b.S != nil && b.S.Sort == SSeq) {
		return Eq(c.asSeq(a, e), c.asSeq(b, e))
	}
	if (a.S != nil && a.S.Sort == SSSeq) || (b.S != nil && b.S.Sort == SSSeq) {
		return Eq(c.asSeq(a, e), c.asSeq(b, e))
	}
	if a.V != nil && b.V != nil {
		if p, ok := a.V.(Slice); ok {
			if q, ok := b.V.(Slice); ok && p.Arr.Snap == nil && q.Arr.Snap == nil {
				return And(Eq(p.Arr.Addr, q.Arr.Addr), Eq(p.Off, q.Off), Eq(p.Len, q.Len))
			}
		}
		t := a.T
		if _, ok := a.V.(Iface); ok {
			t = b.T
		}
		return c.x.eqVal(c.st, a.V, b.V, t)
	}
	c.fail(e, "comparison")
	return nil
}

func (c *ectx) bin(e *Expr) TV {
	switch e.Name {
	case "==>":
		a := c.boolean(e.Args[0])
		if a == False {
			return specTV(True)
		}
		b := c.under(a, func() *Term { return c.boolean(e.Args[1]) })
		return specTV(Implies(a, b))
	case "&&":
		a := c.boolean(e.Args[0])
		if a == False {
			return specTV(False)
		}
		b := c.under(a, func() *Term { return c.boolean(e.Args[1]) })
		return specTV(And(a, b))
	case "||":
		a := c.boolean(e.Args[0])
		if a == True {
			return specTV(True)
		}
		b := c.under(Not(a), func() *Term { return c.boolean(e.Args[1]) })
		return specTV(Or(a, b))
	case "<==>":
		return specTV(Iff(c.boolean(e.Args[0]), c.boolean(e.Args[1])))
	case "==", "!=":
		t := c.equal(c.eval(e.Args[0]), c.eval(e.Args[1]), e)
		if e.Name == "!=" {
			t = Not(t)
		}
		return specTV(t)
	case "++":
		a, b := c.seq(e.Args[0]), c.seq(e.Args[1])
		if a.Sort != b.Sort {
			c.fail(e, "++ of different sorts")
		}
		return specTV(Concat(a.Sort, a, b))
	}
	a, b := c.integer(e.Args[0]), c.integer(e.Args[1])
	switch e.Name {
	case "<":
		return specTV(Lt(a, b))
	case "<=":
		return specTV(Le(a, b))
	case ">":
		return specTV(Gt(a, b))
	case ">=":
		return specTV(Ge(a, b))
	case "+":
		return specTV(Add(a, b))
	case "-":
		return specTV(Sub(a, b))
	case "*":
		return specTV(Mul(a, b))
	case "/":
		return specTV(Div(a, b))
	case "%":
		return specTV(Mod(a, b))
	}
	c.fail(e, "operator %s", e.Name)
	return TV{}
}

func (c *ectx) field(v TV, name string, e *Expr) TV {
	if i, ok := v.V.(Iface); ok {
		i = c.st.resolve(i)
		if i.Dyn != nil {
			v = goTV(i.Val, i.Dyn)
		}
	}
	var base types.Type
	switch a := v.V.(type) {
	case Ptr:
		base = a.Elem
	case Struct:
		base = a.T
	default:
		c.fail(e, "field %s of %T", name, v.V)
	}
	var pkg *types.Package
	if n, ok := types.Unalias(base).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	o, idx, _ := types.LookupFieldOrMethod(base, true, pkg, name)
	if _, ok := o.(*types.Var); !ok || o == nil {
		c.fail(e, "no field %s in %s", name, base)
	}
	cur := v
	for _, i := range idx {
		cur = c.field1(cur, i, e)
	}
	return cur
}
func (c *ectx) field1(v TV, i int, e *Expr) TV {
	switch a := v.V.(type) {
	case Ptr:
		s := under(a.Elem).(*types.Struct)
		q := a
		q.Elem = s.Field(i).Type()
		if a.Arr != nil {
			q.Sub += "." + fieldName(s, i)
		} else {
			q.Path += "." + fieldName(s, i)
		}
		r := goTV(c.st.load(q), q.Elem)
		r.Loc = &q
		return r
	case Struct:
		s := under(a.T).(*types.Struct)
		if v.Loc != nil {
			return c.field1(TV{V: *v.Loc, T: nil}, i, e)
		}
		return goTV(a.Fields[i], s.Field(i).Type())
	}
	c.fail(e, "field of %T", v.V)
	return TV{}
}

func (c *ectx) index(v TV, e *Expr) TV {
	if v.S != nil && (v.S.Sort == SSeq || v.S.Sort == SSSeq) {
		return specTV(Nth(v.S, c.integer(e.Args[1])))
	}
	switch a := v.V.(type) {
	case Slice:
		i := c.integer(e.Args[1])
		if isScalar(a.Elem) || isByteSlice(a.Elem) {
			return goTV(c.elemVal(a, i), a.Elem)
		}
		return goTV(c.st.loadElem(a.Arr, Add(a.Off, i), "", a.Elem), a.Elem)
	case Array:
		return specTV(Nth(a.Seq, c.integer(e.Args[1])))
	case Scalar:
		if mt, ok := under(v.T).(*types.Map); ok {
			val, _ := c.st.mapGet(a.T, mt, c.mapKey(c.eval(e.Args[1]), mt, e))
			return goTV(val, mt.Elem())
		}
	}
	c.fail(e, "index of %T", v.V)
	return TV{}
}
func (c *ectx) elemVal(a Slice, i *Term) Value {
	if isByteSlice(a.Elem) {
		return c.st.loadElem(a.Arr, Add(a.Off, i), "", a.Elem)
	}
	l := elemLeaves(a.Elem)[0]
	return Scalar{Nth(c.st.arrContent(a.Arr, l), Add(a.Off, i))}
}
func (c *ectx) mapKey(v TV, mt *types.Map, e *Expr) *Term {
	if _, ok := under(mt.Key()).(*types.Interface); ok {
		if _, isI := v.V.(Iface); !isI {
			if v.V == nil {
				c.fail(e, "map key")
			}
			return c.st.mapKey(c.x.mkIfaceOf(c.st, v.V, v.T))
		}
	}
	if v.S != nil {
		return v.S
	}
	return c.st.mapKey(v.V)
}

func (c *ectx) iface(e *Expr) Iface {
	v := c.eval(e)
	i, ok := v.V.(Iface)
	if !ok {
		if v.V == nil || v.T == nil {
			c.fail(e, "stream expected")
		}
		i = c.x.mkIfaceOf(c.st, v.V, v.T).(Iface)
	}
	return c.st.resolve(i)
}

func (c *ectx) chanT(e *Expr) *Term {
	v := c.eval(e)
	if v.S != nil && v.S.Sort == SInt {
		if v.T != nil {
			if ct, ok := under(v.T).(*types.Chan); ok {
				noteChan(v.S, ct.Elem())
			}
		}
		return v.S
	}
	c.fail(e, "channel expected")
	return nil
}
func countIf(conds []*Term) *Term {
	r := Int(0)
	for _, t := range conds {
		r = Add(r, Ite(t, Int(1), Int(0)))
	}
	return r
}

// the events visible to a clause
func (c *ectx) evs() []Event {
	if c.outer {
		if c.st.step == nil {
			return nil
		}
		return c.st.step.up
	}
	if c.evst != nil {
		return c.evst.events
	}
	return c.st.events
}

// do bound variables of quantifiers occur?
func (c *ectx) anyBound(args []Value) bool {
	for _, a := range args {
		ls, ok := c.st.valLeaves(a)
		if !ok {
			return true
		}
		for _, t := range ls {
			if boundIn(t, map[*Term]bool{}) {
				return true
			}
		}
	}
	return false
}

func boundIn(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "var" && strings.HasPrefix(t.Name, "b_") {
		return true
	}
	for _, a := range t.Args {
		if boundIn(a, seen) {
			return true
		}
	}
	return false
}

func (c *ectx) addrOf(v TV, e *Expr) *Term {
	switch a := v.V.(type) {
	case Ptr:
		return a.Addr
	case Slice:
		return a.Arr.Addr
	case Iface:
		return c.st.ifaceData(a)
	case Scalar:
		return a.T
	}
	c.fail(e, "address of %T", v.V)
	return nil
}

func (c *ectx) call(e *Expr) TV {
	x := c.x
	arg := func(i int) *Expr {
		if i >= len(e.Args) {
			c.fail(e, "%s: missing argument", e.Name)
		}
		return e.Args[i]
	}
	switch e.Name {
	case "old":
		return c.withOld(func(o *ectx) TV { return o.eval(arg(0)) })
	case "atcall":
		// in the state just before the call
		for _, ev := range c.evs() {
			if ev.Kind == "call" && ev.Name == arg(0).Name && ev.Pre != nil {
				return c.in(ev.Pre, func(o *ectx) TV {
					if o.evst == nil {
						o.evst = c.st
					}
					return o.eval(arg(1))
				})
			}
		}
		v := c.eval(arg(1))
		if v.S == nil {
			c.fail(e, "atcall: value expected")
		}
		return TV{S: FreshVar("nocall", v.S.Sort, v.S.Rng), T: v.T}
	case "outer":
		o := *c
		o.outer = true
		return o.eval(arg(0))
	case "len":
		v := c.eval(arg(0))
		if v.S != nil && (v.S.Sort == SSeq || v.S.Sort == SSSeq) {
			return specTV(Len(v.S))
		}
		switch a := v.V.(type) {
		case Slice:
			return specTV(a.Len)
		case Scalar:
			if _, ok := under(v.T).(*types.Basic); ok {
				return specTV(x.strLen(a.T))
			}
			if mt, ok := under(v.T).(*types.Map); ok {
				return specTV(App("maplen", SInt, lenRng, c.st.mapDom(a.T, mt)))
			}
		case Array:
			return specTV(Int(under(a.T).(*types.Array).Len()))
		}
		return specTV(Len(c.asSeq(v, e)))
	case "cap":
		if a, ok := c.eval(arg(0)).V.(Slice); ok {
			return specTV(a.Cap)
		}
	case "bytes", "elems":
		return specTV(c.seq(arg(0)))
	case "flat":
		return specTV(Flat(c.seq(arg(0))))
	case "in":
		k, a := x.inLoc(c.st, c.iface(arg(0)))
		return specTV(c.st.seqAt(k, a))
	case "out":
		k, a := x.outLoc(c.st, c.iface(arg(0)))
		return specTV(c.st.seqAt(k, a))
	case "wcalls", "wfails":
		i := c.iface(arg(0))
		if i.Dyn != nil {
			return specTV(Int(0))
		}
		return specTV(c.st.intAt("ghost:"+e.Name, i.Data))
	case "wgcount":
		// completions a wait group still waits for
		v := c.eval(arg(0))
		p, ok := v.V.(Ptr)
		if !ok {
			if v.Loc == nil {
				c.fail(e, "wait group expected")
			}
			p = *v.Loc
		}
		k, a := c.st.wgComp(p)
		return specTV(Select(c.st.get(k, ArrOf(SInt), nil), a))
	case "isbuf":
		return specTV(BoolT(c.iface(arg(0)).Dyn != nil))
	case "eof":
		return specTV(x.eofOf(c.st, c.iface(arg(0))))
	case "unit":
		if n := len(e.Args); n == 1 {
			v := c.eval(arg(0))
			if v.S != nil && (v.S.Sort == SInt || v.S.Sort == SSeq) {
				return specTV(Unit(v.S))
			}
			return specTV(Unit(c.asSeq(v, e)))
		}
	case "seq":
		var us []*Term
		for _, a := range e.Args {
			us = append(us, Unit(c.integer(a)))
		}
		return specTV(Concat(SSeq, us...))
	case "sempty":
		return specTV(EmptySSeq)
	case "zeros":
		return specTV(Zeros(c.integer(arg(0))))
	case "be", "le":
		n, k := c.integer(arg(0)), c.integer(arg(1))
		return specTV(encInt(n, int(k.I.Int64()), e.Name == "be"))
	case "beval", "leval":
		s, k := c.seq(arg(0)), c.integer(arg(1))
		if !k.isInt() {
			c.fail(e, "constant width expected")
		}
		return specTV(decInt(s, int(k.I.Int64()), e.Name == "beval"))
	case "min", "max":
		a, b := c.integer(arg(0)), c.integer(arg(1))
		if e.Name == "min" {
			return specTV(Ite(Le(a, b), a, b))
		}
		return specTV(Ite(Ge(a, b), a, b))
	case "int":
		return specTV(c.mathOf(c.eval(arg(0)), e))
	case "fresh":
		v := c.eval(arg(0))
		if c.old == nil {
			c.fail(e, "fresh without old state")
		}
		if s, ok := v.V.(Slice); ok {
			return specTV(Or(Ge(s.Arr.Addr, BigT(c.old.ctr)), Eq(s.Cap, Int(0))))
		}
		if i, ok := v.V.(Iface); ok {
			return specTV(Ge(c.st.ifaceData(i), BigT(c.old.ctr)))
		}
		return specTV(Ge(c.addrOf(v, e), BigT(c.old.ctr)))
	case "alive":
		// an object that exists now (or nil)
		n := BigT(c.st.ctr)
		if c.x.allocVar != nil {
			n = c.x.allocVar
		}
		return specTV(Lt(c.addrOf(c.eval(arg(0)), e), n))
	case "addr":
		return specTV(c.addrOf(c.eval(arg(0)), e))
	case "same":
		// identical slices (same memory) or pointers
		a, b := c.eval(arg(0)), c.eval(arg(1))
		return specTV(c.equal(a, b, e))
	case "sameArray":
		return specTV(Eq(c.addrOf(c.eval(arg(0)), e), c.addrOf(c.eval(arg(1)), e)))
	case "frozen":
		s, ok := c.eval(arg(0)).V.(Slice)
		if ok {
			return specTV(c.st.isFrozen(s.Arr))
		}
	case "shared":
		// a bytes.Buffer whose memory is visible elsewhere
		p, ok := c.eval(arg(0)).V.(Ptr)
		if ok {
			al := Select(c.st.get("bytes.Buffer|.alias", ArrOf(SInt), ptrRng), p.Addr)
			tn := Select(c.st.get("bytes.Buffer|.taint", ArrOf(SBool), nil), p.Addr)
			return specTV(Or(Ne(al, Int(0)), tn))
		}
	case "is":
		i, ok := c.eval(arg(0)).V.(Iface)
		if !ok {
			c.fail(e, "is: interface expected")
		}
		t := c.typ(arg(1).Name, e)
		return specTV(Eq(i.Tag, tagOf(t)))
	case "as":
		v := c.eval(arg(0))
		i, ok := v.V.(Iface)
		if !ok {
			c.fail(e, "as: interface expected")
		}
		t := c.typ(arg(1).Name, e)
		if i.Dyn != nil && typeKey(i.Dyn) == typeKey(t) {
			return goTV(i.Val, t)
		}
		return goTV(c.st.unbox(t, i.Data), t)
	case "iface":
		v := c.eval(arg(0))
		return goTV(x.mkIfaceOf(c.st, v.V, v.T), nil)
	case "tag":
		if i, ok := c.eval(arg(0)).V.(Iface); ok {
			return specTV(i.Tag)
		}
	case "data":
		if i, ok := c.eval(arg(0)).V.(Iface); ok {
			return specTV(c.st.ifaceData(i))
		}
	case "rtypeof":
		// reflect type held by an interface value, as the id of the type
		if i, ok := c.eval(arg(0)).V.(Iface); ok {
			return specTV(i.Tag)
		}
	case "has":
		v := c.eval(arg(0))
		mt, ok := under(v.T).(*types.Map)
		if ok {
			k := c.mapKey(c.eval(arg(1)), mt, e)
			return specTV(And(Ne(v.S, Int(0)), Select(c.st.mapDom(v.S, mt), k)))
		}
	case "hasKey":
		v := c.eval(arg(0))
		mt, ok := under(v.T).(*types.Map)
		if ok {
			return specTV(And(Ne(v.S, Int(0)), Select(c.st.mapDom(v.S, mt), c.integer(arg(1)))))
		}
	case "pureof":
		// what a pure method returns
		key := arg(0).Name
		j := strings.LastIndex(key, ".")
		if j < 0 {
			c.fail(e, "pureof: method expected")
		}
		nt := x.p.lookupType(key[:j])
		if nt == nil {
			c.fail(e, "pureof: unknown type")
		}
		it, ok := under(nt).(*types.Interface)
		if !ok {
			c.fail(e, "pureof: interface expected")
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			if m.Name() == key[j+1:] {
				con := x.specs.ifaces[key]
				if con == nil || con.Pure == "" {
					c.fail(e, "pureof: %s is not pure", key)
				}
				var args []Value
				for _, a := range e.Args[1:] {
					args = append(args, c.eval(a).V)
				}
				t := m.Type().(*types.Signature).Results().At(0).Type()
				// what a pure method returns for something that exists, exists
				return goTV(c.st.pureRes(key, 0, t, args, !c.inOld && len(c.guards) == 0 && c.cur == c.st && !c.anyBound(args)), t)
			}
		}
		c.fail(e, "pureof: no such method")
	case "exits":
		return specTV(BoolT(c.st.exiting))
	case "interfered":
		return specTV(BoolT(c.st.interf))
	case "nloops":
		n := 0
		for _, ev := range c.evs() {
			if ev.Kind == "loop" && (len(e.Args) == 0 || ev.Name == arg(0).Name) {
				n++
			}
		}
		return specTV(Int(int64(n)))
	case "earlyloops":
		n := 0
		for _, ev := range c.evs() {
			if ev.Kind == "loop" && ev.Early {
				n++
			}
		}
		return specTV(Int(int64(n)))
	case "nsent", "nrecv", "nrecvok", "nclose":
		kind := map[string]string{"nsent": "send", "nrecv": "recv", "nrecvok": "recv", "nclose": "close"}[e.Name]
		var cs []*Term
		for _, ev := range c.evs() {
			if ev.Kind != kind {
				continue
			}
			t := True
			if len(e.Args) > 0 {
				t = chanEq(ev.Ch, c.chanT(arg(0)))
			}
			if e.Name == "nrecvok" {
				t = And(t, ev.Ok)
			}
			cs = append(cs, t)
		}
		return specTV(countIf(cs))
	case "sentv", "recvv":
		kind := "send"
		if e.Name == "recvv" {
			kind = "recv"
		}
		var hit *Event
		ch := c.chanT(arg(0))
		for i, ev := range c.evs() {
			if ev.Kind == kind && chanEq(ev.Ch, ch) != False {
				if hit != nil {
					return c.junk(ev.Elem)
				}
				hit = &c.evs()[i]
			}
		}
		if hit == nil {
			v := c.eval(arg(0))
			if v.T != nil {
				if ct, ok := under(v.T).(*types.Chan); ok {
					return c.junk(ct.Elem())
				}
			}
			c.fail(e, "no such event")
		}
		return goTV(hit.Val, hit.Elem)
	case "evindex":
		// position of the only event of that kind on the channel, -1 if none
		ch := c.chanT(arg(1))
		r := Int(-1)
		for i, ev := range c.evs() {
			if ev.Kind == arg(0).Name && ev.Ch != nil {
				r = Ite(chanEq(ev.Ch, ch), Int(int64(i)), r)
			}
		}
		return specTV(r)
	case "callindex":
		r := int64(-1)
		for i, ev := range c.evs() {
			if (ev.Kind == "call" || ev.Kind == "go") && ev.Name == arg(0).Name {
				r = int64(i)
			}
		}
		return specTV(Int(r))
	case "nevents":
		return specTV(Int(int64(len(c.evs()))))
	case "ncall", "nspawn":
		k := "call"
		if e.Name == "nspawn" {
			k = "go"
		}
		n := int64(0)
		for _, ev := range c.evs() {
			if ev.Kind == k && (len(e.Args) == 0 || ev.Name == arg(0).Name) {
				n++
			}
		}
		return specTV(Int(n))
	case "ncallon":
		// calls of that name whose receiver is the given value
		var cs []*Term
		v := c.eval(arg(1))
		for _, ev := range c.evs() {
			if (ev.Kind == "call" || ev.Kind == "go") && ev.Name == arg(0).Name && len(ev.Args) > 0 {
				cs = append(cs, c.sameRecv(ev.Args[0], v))
			}
		}
		return specTV(countIf(cs))
	case "callarg", "callres", "spawnarg":
		kd := "call"
		if e.Name == "spawnarg" {
			kd = "go"
		}
		var hit *Event
		which := int64(-1)
		if len(e.Args) > 2 {
			which = c.integer(arg(2)).I.Int64()
		}
		n := int64(0)
		for i, ev := range c.evs() {
			if ev.Kind == kd && ev.Name == arg(0).Name {
				if which < 0 || n == which {
					hit = &c.evs()[i]
				}
				n++
			}
		}
		if hit == nil {
			return c.callJunk(e)
		}
		k := int(c.integer(arg(1)).I.Int64())
		vs := hit.Args
		if e.Name == "callres" {
			vs = hit.Res
		}
		if k >= len(vs) {
			c.fail(e, "no argument %d", k)
		}
		return goTV(vs[k], c.callType(e, k))
	case "rangekey":
		if n := len(c.st.rangeKeys); n > 0 {
			k := c.st.rangeKeys[n-1]
			if s, ok := k.(Scalar); ok {
				return TV{V: k, S: s.T, T: types.Typ[types.Int]}
			}
			return goTV(k, nil)
		}
		c.fail(e, "no range key")
	}
	d := x.specs.defs[e.Name]
	if d == nil {
		c.fail(e, "unknown function %s", e.Name)
	}
	return c.defCall(d, e)
}

func (c *ectx) sameRecv(a Value, v TV) *Term {
	if i, ok := a.(Iface); ok {
		j, ok := v.V.(Iface)
		if !ok {
			j = c.x.mkIfaceOf(c.st, v.V, v.T).(Iface)
		}
		return And(Eq(i.Tag, j.Tag), Eq(c.st.ifaceData(i), c.st.ifaceData(j)))
	}
	if p, ok := a.(Ptr); ok {
		if j, ok := v.V.(Iface); ok {
			return Eq(p.Addr, c.st.ifaceData(j))
		}
		if q, ok := v.V.(Ptr); ok {
			return c.x.eqVal(c.st, p, q, nil)
		}
		if v.Loc != nil {
			// the thing itself, such as a mutex or a wait group in a struct
			return c.x.eqVal(c.st, p, *v.Loc, nil)
		}
	}
	return False
}

// type of the k-th argument or result of a recorded call
func (c *ectx) callType(e *Expr, k int) types.Type {
	key := e.Args[0].Name
	var sig *types.Signature
	var recv types.Type
	if fn := c.x.p.Funcs[key]; fn != nil {
		sig = fn.Signature
		if sig.Recv() != nil {
			recv = sig.Recv().Type()
		}
	} else if i := strings.LastIndex(key, "."); i > 0 {
		if t := c.x.p.lookupTypeSafe(key[:i]); t != nil {
			if o, _, _ := types.LookupFieldOrMethod(t, true, nil, key[i+1:]); o != nil {
				if f, ok := o.(*types.Func); ok {
					sig = f.Type().(*types.Signature)
					recv = t
				}
			}
		}
	}
	if sig == nil {
		return nil
	}
	if e.Name == "callres" {
		if k < sig.Results().Len() {
			return sig.Results().At(k).Type()
		}
		return nil
	}
	if recv != nil {
		if k == 0 {
			return recv
		}
		k--
	}
	if k < sig.Params().Len() {
		return sig.Params().At(k).Type()
	}
	return nil
}
func (p *Program) lookupTypeSafe(k string) (t types.Type) {
	defer func() { recover() }()
	return p.lookupType(k)
}
func (c *ectx) callJunk(e *Expr) TV {
	k := int(c.integer(e.Args[1]).I.Int64())
	if t := c.callType(e, k); t != nil {
		return c.junk(t)
	}
	c.fail(e, "no call of %s", e.Args[0].Name)
	return TV{}
}

// an arbitrary value: what a clause says about it under a false guard does not matter
func (c *ectx) junk(t types.Type) TV {
	s := *c.cur
	s.facts = newFacts(c.cur.facts)
	s.path = s.path[:len(s.path):len(s.path)]
	return goTV(c.x.symbolic(&s, t, "junk"), t)
}

func sortOfSpec(s string) (*Sort, *Rng) {
	switch s {
	case "int", "nat":
		return SInt, nil
	case "bool":
		return SBool, nil
	case "seq":
		return SSeq, byteRng
	case "sseq":
		return SSSeq, byteRng
	}
	return nil, nil
}

func (c *ectx) defCall(d *Def, e *Expr) TV {
	if len(e.Args) != len(d.Params) {
		c.fail(e, "%s: %d arguments expected", d.Name, len(d.Params))
	}
	if d.Rec || d.Ufn {
		var as []*Term
		for i, a := range e.Args {
			v := c.eval(a)
			s, _ := sortOfSpec(d.Params[i].Type)
			if s != nil && s != SInt && s != SBool {
				as = append(as, c.asSeq(v, e))
				continue
			}
			if v.S != nil {
				as = append(as, v.S)
				continue
			}
			if v.V != nil {
				ls, ok := c.st.valLeaves(v.V)
				if ok {
					as = append(as, ls...)
					continue
				}
			}
			c.fail(e, "argument of %s", d.Name)
		}
		if d.Ufn {
			s, r := sortOfSpec(d.Ret)
			return specTV(App("u:"+d.Name, s, r, as...))
		}
		if c.onCall != nil {
			c.onCall(d, as, append([]*Term{}, c.guards...))
		}
		return specTV(recApp(d, as))
	}
	if c.depth > 40 {
		c.fail(e, "definition %s does not end", d.Name)
	}
	env := map[string]TV{}
	for k, v := range c.env {
		if strings.HasPrefix(k, "$") {
			env[k] = v
		}
	}
	for i, a := range e.Args {
		env[d.Params[i].Name] = c.eval(a)
	}
	n := *c
	n.env = env
	n.depth++
	return n.eval(d.Body)
}

func recApp(d *Def, as []*Term) *Term {
	return mk(&Term{Op: "app", Name: "r:" + d.Name, Args: as, Sort: d.Fn.Ret, Rng: d.Fn.Rng, Fn: d.Fn})
}

// recursive definitions are turned into axioms; each must be well founded
func (x *Exec) defineRecs() []*Obl {
	var obls []*Obl
	for _, n := range sortedKeys(x.specs.defs) {
		d := x.specs.defs[n]
		if !d.Rec {
			continue
		}
		s, r := sortOfSpec(d.Ret)
		if s == nil {
			fatal("rec %s: result type %s", n, d.Ret)
		}
		d.Fn = &RecFn{Name: n, Ret: s, Rng: r}
		for _, p := range d.Params {
			ps, pr := sortOfSpec(p.Type)
			if ps == nil {
				fatal("rec %s: parameter type %s", n, p.Type)
			}
			d.Fn.Params = append(d.Fn.Params, Var("rp_"+n+"_"+p.Name, ps, pr))
		}
	}
	for _, n := range sortedKeys(x.specs.defs) {
		d := x.specs.defs[n]
		if !d.Rec {
			continue
		}
		st := x.newState()
		x.use(st)
		env := map[string]TV{}
		for i, p := range d.Params {
			env[p.Name] = specTV(d.Fn.Params[i])
		}
		c := &ectx{x: x, st: st, env: env, cur: st}
		var decr *Term
		if d.Decr != nil {
			decr = c.integer(d.Decr)
		}
		d.Fn.Decr = decr
		c.onCall = func(g *Def, as []*Term, guards []*Term) {
			if g != d {
				// no mutual recursion: only definitions that come earlier by name may be used
				if g.Rec && g.Name > d.Name {
					fatal("rec %s uses rec %s, which does not come before it", d.Name, g.Name)
				}
				return
			}
			if decr == nil {
				fatal("rec %s needs a measure", n)
			}
			m := map[*Term]*Term{}
			for i, p := range d.Fn.Params {
				m[p] = as[i]
			}
			saved := curFacts
			curFacts = nil
			nd := Subst(decr, m)
			goal := And(Ge0(nd), Lt(nd, decr))
			curFacts = saved
			obls = append(obls, &Obl{Fn: "rec " + n, Kind: "lemma", Label: "the definition is well founded", Hyps: guards, Goal: goal})
		}
		saved := curFacts
		body := c.eval(d.Body)
		t := c.mathOf(body, d.Body)
		curFacts = saved
		d.Fn.Body = t
	}
	return obls
}

// ---- locations

type modLoc struct {
	comp   string
	leaf   Leaf
	addr   *Term
	off, n *Term // part of an array
	whole  bool  // every object
}

func (x *Exec) locs(st, old *State, env map[string]TV, e *Expr) []modLoc {
	c := &ectx{x: x, st: st, old: old, env: env, cur: st}
	saved := curFacts
	x.use(st)
	defer func() { curFacts = saved }()
	ptrLocs := func(p Ptr) []modLoc {
		var out []modLoc
		for _, l := range leaves(p.Elem) {
			if p.Arr != nil {
				out = append(out, modLoc{comp: p.Arr.Comp + p.Sub + l.Path, leaf: Leaf{"", SSeq, l.Rng, l.Ptr}, addr: p.Arr.Addr, off: p.Idx, n: Int(1)})
				continue
			}
			out = append(out, modLoc{comp: comp(p.Root, p.Path+l.Path), leaf: l, addr: p.Addr})
		}
		return out
	}
	switch e.Op {
	case "field":
		v := c.eval(e)
		if v.Loc != nil {
			return ptrLocs(*v.Loc)
		}
	case "all":
		v := c.eval(e.Args[0])
		if i, ok := v.V.(Iface); ok {
			i = st.resolve(i)
			if i.Dyn == nil {
				c.fail(e, "fields of an unknown type")
			}
			v = goTV(i.Val, i.Dyn)
		}
		if p, ok := v.V.(Ptr); ok {
			return ptrLocs(p)
		}
		if v.Loc != nil {
			return ptrLocs(*v.Loc)
		}
	case "global":
		v := c.eval(e)
		return ptrLocs(*v.Loc)
	case "index":
		v := c.eval(e.Args[0])
		if s, ok := v.V.(Slice); ok {
			var out []modLoc
			i := c.integer(e.Args[1])
			for _, l := range elemLeaves(s.Elem) {
				out = append(out, modLoc{comp: s.Arr.Comp + l.Path, leaf: l, addr: s.Arr.Addr, off: Add(s.Off, i), n: Int(1)})
			}
			return out
		}
	case "call":
		switch e.Name {
		case "in":
			k, a := x.inLoc(st, c.iface(e.Args[0]))
			return []modLoc{{comp: k, leaf: Leaf{"", SSeq, byteRng, false}, addr: a}}
		case "out":
			i := c.iface(e.Args[0])
			k, a := x.outLoc(st, i)
			out := []modLoc{{comp: k, leaf: Leaf{"", SSeq, byteRng, false}, addr: a}}
			if i.Dyn == nil {
				out = append(out, modLoc{comp: "ghost:wcalls", leaf: Leaf{"", SInt, lenRng, false}, addr: a},
					modLoc{comp: "ghost:wfails", leaf: Leaf{"", SInt, lenRng, false}, addr: a},
					modLoc{comp: "ghost:werr", leaf: Leaf{"", SInt, ptrRng, false}, addr: a})
			}
			return out
		case "bytes", "elems":
			v := c.eval(e.Args[0])
			if i, ok := v.V.(Iface); ok {
				i = st.resolve(i)
				if i.Dyn != nil {
					v = goTV(i.Val, i.Dyn)
				}
			}
			switch s := v.V.(type) {
			case Slice:
				var out []modLoc
				for _, l := range elemLeaves(s.Elem) {
					out = append(out, modLoc{comp: s.Arr.Comp + l.Path, leaf: l, addr: s.Arr.Addr, off: s.Off, n: s.Len})
				}
				return out
			case Ptr:
				if opaque(s.Elem) == "buf" {
					return []modLoc{{comp: comp(s.Root, s.Path+".content"), leaf: Leaf{"", SSeq, byteRng, false}, addr: s.Addr}}
				}
				return ptrLocs(s)
			case Struct, Array:
				if v.Loc != nil {
					return ptrLocs(*v.Loc)
				}
			}
		case "spare":
			// the unused capacity behind a slice
			if s, ok := c.eval(e.Args[0]).V.(Slice); ok {
				var out []modLoc
				for _, l := range elemLeaves(s.Elem) {
					out = append(out, modLoc{comp: s.Arr.Comp + l.Path, leaf: l, addr: s.Arr.Addr, off: Add(s.Off, s.Len), n: Sub(s.Cap, s.Len)})
				}
				return out
			}
		case "map":
			v := c.eval(e.Args[0])
			if mt, ok := under(v.T).(*types.Map); ok {
				out := []modLoc{{comp: mapComp(mt) + "|dom", leaf: Leaf{"", sArrB, nil, false}, addr: v.S}}
				for _, l := range leaves(mt.Elem()) {
					out = append(out, modLoc{comp: mapComp(mt) + "|val" + l.Path, leaf: Leaf{"", ArrOf(l.Sort), l.Rng, false}, addr: v.S})
				}
				return out
			}
		case "frozen":
			if s, ok := c.eval(e.Args[0]).V.(Slice); ok {
				return []modLoc{{comp: "frozen:" + s.Arr.Comp, leaf: Leaf{"", SBool, nil, false}, addr: s.Arr.Addr}}
			}
		case "heap":
			// every object of a type
			t := c.typ(typeExprName(e.Args[0]), e)
			var out []modLoc
			for _, l := range leaves(t) {
				out = append(out, modLoc{comp: comp(t, l.Path), leaf: l, whole: true})
			}
			return out
		}
	}
	c.fail(e, "not a location")
	return nil
}

func typeExprName(e *Expr) string {
	if e.Op == "field" {
		return typeExprName(e.Args[0]) + "." + e.Name
	}
	return e.Name
}

func (x *Exec) allLocs(st, old *State, env map[string]TV, es []*Expr) []modLoc {
	var out []modLoc
	for _, e := range es {
		out = append(out, x.locs(st, old, env, e)...)
	}
	return out
}

// effects of a call, as far as its contract leaves them open
func (x *Exec) havocMods(st *State, con *Contract, env map[string]TV, pre *State) {
	if con.World {
		panic(unsupportedErr{"call of " + con.Key + ", which may modify anything"})
	}
	for _, m := range x.allLocs(st, pre, env, con.Mod) {
		base := st.get(m.comp, ArrOf(m.leaf.Sort), m.leaf.Rng)
		rg := m.leaf.Rng
		if rg == ptrRng {
			// may point to something the callee allocated
			rg = below(new(big.Int).Add(st.ctr, callGap))
		}
		if m.whole {
			st.set(m.comp, FreshVar(m.comp+"@H", base.Sort, rg))
			continue
		}
		v := FreshVar("m_"+strings.ReplaceAll(m.comp, "|", "_"), m.leaf.Sort, rg)
		if m.n != nil {
			old := Select(base, m.addr)
			x.use(st)
			st.assume(Eq(Len(v), m.n))
			x.use(st)
			st.set(m.comp, Store(base, m.addr, Splice(old, m.off, v)))
			continue
		}
		if strings.HasPrefix(m.comp, "ghost:w") && m.leaf.Sort == SInt && m.comp != "ghost:werr" {
			st.assume(Ge(v, Select(base, m.addr)))
		}
		st.set(m.comp, Store(base, m.addr, v))
	}
}

// is addr one of the locations of comp the contract lets change?
func (x *Exec) modExcept(comp string, addr *Term) *Term {
	r := False
	for _, m := range x.modLocs {
		if m.comp != comp {
			continue
		}
		if m.whole {
			return True
		}
		r = Or(r, Eq(addr, m.addr))
	}
	return r
}

var _ = fmt.Sprint
