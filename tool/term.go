package main

// Terms: hash-consed, simplified on construction. Integers are mathematical;
// machine wrap-around is made explicit by mod terms built by the executor.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	Name string
	Elem *Sort // array element
}

var (
	SBool = &Sort{Name: "Bool"}
	SInt  = &Sort{Name: "Int"}
	SSeq  = &Sort{Name: "(Seq Int)"}
	SSSeq = &Sort{Name: "(Seq (Seq Int))"}
	arrs  = map[string]*Sort{}
)

func ArrOf(e *Sort) *Sort {
	n := "(Array Int " + e.Name + ")"
	if s, ok := arrs[n]; ok {
		return s
	}
	s := &Sort{Name: n, Elem: e}
	arrs[n] = s
	return s
}

type Rng struct{ Lo, Hi *big.Int } // nil = unbounded

type Term struct {
	Op   string
	Args []*Term
	Coef []*big.Int // for "+"
	I    *big.Int   // int constant, or constant part of "+"
	Name string
	Sort *Sort
	Rng  *Rng // for var: value range (Int), element range (arrays/seqs)
	Fn   *RecFn
	// for an array variable: what it holds at indexes below BaseHi
	Base   *Term
	BaseHi *big.Int
	id     int
	bnd    *Rng
	bndS   bool
	str    string
}

var table = map[string]*Term{}
var nextID = 1

func mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.Op == "var" || t.Op == "app" || t.Op == "empty" {
		b.WriteString(t.Sort.Name)
	}
	if t.I != nil {
		b.WriteString(t.I.String())
	}
	for i, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
		if t.Coef != nil {
			b.WriteByte('*')
			b.WriteString(t.Coef[i].String())
		}
	}
	k := b.String()
	if x, ok := table[k]; ok {
		return x
	}
	t.id = nextID
	nextID++
	table[k] = t
	return t
}

var varCount = map[string]int{}

func FreshName(p string) string {
	varCount[p]++
	return fmt.Sprintf("%s!%d", p, varCount[p])
}
func Var(name string, s *Sort, r *Rng) *Term {
	return mk(&Term{Op: "var", Name: name, Sort: s, Rng: r})
}
func FreshVar(p string, s *Sort, r *Rng) *Term { return Var(FreshName(p), s, r) }

func big64(n int64) *big.Int { return big.NewInt(n) }
func Int(n int64) *Term      { return BigT(big64(n)) }
func BigT(n *big.Int) *Term  { return mk(&Term{Op: "int", I: n, Sort: SInt}) }

var True = mk(&Term{Op: "true", Sort: SBool})
var False = mk(&Term{Op: "false", Sort: SBool})
var EmptySeq = mk(&Term{Op: "empty", Sort: SSeq})
var EmptySSeq = mk(&Term{Op: "empty", Sort: SSSeq})

func BoolT(b bool) *Term {
	if b {
		return True
	}
	return False
}
func (t *Term) isInt() bool { return t.Op == "int" }

func pow2(k int) *big.Int { return new(big.Int).Lsh(big64(1), uint(k)) }

// ---- linear forms

type linear struct {
	at map[*Term]*big.Int
	c  *big.Int
}

func lin(t *Term) linear {
	l := linear{map[*Term]*big.Int{}, big64(0)}
	l.add(t, big64(1))
	return l
}
func (l *linear) add(t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.I, k))
	case "+":
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.I, k))
		for i, a := range t.Args {
			l.addAtom(a, new(big.Int).Mul(t.Coef[i], k))
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *linear) addAtom(a *Term, k *big.Int) {
	o := l.at[a]
	if o == nil {
		o = big64(0)
	}
	n := new(big.Int).Add(o, k)
	if n.Sign() == 0 {
		delete(l.at, a)
	} else {
		l.at[a] = n
	}
}
func (l linear) atoms() []*Term {
	as := make([]*Term, 0, len(l.at))
	for a := range l.at {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}
func (l linear) term() *Term {
	if len(l.at) == 0 {
		return BigT(l.c)
	}
	as := l.atoms()
	if len(as) == 1 && l.c.Sign() == 0 && l.at[as[0]].Cmp(big64(1)) == 0 {
		return as[0]
	}
	cs := make([]*big.Int, len(as))
	for i, a := range as {
		cs[i] = l.at[a]
	}
	// recognise k*(x div k) + (x mod k) = x
	for i, a := range as {
		if a.Op == "mod" && a.Args[1].isInt() {
			d := mk(&Term{Op: "div", Args: a.Args, Sort: SInt})
			if dk, ok := l.at[d]; ok {
				want := new(big.Int).Mul(cs[i], a.Args[1].I)
				if dk.Cmp(want) == 0 {
					n := linear{map[*Term]*big.Int{}, l.c}
					for b, k := range l.at {
						if b != a && b != d {
							n.at[b] = k
						}
					}
					n.add(a.Args[0], cs[i])
					return n.term()
				}
			}
		}
	}
	return mk(&Term{Op: "+", Args: as, Coef: cs, I: l.c, Sort: SInt})
}
func Add(ts ...*Term) *Term {
	l := linear{map[*Term]*big.Int{}, big64(0)}
	for _, t := range ts {
		l.add(t, big64(1))
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := lin(a)
	l.add(b, big64(-1))
	return l.term()
}
func MulC(a *Term, k *big.Int) *Term {
	l := linear{map[*Term]*big.Int{}, big64(0)}
	l.add(a, k)
	return l.term()
}
func Mul(a, b *Term) *Term {
	if a.isInt() {
		return MulC(b, a.I)
	}
	if b.isInt() {
		return MulC(a, b.I)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: SInt})
}

// Euclidean div / mod by a positive constant (or symbolic divisor)
func Div(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		k := b.I
		if k.Cmp(big64(1)) == 0 {
			return a
		}
		if a.isInt() {
			q, _ := new(big.Int).DivMod(a.I, k, new(big.Int))
			return BigT(q)
		}
		if r := bounds(a); r.Lo != nil && r.Hi != nil && r.Lo.Sign() >= 0 && r.Hi.Cmp(k) < 0 {
			return Int(0)
		}
		// pull out multiples of k
		l := lin(a)
		out := linear{map[*Term]*big.Int{}, big64(0)}
		in := linear{map[*Term]*big.Int{}, big64(0)}
		for t, c := range l.at {
			q, m := new(big.Int).DivMod(c, k, new(big.Int))
			if m.Sign() == 0 {
				out.addAtom(t, q)
			} else {
				in.addAtom(t, c)
			}
		}
		q, m := new(big.Int).DivMod(l.c, k, new(big.Int))
		out.c = q
		in.c = m
		if len(out.at) > 0 || q.Sign() != 0 {
			return Add(out.term(), Div(in.term(), b))
		}
		// nested: (x div j) div k = x div (j*k)
		if a.Op == "div" && a.Args[1].isInt() && a.Args[1].I.Sign() > 0 {
			return Div(a.Args[0], BigT(new(big.Int).Mul(a.Args[1].I, k)))
		}
		// (x mod j) div k with k | j  = (x div k) mod (j/k)
		if a.Op == "mod" && a.Args[1].isInt() && a.Args[1].I.Sign() > 0 {
			q, m := new(big.Int).DivMod(a.Args[1].I, k, new(big.Int))
			if m.Sign() == 0 && q.Sign() > 0 {
				return Mod(Div(a.Args[0], b), BigT(q))
			}
		}
	}
	return mk(&Term{Op: "div", Args: []*Term{a, b}, Sort: SInt})
}
func Mod(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		k := b.I
		if k.Cmp(big64(1)) == 0 {
			return Int(0)
		}
		if a.isInt() {
			return BigT(new(big.Int).Mod(a.I, k))
		}
		if r := bounds(a); r.Lo != nil && r.Hi != nil && r.Lo.Sign() >= 0 && r.Hi.Cmp(k) < 0 {
			return a
		}
		if provable(a) && provable(Sub(BigT(new(big.Int).Sub(k, big64(1))), a)) {
			return a
		}
		l := lin(a)
		in := linear{map[*Term]*big.Int{}, big64(0)}
		ch := false
		for t, c := range l.at {
			m := new(big.Int).Mod(c, k)
			if m.Cmp(c) != 0 {
				ch = true
			}
			if t.Op == "mod" && t.Args[1].isInt() && new(big.Int).Mod(t.Args[1].I, k).Sign() == 0 {
				in.add(t.Args[0], m)
				ch = true
				continue
			}
			if m.Sign() != 0 {
				in.addAtom(t, m)
			}
		}
		m := new(big.Int).Mod(l.c, k)
		if m.Cmp(l.c) != 0 {
			ch = true
		}
		in.c = new(big.Int).Add(in.c, m)
		if in.c.Cmp(m) != 0 {
			in.c = new(big.Int).Mod(in.c, k)
		}
		if ch {
			return Mod(in.term(), b)
		}
		// common factor: (g*x) mod (g*j) = g*(x mod j)
		g := new(big.Int).Set(k)
		for _, c := range l.at {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(l.c))
		if l.c.Sign() == 0 || g.Cmp(big64(1)) > 0 {
			if g.Cmp(big64(1)) > 0 && g.Cmp(k) < 0 {
				n := linear{map[*Term]*big.Int{}, new(big.Int).Div(l.c, g)}
				for t, c := range l.at {
					n.at[t] = new(big.Int).Div(c, g)
				}
				return MulC(Mod(n.term(), BigT(new(big.Int).Div(k, g))), g)
			}
		}
	}
	return mk(&Term{Op: "mod", Args: []*Term{a, b}, Sort: SInt})
}

// ---- bounds

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func union(a, b Rng) Rng { return Rng{minB(a.Lo, b.Lo), maxB(a.Hi, b.Hi)} }

var maxLen = pow2(56)

func bounds(t *Term) Rng {
	if t.bndS {
		return *t.bnd
	}
	r := bounds0(t)
	t.bnd = &r
	t.bndS = true
	return r
}
func bounds0(t *Term) Rng {
	switch t.Op {
	case "int":
		return Rng{t.I, t.I}
	case "var", "app":
		if t.Sort == SInt && t.Rng != nil {
			return *t.Rng
		}
	case "+":
		r := Rng{t.I, t.I}
		for i, a := range t.Args {
			b := bounds(a)
			c := t.Coef[i]
			if c.Sign() < 0 {
				b = Rng{b.Hi, b.Lo}
			}
			m := func(x *big.Int) *big.Int {
				if x == nil {
					return nil
				}
				return new(big.Int).Mul(x, c)
			}
			r = Rng{addB(r.Lo, m(b.Lo)), addB(r.Hi, m(b.Hi))}
		}
		return r
	case "div":
		if t.Args[1].isInt() && t.Args[1].I.Sign() > 0 {
			b := bounds(t.Args[0])
			d := func(x *big.Int) *big.Int {
				if x == nil {
					return nil
				}
				q, _ := new(big.Int).DivMod(x, t.Args[1].I, new(big.Int))
				return q
			}
			return Rng{d(b.Lo), d(b.Hi)}
		}
		a, b := bounds(t.Args[0]), bounds(t.Args[1])
		if a.Lo != nil && a.Lo.Sign() >= 0 && b.Lo != nil && b.Lo.Sign() > 0 {
			return Rng{big64(0), a.Hi}
		}
	case "mod":
		if t.Args[1].isInt() && t.Args[1].I.Sign() > 0 {
			return Rng{big64(0), new(big.Int).Sub(t.Args[1].I, big64(1))}
		}
	case "*":
		a, b := bounds(t.Args[0]), bounds(t.Args[1])
		if a.Lo != nil && a.Lo.Sign() >= 0 && b.Lo != nil && b.Lo.Sign() >= 0 {
			r := Rng{new(big.Int).Mul(a.Lo, b.Lo), nil}
			if a.Hi != nil && b.Hi != nil {
				r.Hi = new(big.Int).Mul(a.Hi, b.Hi)
			}
			return r
		}
	case "ite":
		return union(bounds(t.Args[1]), bounds(t.Args[2]))
	case "len":
		return Rng{big64(0), maxLen}
	case "nth":
		return elemRng(t.Args[0])
	case "select":
		return selRng(t.Args[0], t.Args[1])
	}
	return Rng{}
}

// range of the elements of a sequence-valued term
func elemRng(s *Term) Rng {
	switch s.Op {
	case "var", "app":
		if s.Rng != nil {
			return *s.Rng
		}
	case "unit":
		if s.Sort == SSeq {
			return bounds(s.Args[0])
		}
		return elemRng(s.Args[0])
	case "concat":
		r := elemRng(s.Args[0])
		for _, a := range s.Args[1:] {
			r = union(r, elemRng(a))
		}
		return r
	case "extract":
		return elemRng(s.Args[0])
	case "ite":
		return union(elemRng(s.Args[1]), elemRng(s.Args[2]))
	case "select":
		return selRng(s.Args[0], s.Args[1])
	case "empty":
		return Rng{big64(0), big64(0)}
	case "nth": // Seq (Seq Int)
		return elemRng(s.Args[0])
	}
	return Rng{}
}
func selRng(a, i *Term) Rng {
	switch a.Op {
	case "var", "app":
		if a.Rng != nil {
			r := *a.Rng
			if r.Hi != nil && idRngs[a.Rng] && i.Sort == SInt {
				// object ids: the bound is about objects that existed when the
				// variable was made; what is in objects made later is not known
				if b := bounds(i); b.Hi == nil || b.Hi.Cmp(r.Hi) > 0 {
					r.Hi = nil
				}
			}
			return r
		}
	case "store":
		v := a.Args[2]
		var r Rng
		if v.Sort == SInt {
			r = bounds(v)
		} else if v.Sort == SSeq || v.Sort == SSSeq {
			r = elemRng(v)
		} else if v.Sort.Elem != nil {
			r = selRng(v, i)
		}
		return union(r, selRng(a.Args[0], i))
	case "select":
		return selRng(a.Args[0], a.Args[1])
	case "ite":
		return union(selRng(a.Args[1], i), selRng(a.Args[2], i))
	}
	return Rng{}
}

// ---- path facts used for simplification: linear facts  L + c >= 0

type Facts struct {
	parent *Facts
	ge     map[string]*big.Int // key of coefficient part -> smallest known c with L + c >= 0
	list   []linear
	lits   map[*Term]bool // boolean literals known true
	prov   map[*Term]bool
}

var curFacts *Facts

func newFacts(p *Facts) *Facts {
	return &Facts{parent: p, ge: map[string]*big.Int{}, lits: map[*Term]bool{}, prov: map[*Term]bool{}}
}
func linKey(l linear) string {
	var b strings.Builder
	for _, a := range l.atoms() {
		fmt.Fprintf(&b, "%d*%s,", a.id, l.at[a])
	}
	return b.String()
}

// record boolean t as true
func (f *Facts) learn(t *Term) {
	switch t.Op {
	case "and":
		for _, a := range t.Args {
			f.learn(a)
		}
		return
	case "<=": // 0 <= arg
		f.addGE(lin(t.Args[0]))
	case "=":
		if t.Args[0].Sort == SInt {
			l := lin(Sub(t.Args[0], t.Args[1]))
			f.addGE(l)
			f.addGE(lin(MulC(l.term(), big64(-1))))
		}
	case "not":
		// not (0 <= a)  ==>  -a-1 >= 0
		if t.Args[0].Op == "<=" {
			f.addGE(lin(Sub(Int(-1), t.Args[0].Args[0])))
		}
	}
	f.lits[t] = true
}
func (f *Facts) addGE(l linear) {
	if len(l.at) == 0 {
		return
	}
	k := linKey(l)
	if o, ok := f.ge[k]; !ok || o.Cmp(l.c) > 0 {
		f.ge[k] = l.c
		f.list = append(f.list, l)
	}
}
func (f *Facts) known(t *Term) bool {
	for g := f; g != nil; g = g.parent {
		if g.lits[t] {
			return true
		}
	}
	return false
}

// the current facts refute t
func knownFalse(t *Term) bool {
	n := Not(t)
	return n == True || curFacts.known(n)
}

// provable: t >= 0 follows cheaply
func provable(t *Term) bool {
	b := bounds(t)
	if b.Lo != nil && b.Lo.Sign() >= 0 {
		return true
	}
	if b.Hi != nil && b.Hi.Sign() < 0 {
		return false
	}
	if curFacts == nil {
		return false
	}
	if r, ok := curFacts.prov[t]; ok && r {
		return true
	}
	r := provable0(t, 2)
	if r {
		curFacts.prov[t] = true
	}
	return r
}
func provable0(t *Term, depth int) bool {
	l := lin(t)
	k := linKey(l)
	for g := curFacts; g != nil; g = g.parent {
		if c, ok := g.ge[k]; ok && c.Cmp(l.c) <= 0 {
			return true
		}
	}
	b := bounds(t)
	if b.Lo != nil && b.Lo.Sign() >= 0 {
		return true
	}
	if depth == 0 || len(l.at) > 6 {
		return false
	}
	// t = fact + rest, rest >= 0 ; fact must share an atom with a same-sign coefficient that has no good bound
	for g := curFacts; g != nil; g = g.parent {
		for _, fl := range g.list {
			ok := false
			for a, c := range fl.at {
				if tc, has := l.at[a]; has && tc.Sign() == c.Sign() {
					ok = true
					break
				}
			}
			if !ok {
				continue
			}
			rest := linear{map[*Term]*big.Int{}, new(big.Int).Sub(l.c, fl.c)}
			for a, c := range l.at {
				rest.at[a] = c
			}
			for a, c := range fl.at {
				rest.addAtom(a, new(big.Int).Neg(c))
			}
			if len(rest.at) < len(l.at) || (depth == 2 && len(rest.at) <= len(l.at)) {
				rt := rest.term()
				rb := bounds(rt)
				if rb.Lo != nil && rb.Lo.Sign() >= 0 {
					return true
				}
				if rb.Hi != nil && rb.Hi.Sign() < 0 {
					continue
				}
				if provable0(rt, depth-1) {
					return true
				}
			}
		}
	}
	return false
}

// ---- booleans

func Ge0(t *Term) *Term { // 0 <= t
	if t.isInt() {
		return BoolT(t.I.Sign() >= 0)
	}
	b := bounds(t)
	if b.Lo != nil && b.Lo.Sign() >= 0 {
		return True
	}
	if b.Hi != nil && b.Hi.Sign() < 0 {
		return False
	}
	// divide by gcd
	l := lin(t)
	g := new(big.Int)
	for _, c := range l.at {
		g.GCD(nil, nil, g, new(big.Int).Abs(c))
	}
	if g.Cmp(big64(1)) > 0 {
		n := linear{map[*Term]*big.Int{}, nil}
		q, _ := new(big.Int).DivMod(l.c, g, new(big.Int))
		n.c = q
		for a, c := range l.at {
			n.at[a] = new(big.Int).Div(c, g)
		}
		t = n.term()
	}
	r := mk(&Term{Op: "<=", Args: []*Term{t}, Sort: SBool})
	if curFacts != nil {
		if curFacts.known(r) || provable(t) {
			return True
		}
		if provable(Sub(Int(-1), t)) {
			return False
		}
	}
	return r
}
func Le(a, b *Term) *Term { return Ge0(Sub(b, a)) }
func Lt(a, b *Term) *Term { return Ge0(Sub(Sub(b, a), Int(1))) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return t.Args[0]
	case "<=":
		return Ge0(Sub(Int(-1), t.Args[0]))
	}
	r := mk(&Term{Op: "not", Args: []*Term{t}, Sort: SBool})
	if curFacts != nil {
		if curFacts.known(r) {
			return True
		}
		if curFacts.known(t) {
			return False
		}
	}
	return r
}
func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var f func(ts []*Term) bool
	f = func(ts []*Term) bool {
		for _, t := range ts {
			switch t.Op {
			case "true":
			case "false":
				return false
			case "and":
				if !f(t.Args) {
					return false
				}
			default:
				if !seen[t] {
					if t.Op == "not" && seen[t.Args[0]] {
						return false
					}
					seen[t] = true
					out = append(out, t)
				}
			}
		}
		return true
	}
	if !f(ts) {
		return False
	}
	for _, t := range out {
		if t.Op == "not" && seen[t.Args[0]] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "and", Args: out, Sort: SBool})
}
func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		var xs []*Term
		if t.Op == "or" {
			xs = t.Args
		} else {
			xs = []*Term{t}
		}
		for _, x := range xs {
			if x == True {
				return True
			}
			if x == False || seen[x] {
				continue
			}
			if seen[Not(x)] {
				return True
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "or", Args: out, Sort: SBool})
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if curFacts != nil {
		if curFacts.known(c) {
			return a
		}
		if knownFalse(c) {
			return b
		}
	}
	return mk(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq: sorts %s %s: %s = %s", a.Sort.Name, b.Sort.Name, a, b))
	}
	switch a.Sort {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SInt:
		d := Sub(a, b)
		if d.isInt() {
			return BoolT(d.I.Sign() == 0)
		}
		r := bounds(d)
		if (r.Lo != nil && r.Lo.Sign() > 0) || (r.Hi != nil && r.Hi.Sign() < 0) {
			return False
		}
		if curFacts != nil {
			if provable(Sub(d, Int(1))) || provable(Sub(Int(-1), d)) {
				return False
			}
			if provable(d) && provable(Sub(Int(0), d)) {
				return True
			}
		}
		// ite with constant branches against constant
		if b.isInt() && a.Op == "ite" && (a.Args[1].isInt() || a.Args[2].isInt()) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if a.isInt() && b.Op == "ite" && (b.Args[1].isInt() || b.Args[2].isInt()) {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
	case SSeq, SSSeq:
		x, y := parts(a), parts(b)
		n := 0
		for n < len(x) && n < len(y) && x[n] == y[n] {
			n++
		}
		x, y = x[n:], y[n:]
		n = 0
		for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
			n++
		}
		x, y = x[:len(x)-n], y[:len(y)-n]
		var cs []*Term
		for len(x) > 0 && len(y) > 0 && x[0].Op == "unit" && y[0].Op == "unit" {
			cs = append(cs, Eq(x[0].Args[0], y[0].Args[0]))
			x, y = x[1:], y[1:]
		}
		for len(x) > 0 && len(y) > 0 && x[len(x)-1].Op == "unit" && y[len(y)-1].Op == "unit" {
			cs = append(cs, Eq(x[len(x)-1].Args[0], y[len(y)-1].Args[0]))
			x, y = x[:len(x)-1], y[:len(y)-1]
		}
		a2, b2 := Concat(a.Sort, x...), Concat(a.Sort, y...)
		if a2 == b2 {
			return And(cs...)
		}
		if d := Sub(Len(a2), Len(b2)); d.isInt() && d.I.Sign() != 0 {
			return False
		} else if r := bounds(d); (r.Lo != nil && r.Lo.Sign() > 0) || (r.Hi != nil && r.Hi.Sign() < 0) {
			return False
		}
		if a2.Op == "empty" {
			return And(append(cs, Eq(Len(b2), Int(0)))...)
		}
		if b2.Op == "empty" {
			return And(append(cs, Eq(Len(a2), Int(0)))...)
		}
		if a2.id > b2.id {
			a2, b2 = b2, a2
		}
		return And(append(cs, eqAtom(a2, b2))...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return eqAtom(a, b)
}
func eqAtom(a, b *Term) *Term {
	r := mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
	if curFacts != nil {
		if curFacts.known(r) {
			return True
		}
		n := mk(&Term{Op: "not", Args: []*Term{r}, Sort: SBool})
		if curFacts.known(n) {
			return False
		}
	}
	return r
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- sequences

func parts(t *Term) []*Term {
	switch t.Op {
	case "empty":
		return nil
	case "concat":
		return t.Args
	}
	return []*Term{t}
}
func Unit(t *Term) *Term {
	s := SSeq
	if t.Sort == SSeq {
		s = SSSeq
	}
	return mk(&Term{Op: "unit", Args: []*Term{t}, Sort: s})
}
func Concat(s *Sort, ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		for _, p := range parts(t) {
			// merge adjacent extracts of the same base
			if n := len(out); n > 0 && out[n-1].Op == "extract" && p.Op == "extract" && out[n-1].Args[0] == p.Args[0] {
				q := out[n-1]
				if Add(q.Args[1], q.Args[2]) == p.Args[1] && provable(q.Args[1]) && provable(q.Args[2]) && provable(p.Args[2]) {
					out[n-1] = Extract(q.Args[0], q.Args[1], Add(q.Args[2], p.Args[2]))
					continue
				}
			}
			out = append(out, p)
		}
	}
	// a merged extract may itself have become its base
	if len(out) == 0 {
		return mk(&Term{Op: "empty", Sort: s})
	}
	if len(out) == 1 {
		return out[0]
	}
	for _, o := range out {
		if o.Op == "concat" || o.Op == "empty" {
			return Concat(s, out...)
		}
	}
	return mk(&Term{Op: "concat", Args: out, Sort: s})
}
func Len(t *Term) *Term {
	switch t.Op {
	case "empty":
		return Int(0)
	case "unit":
		return Int(1)
	case "concat":
		r := Int(0)
		for _, a := range t.Args {
			r = Add(r, Len(a))
		}
		return r
	case "extract":
		s, o, n := t.Args[0], t.Args[1], t.Args[2]
		if provable(o) && provable(n) && provable(Sub(Len(s), Add(o, n))) {
			return n
		}
	case "ite":
		a, b := Len(t.Args[1]), Len(t.Args[2])
		if a == b {
			return a
		}
		if a.isInt() || b.isInt() {
			return Ite(t.Args[0], a, b)
		}
	case "app":
		if t.Name == "zeros" && provable(t.Args[0]) {
			return t.Args[0]
		}
	}
	return mk(&Term{Op: "len", Args: []*Term{t}, Sort: SInt})
}
func Nth(s, i *Term) *Term {
	es := SInt
	if s.Sort == SSSeq {
		es = SSeq
	}
	switch s.Op {
	case "unit":
		if i.isInt() && i.I.Sign() == 0 {
			return s.Args[0]
		}
	case "concat":
		// walk while offsets are decidable
		off := i
		for k, p := range s.Args {
			l := Len(p)
			if provable(off) && provable(Sub(Sub(l, off), Int(1))) {
				return Nth(p, off)
			}
			if !provable(Sub(off, l)) {
				if k > 0 {
					return mk(&Term{Op: "nth", Args: []*Term{Concat(s.Sort, s.Args[k:]...), off}, Sort: es})
				}
				break
			}
			off = Sub(off, l)
		}
	case "extract":
		b, o, n := s.Args[0], s.Args[1], s.Args[2]
		if provable(o) && provable(i) && provable(Sub(Sub(n, i), Int(1))) && provable(Sub(Len(b), Add(o, n))) {
			return Nth(b, Add(o, i))
		}
	case "app":
		if s.Name == "zeros" && provable(i) && provable(Sub(Sub(s.Args[0], i), Int(1))) {
			return Int(0)
		}
	case "ite":
		return Ite(s.Args[0], Nth(s.Args[1], i), Nth(s.Args[2], i))
	}
	return mk(&Term{Op: "nth", Args: []*Term{s, i}, Sort: es})
}
func emptyOf(s *Sort) *Term { return mk(&Term{Op: "empty", Sort: s}) }

// Extract(s, off, n) with SMT-LIB seq.extract semantics
func Extract(s, o, n *Term) *Term {
	if n.isInt() && n.I.Sign() <= 0 {
		return emptyOf(s.Sort)
	}
	if s.Op == "empty" {
		return s
	}
	if o.isInt() && o.I.Sign() == 0 && Sub(n, Len(s)).isInt() && Sub(n, Len(s)).I.Sign() >= 0 {
		return s
	}
	if s.Op == "extract" {
		b, o1, n1 := s.Args[0], s.Args[1], s.Args[2]
		if provable(o1) && provable(o) && provable(Sub(n1, Add(o, n))) {
			return Extract(b, Add(o1, o), n)
		}
	}
	if s.Op == "app" && s.Name == "zeros" && provable(o) && provable(n) && provable(Sub(s.Args[0], Add(o, n))) {
		return Zeros(n)
	}
	if s.Op == "concat" && provable(o) {
		ps := s.Args
		off := o
		// drop leading parts
		for len(ps) > 0 {
			l := Len(ps[0])
			if provable(Sub(off, l)) {
				off = Sub(off, l)
				ps = ps[1:]
				continue
			}
			break
		}
		if len(ps) == 0 {
			return emptyOf(s.Sort)
		}
		if len(ps) < len(s.Args) {
			return Extract(Concat(s.Sort, ps...), off, n)
		}
		l := Len(ps[0])
		// entirely within the first part
		if provable(Sub(l, Add(off, n))) {
			return Extract(ps[0], off, n)
		}
		// take rest of the first part and continue
		if provable(Sub(l, off)) && provable(Sub(Add(off, n), l)) && provable(n) {
			rest := Concat(s.Sort, ps[1:]...)
			h := Extract(ps[0], off, Sub(l, off))
			if off.isInt() && off.I.Sign() == 0 {
				h = ps[0]
			}
			return Concat(s.Sort, h, Extract(rest, Int(0), Sub(n, Sub(l, off))))
		}
	}
	return mk(&Term{Op: "extract", Args: []*Term{s, o, n}, Sort: s.Sort})
}
func Zeros(n *Term) *Term {
	if n.isInt() && n.I.IsInt64() && n.I.Int64() <= 16 {
		var us []*Term
		for i := int64(0); i < n.I.Int64(); i++ {
			us = append(us, Unit(Int(0)))
		}
		return Concat(SSeq, us...)
	}
	return mk(&Term{Op: "app", Name: "zeros", Args: []*Term{n}, Sort: SSeq, Rng: &Rng{big64(0), big64(0)}})
}

// s with s[o:o+len(v)] replaced by v
func Splice(s, o, v *Term) *Term {
	e := Add(o, Len(v))
	return Concat(s.Sort, Extract(s, Int(0), o), v, Extract(s, e, Sub(Len(s), e)))
}

// ---- arrays

func Select(a, i *Term) *Term {
	for a.Op == "store" {
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "var" && a.Base != nil {
		if b := bounds(i); b.Hi != nil && b.Hi.Cmp(a.BaseHi) < 0 {
			return Select(a.Base, i)
		}
	}
	return mk(&Term{Op: "select", Args: []*Term{a, i}, Sort: a.Sort.Elem})
}
func Store(a, i, v *Term) *Term {
	if v.Sort != a.Sort.Elem {
		panic(fmt.Sprintf("Store sort mismatch %s into %s", v.Sort.Name, a.Sort.Name))
	}
	if a.Op == "store" && Eq(a.Args[1], i) == True {
		a = a.Args[0]
	}
	if a.Op == "select" || a.Op == "var" {
		if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
			return a
		}
	}
	return mk(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}
func ConstArr(s *Sort, v *Term) *Term {
	return mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: s, Name: s.Name})
}

// App: uninterpreted or recursive function application
func App(name string, s *Sort, r *Rng, args ...*Term) *Term {
	return mk(&Term{Op: "app", Name: name, Args: args, Sort: s, Rng: r})
}

// ---- bit operations on non-negative ints of width w

func BitAnd(a, b *Term, w int) *Term {
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		if a.isInt() {
			return BigT(new(big.Int).And(a.I, b.I))
		}
		// sum over runs of ones
		r := Int(0)
		i := 0
		for i < w {
			if b.I.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < w && b.I.Bit(j) == 1 {
				j++
			}
			part := Mod(Div(a, BigT(pow2(i))), BigT(pow2(j-i)))
			if j == w {
				part = Div(a, BigT(pow2(i)))
			}
			r = Add(r, MulC(part, pow2(i)))
			i = j
		}
		return r
	}
	return bitwise(a, b, w, func(x, y *Term) *Term { return And(x, y) })
}

// largest k such that a is a multiple of 2^k, syntactically
func tz(a *Term) int {
	switch a.Op {
	case "int":
		if a.I.Sign() == 0 {
			return 1000
		}
		return int(a.I.TrailingZeroBits())
	case "+":
		m := 1000
		if a.I.Sign() != 0 {
			m = int(a.I.TrailingZeroBits())
		}
		for i, x := range a.Args {
			k := int(a.Coef[i].TrailingZeroBits()) + tz(x)
			if k < m {
				m = k
			}
		}
		return m
	case "mod":
		if a.Args[1].isInt() {
			k := int(a.Args[1].I.TrailingZeroBits())
			m := tz(a.Args[0])
			if m < k {
				return m
			}
			return k
		}
	case "ite":
		x, y := tz(a.Args[1]), tz(a.Args[2])
		if x < y {
			return x
		}
		return y
	}
	return 0
}
func disjointBits(a, b *Term) bool {
	chk := func(a, b *Term) bool {
		k := tz(a)
		r := bounds(b)
		if r.Lo != nil && r.Lo.Sign() >= 0 && r.Hi != nil && k < 900 && r.Hi.Cmp(pow2(k)) < 0 {
			return true
		}
		if k < 900 && provable(b) && provable(Sub(BigT(new(big.Int).Sub(pow2(k), big64(1))), b)) {
			return true
		}
		return k >= 900
	}
	return chk(a, b) || chk(b, a)
}
func BitOr(a, b *Term, w int) *Term {
	if a.isInt() && b.isInt() {
		return BigT(new(big.Int).Or(a.I, b.I))
	}
	if disjointBits(a, b) {
		return Add(a, b)
	}
	if a.isInt() || b.isInt() {
		return Sub(Add(a, b), BitAnd(a, b, w))
	}
	return bitwise(a, b, w, func(x, y *Term) *Term { return Or(x, y) })
}
func BitXor(a, b *Term, w int) *Term {
	if a.isInt() && b.isInt() {
		return BigT(new(big.Int).Xor(a.I, b.I))
	}
	if disjointBits(a, b) {
		return Add(a, b)
	}
	if a.isInt() || b.isInt() {
		return Sub(Add(a, b), MulC(BitAnd(a, b, w), big64(2)))
	}
	return bitwise(a, b, w, func(x, y *Term) *Term { return Not(Eq(x, y)) })
}
func bitwise(a, b *Term, w int, f func(x, y *Term) *Term) *Term {
	r := Int(0)
	for i := 0; i < w; i++ {
		x := Eq(Mod(Div(a, BigT(pow2(i))), Int(2)), Int(1))
		y := Eq(Mod(Div(b, BigT(pow2(i))), Int(2)), Int(1))
		r = Add(r, MulC(Ite(f(x, y), Int(1), Int(0)), pow2(i)))
	}
	return r
}

// ---- printing

func (t *Term) String() string {
	if t.str == "" {
		t.str = t.render(func(x *Term) string { return x.String() })
		if len(t.str) > 2000 {
			s := t.str
			t.str = s
		}
	}
	return t.str
}
func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}
func smtName(n string) string {
	ok := true
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$", c)) {
			ok = false
			break
		}
	}
	if ok {
		return n
	}
	return "|" + strings.ReplaceAll(n, "|", "/") + "|"
}
func (t *Term) render(f func(*Term) string) string {
	app := func(op string, as ...*Term) string {
		var b strings.Builder
		b.WriteString("(" + op)
		for _, a := range as {
			b.WriteByte(' ')
			b.WriteString(f(a))
		}
		b.WriteByte(')')
		return b.String()
	}
	switch t.Op {
	case "int":
		return numStr(t.I)
	case "true", "false":
		return t.Op
	case "var":
		return smtName(t.Name)
	case "empty":
		return "(as seq.empty " + t.Sort.Name + ")"
	case "+":
		var b strings.Builder
		n := len(t.Args)
		if t.I.Sign() != 0 {
			n++
		}
		if n > 1 {
			b.WriteString("(+")
		}
		for i, a := range t.Args {
			if n > 1 {
				b.WriteByte(' ')
			}
			if t.Coef[i].Cmp(big64(1)) == 0 {
				b.WriteString(f(a))
			} else {
				b.WriteString("(* " + numStr(t.Coef[i]) + " " + f(a) + ")")
			}
		}
		if t.I.Sign() != 0 {
			b.WriteString(" " + numStr(t.I))
		}
		if n > 1 {
			b.WriteByte(')')
		}
		return b.String()
	case "<=":
		return "(<= 0 " + f(t.Args[0]) + ")"
	case "len":
		return app("seq.len", t.Args...)
	case "nth":
		return app("seq.nth", t.Args...)
	case "unit":
		return app("seq.unit", t.Args...)
	case "concat":
		return app("seq.++", t.Args...)
	case "extract":
		return app("seq.extract", t.Args...)
	case "constarr":
		return "((as const " + t.Sort.Name + ") " + f(t.Args[0]) + ")"
	case "app":
		if len(t.Args) == 0 {
			return smtName(t.Name)
		}
		return app(smtName(t.Name), t.Args...)
	case "forall":
		var b strings.Builder
		b.WriteString("(forall (")
		for _, v := range t.Args[1:] {
			b.WriteString("(" + smtName(v.Name) + " " + v.Sort.Name + ")")
		}
		b.WriteString(") " + f(t.Args[0]) + ")")
		return b.String()
	}
	return app(t.Op, t.Args...)
}

// substitution of variables
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = f(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, as)
		}
		memo[t] = r
		return r
	}
	return f(t)
}
func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "+":
		l := linear{map[*Term]*big.Int{}, t.I}
		for i, a := range as {
			l.add(a, t.Coef[i])
		}
		return l.term()
	case "*":
		return Mul(as[0], as[1])
	case "div":
		return Div(as[0], as[1])
	case "mod":
		return Mod(as[0], as[1])
	case "<=":
		return Ge0(as[0])
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "unit":
		return Unit(as[0])
	case "concat":
		return Concat(t.Sort, as...)
	case "len":
		return Len(as[0])
	case "nth":
		return Nth(as[0], as[1])
	case "extract":
		return Extract(as[0], as[1], as[2])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "constarr":
		return ConstArr(t.Sort, as[0])
	case "app":
		if t.Name == "zeros" {
			return Zeros(as[0])
		}
		if t.Name == "flat" {
			return Flat(as[0])
		}
		return mk(&Term{Op: "app", Name: t.Name, Args: as, Sort: t.Sort, Rng: t.Rng, Fn: t.Fn})
	case "forall":
		return mk(&Term{Op: "forall", Args: as, Sort: SBool})
	}
	panic("rebuild " + t.Op)
}

var byteRng = &Rng{big64(0), big64(255)}

// Flat: concatenation of a sequence of sequences
func Flat(s *Term) *Term {
	switch s.Op {
	case "empty":
		return EmptySeq
	case "unit":
		return s.Args[0]
	case "concat":
		var ps []*Term
		for _, a := range s.Args {
			ps = append(ps, Flat(a))
		}
		return Concat(SSeq, ps...)
	case "extract":
		// flat(s[0:i+1]) = flat(s[0:i]) ++ s[i]
		b, o, n := s.Args[0], s.Args[1], s.Args[2]
		if n.Op == "+" && n.I.Sign() > 0 {
			m := Sub(n, Int(1))
			if provable(m) && provable(o) && provable(Sub(Len(b), Add(o, n))) {
				return Concat(SSeq, Flat(Extract(b, o, m)), Nth(b, Add(o, m)))
			}
		}
	}
	return mk(&Term{Op: "app", Name: "flat", Args: []*Term{s}, Sort: SSeq, Rng: byteRng})
}
