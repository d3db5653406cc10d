package main

// Loops: unrolled when their condition is decided, otherwise cut by inductive
// invariants (contract candidates and bound templates, weakened to an inductive set).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopRun struct {
	fr    *Frame
	loop  *Loop
	exits []loopEx
	back  func(st *State, prev *ssa.BasicBlock)
}

func (x *Exec) enterLoop(st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) {
	x.phis(st, fr, l.Header, prev)
	key := fmt.Sprintf("%d:%d", fr.id, l.Header.Index)
	if x.unroll == nil {
		x.unroll = map[string]int{}
	}
	if l.Kind == "loop" && x.unroll[key] < 2000 && x.decided(st, fr, l) {
		x.unroll[key]++
		x.runFrom(st, fr, l.Header, 0)
		return
	}
	x.runLoop(st, fr, l)
}

// is the loop test a constant at this point?
func (x *Exec) decided(st *State, fr *Frame, l *Loop) bool {
	b := l.Header
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || l.Blocks[b.Succs[0]] == l.Blocks[b.Succs[1]] {
		return false
	}
	_ = iff
	saved, ls := x.peek, x.loopSt
	pk := &Peek{fr: fr, block: b}
	x.peek = pk
	x.loopSt = nil
	s := st.clone()
	x.guard(func() { x.runFrom(s, fr, b, 0) })
	x.peek, x.loopSt = saved, ls
	x.use(st)
	if pk.other || len(pk.conds) == 0 {
		return false
	}
	if os.Getenv("GOCV_DEBUGL") != "" {
		fmt.Fprintln(os.Stderr, "loop test", b.Parent(), pk.conds)
	}
	for _, c := range pk.conds {
		if c != pk.conds[0] || (c != True && c != False) {
			return false
		}
	}
	return true
}

type loopEx struct {
	st    *State
	early bool
	run   func(st *State)
}

type hvar struct {
	v      *Term
	comp   string
	addr   *Term // nil: whole component
	framed bool  // only new objects differ
	phi    *ssa.Phi
	leaf   int
	sort   *Sort
	rng    *Rng
}

type loopMods struct {
	phis map[*ssa.Phi]bool
	all  map[string]bool
	at   map[string]map[*Term]bool
	fr   map[string]bool // stored to at addresses allocated by the loop
	hav  map[string]bool // of these, those an invariant speaks about
}

func (m *loopMods) size() int {
	n := len(m.phis) + len(m.all)
	for _, a := range m.at {
		n += len(a)
	}
	return n
}

type cand struct {
	t     *Term
	label string
	user  bool
	must  bool // a labelled invariant without variables: not holding is a failure, not a reason to drop it
	props []string
}

func loopPhis(l *Loop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range l.Header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// leaves of a local value
func (st *State) valLeaves(v Value) ([]*Term, bool) {
	switch a := v.(type) {
	case Scalar:
		return []*Term{a.T}, true
	case Ptr:
		if a.Arr != nil {
			return nil, false
		}
		return []*Term{a.Addr}, true
	case Slice:
		if a.Arr.Snap != nil {
			return []*Term{a.Arr.Snap, a.Off, a.Len}, true
		}
		return []*Term{a.Arr.Addr, a.Off, a.Len, a.Cap}, true
	case Iface:
		return []*Term{a.Tag, st.ifaceData(a)}, true
	case Func:
		return []*Term{st.funcTerm(a)}, true
	case Array:
		return []*Term{a.Seq}, a.Seq != nil
	case Struct:
		var out []*Term
		for _, f := range a.Fields {
			l, ok := st.valLeaves(f)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	}
	return nil, false
}

func sameVal(st *State, a, b Value) bool {
	if p, ok := a.(Ptr); ok {
		q, ok := b.(Ptr)
		if !ok || p.Path != q.Path || p.Sub != q.Sub {
			return false
		}
		if p.Arr != nil || q.Arr != nil {
			return p.Arr != nil && q.Arr != nil && p.Arr.Comp == q.Arr.Comp && p.Arr.Addr == q.Arr.Addr && p.Idx == q.Idx && p.Arr.Snap == q.Arr.Snap
		}
	}
	if p, ok := a.(Slice); ok {
		q, ok := b.(Slice)
		if !ok || p.Arr.Comp != q.Arr.Comp {
			return false
		}
	}
	la, ok1 := st.valLeaves(a)
	lb, ok2 := st.valLeaves(b)
	if !ok1 || !ok2 || len(la) != len(lb) {
		return false
	}
	for i := range la {
		if la[i] != lb[i] {
			return false
		}
	}
	return true
}

// the state at the loop head for a given set of modified locations
func (x *Exec) loopHead(st0 *State, fr *Frame, l *Loop, m *loopMods) (*State, []hvar) {
	st := st0.clone()
	x.bump(st, loopGap)
	x.use(st)
	var hs []hvar
	for _, c := range sortedKeys(m.all) {
		t, ok := st.heap[c]
		var base *Term
		if ok {
			base = t
		} else {
			base = x.compVar[c]
		}
		if base == nil {
			continue
		}
		rg := compRng(base)
		if x.compLeaf[c] == ptrRng {
			rg = below(st.ctr)
		}
		v := FreshVar(c+"@L", base.Sort, rg)
		hs = append(hs, hvar{v: v, comp: c, sort: base.Sort})
		st.set(c, v)
	}
	for _, c := range sortedKeys(m.hav) {
		base := st.heap[c]
		if base == nil {
			base = x.compVar[c]
		}
		if base == nil || m.all[c] {
			continue
		}
		rg := compRng(base)
		if x.compLeaf[c] == ptrRng {
			rg = below(st.ctr)
		}
		v := FreshVar(c+"@L", base.Sort, rg)
		v.Base, v.BaseHi = base, st0.ctr
		hs = append(hs, hvar{v: v, comp: c, sort: base.Sort, framed: true})
		st.set(c, v)
		a := FreshVar("fa", SInt, ptrRng)
		st.assume(Forall(Or(Not(Lt(a, BigT(st0.ctr))), rawEq(rawSel(v, a), rawSel(base, a))), a))
	}
	cs := sortedKeys(m.at)
	for _, c := range cs {
		if m.all[c] {
			continue
		}
		var as []*Term
		for a := range m.at[c] {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
		for _, a := range as {
			base := st.heap[c]
			if base == nil {
				base = x.compVar[c]
			}
			if base == nil {
				continue
			}
			r := selRng(base, a)
			var rp *Rng
			if r.Lo != nil || r.Hi != nil {
				rp = &r
			}
			if l := x.compLeaf[c]; l != nil {
				rp = l
				if l == ptrRng {
					rp = below(st.ctr)
				}
			}
			v := FreshVar(strings.ReplaceAll(c, "|", "_"), base.Sort.Elem, rp)
			hs = append(hs, hvar{v: v, comp: c, addr: a, sort: base.Sort.Elem})
			st.set(c, Store(base, a, v))
		}
	}
	for _, p := range loopPhis(l) {
		if !m.phis[p] {
			continue
		}
		old := x.val(st0, fr, p)
		if pp, ok := old.(Ptr); ok && (pp.Path != "" || pp.Arr != nil) {
			panic(unsupportedErr{"interior pointer varies in a loop"})
		}
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		v := x.symbolic(st, p.Type(), name)
		if f, ok := old.(MapIter); ok {
			x.put(st, fr, p, f)
			continue
		}
		x.put(st, fr, p, v)
		ls, ok := st.valLeaves(v)
		if !ok {
			panic(unsupportedErr{"loop variable of type " + p.Type().String()})
		}
		for i, t := range ls {
			hs = append(hs, hvar{v: t, phi: p, leaf: i, sort: t.Sort})
		}
	}
	st.rangeKeys = nil
	return st, hs
}

func rawSel(a, i *Term) *Term {
	return mk(&Term{Op: "select", Args: []*Term{a, i}, Sort: a.Sort.Elem})
}

func compRng(t *Term) *Rng {
	for {
		switch t.Op {
		case "store":
			t = t.Args[0]
			continue
		case "var":
			return t.Rng
		}
		return nil
	}
}

// substitution taking head variables to their values in another state
func (x *Exec) loopMap(st *State, fr *Frame, hs []hvar, val func(p *ssa.Phi) Value) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, h := range hs {
		switch {
		case h.comp == "@alloc":
			m[h.v] = BigT(st.ctr)
		case h.phi != nil:
			ls, ok := st.valLeaves(val(h.phi))
			if ok && h.leaf < len(ls) && ls[h.leaf].Sort == h.v.Sort {
				m[h.v] = ls[h.leaf]
			} else {
				m[h.v] = FreshVar("lost", h.v.Sort, nil)
			}
		case h.addr != nil:
			m[h.v] = Select(st.get(h.comp, ArrOf(h.sort), nil), h.addr)
		default:
			m[h.v] = st.get(h.comp, h.sort, nil)
		}
	}
	return m
}

type backEdge struct {
	st   *State
	prev *ssa.BasicBlock
}

func edgeVal(x *Exec, st *State, fr *Frame, l *Loop, prev *ssa.BasicBlock) func(p *ssa.Phi) Value {
	pi := 0
	for i, q := range l.Header.Preds {
		if q == prev {
			pi = i
		}
	}
	return func(p *ssa.Phi) Value { return x.val(st, fr, p.Edges[pi]) }
}

// explore the body once from head, collecting back edges
func (x *Exec) loopBody(head *State, fr *Frame, l *Loop, onBack func(st *State, prev *ssa.BasicBlock)) []loopEx {
	run := &LoopRun{fr: fr, loop: l, back: onBack}
	x.loopSt = append(x.loopSt, run)
	x.runFrom(head, fr, l.Header, 0)
	x.loopSt = x.loopSt[:len(x.loopSt)-1]
	return run.exits
}

func isFreshAddr(a *Term, ctr0 *Term) bool {
	return a.isInt() && a.I.Cmp(ctr0.I) >= 0
}

// addresses stored to between two versions of a component; ok=false when unknown
func storesBetween(now, then *Term) ([]*Term, bool) {
	var as []*Term
	for now != then {
		switch now.Op {
		case "store":
			as = append(as, now.Args[1])
			now = now.Args[0]
		case "ite":
			a, ok := storesBetween(now.Args[1], then)
			if !ok {
				return nil, false
			}
			b, ok := storesBetween(now.Args[2], then)
			if !ok {
				return nil, false
			}
			return append(append(as, a...), b...), true
		default:
			return as, false
		}
	}
	return as, true
}

func mentions(t *Term, vs map[*Term]bool) bool {
	seen := map[*Term]bool{}
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if found || seen[t] {
			return
		}
		seen[t] = true
		if vs[t] {
			found = true
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return found
}

func (x *Exec) runLoop(st0 *State, fr *Frame, l *Loop) {
	x.use(st0)
	maxVar := nextID // terms created later are not loop invariant
	steps := x.stepsFor(l, fr)
	ctr0 := BigT(st0.ctr)
	m := &loopMods{phis: map[*ssa.Phi]bool{}, all: map[string]bool{}, at: map[string]map[*Term]bool{}, fr: map[string]bool{}, hav: map[string]bool{}}
	entryVal := func(p *ssa.Phi) Value { return x.val(st0, fr, p) }
	outer := x.stepOuter(st0, l, fr)

	prep := func(head *State) {
		for _, e := range head.events {
			if e.Kind == "close" {
				head.closed = append(head.closed[:len(head.closed):len(head.closed)], e.Ch)
			}
		}
		head.events = nil
		head.freed = nil
	}
	// 1. modified locations
	x.trial++
	depth := len(x.loopSt)
	var head *State
	var hs []hvar
	for round := 0; ; round++ {
		if round > 12 {
			x.trial--
			panic(unsupportedErr{"loop modification set does not stabilise"})
		}
		n := m.size()
		head, hs = x.loopHead(st0, fr, l, m)
		prep(head)
		hc := head.clone()
		headHeap := head.clone().heap
		x.loopBody(hc, fr, l, func(st *State, prev *ssa.BasicBlock) {
			ev := edgeVal(x, st, fr, l, prev)
			for _, p := range loopPhis(l) {
				if !m.phis[p] && !sameVal(st, ev(p), x.val(head, fr, p)) {
					m.phis[p] = true
				}
			}
			for c, t := range st.heap {
				if m.all[c] {
					continue
				}
				then, ok := headHeap[c]
				if !ok {
					then = x.compVar[c]
				}
				if then == t {
					continue
				}
				var as []*Term
				ok = then != nil
				if ok {
					as, ok = storesBetween(t, then)
				} else {
					// first touched inside the loop
					as, ok = storesBetween(t, baseVar(t))
				}
				if !ok {
					m.all[c] = true
					continue
				}
				for _, a := range as {
					if isFreshAddr(a, ctr0) {
						m.fr[c] = true
						continue
					}
					if a.id >= maxVar && !a.isInt() && !onlyOldVars(a, maxVar) {
						m.all[c] = true
						continue
					}
					if m.at[c] == nil {
						m.at[c] = map[*Term]bool{}
					}
					m.at[c][a] = true
				}
				if len(m.at[c]) > 8 {
					m.all[c] = true
				}
			}
		})
		x.loopSt = x.loopSt[:depth]
		if m.size() == n {
			break
		}
	}
	// components havocked at single places must exist in the entry state
	// 2. candidate invariants, over the head variables
	var cands []cand
	x.use(head)
	// the allocation counter is a variable of the loop
	x.allocVar = FreshVar("alloc", SInt, nil)
	uinv := x.userInvs(head, fr, l)
	if len(m.fr) > 0 {
		// components stored to at new objects only: as variables, where an invariant speaks about them
		vs := map[*Term]string{}
		for _, c := range sortedKeys(m.fr) {
			if m.all[c] {
				continue
			}
			t := head.heap[c]
			if t == nil {
				t = x.compVar[c]
			}
			for t != nil && t.Op == "store" {
				t = t.Args[0]
			}
			if t != nil && t.Op == "var" && t.Base == nil {
				vs[t] = c
			}
		}
		for _, c := range uinv {
			subterms(c.t, map[*Term]bool{}, func(t *Term) {
				if c, ok := vs[t]; ok {
					m.hav[c] = true
				}
			})
		}
		if len(m.hav) > 0 {
			x.use(st0)
			head, hs = x.loopHead(st0, fr, l, m)
			prep(head)
			x.use(head)
			uinv = x.userInvs(head, fr, l)
		}
	}
	for _, c := range uinv {
		cands = append(cands, c)
	}
	hs = append(hs, hvar{v: x.allocVar, comp: "@alloc", sort: SInt})
	head.assume(Eq(x.allocVar, BigT(head.ctr)))
	// what exists holds nothing that does not exist yet
	for _, c := range sortedKeys(x.compLeaf) {
		if x.compLeaf[c] != ptrRng {
			continue
		}
		t := head.heap[c]
		if t == nil {
			t = x.compVar[c]
		}
		for t != nil && t.Op == "store" {
			t = t.Args[0]
		}
		if t != nil && t.Op == "var" {
			head.assume(App("idwf", SBool, nil, t, BigT(head.ctr)))
		}
	}
	x.allocVar = nil
	hv := map[*Term]bool{}
	for _, h := range hs {
		hv[h.v] = true
		if h.comp == "@alloc" {
			continue
		}
		if h.addr == nil && h.phi == nil && h.sort.Elem != nil && !h.framed {
			// frame candidates for a wholly modified component
			e := st0.get(h.comp, h.sort, nil)
			a := FreshVar("fa", SInt, ptrRng)
			cands = append(cands, cand{t: Forall(Or(Not(Lt(a, ctr0)), Eq(Select(h.v, a), Select(e, a))), a), label: "frame"})
			if x.old != nil && (x.con == nil || !x.con.World) {
				o := x.old.get(h.comp, h.sort, nil)
				b := FreshVar("fa", SInt, ptrRng)
				ex := x.modExcept(h.comp, b)
				cands = append(cands, cand{t: Forall(Or(ex, Not(Lt(b, BigT(BASE))), Eq(Select(h.v, b), Select(o, b))), b), label: "frame"})
			}
		}
	}
	intPhi := map[*Term]*Term{}
	em := x.loopMap(st0, fr, hs, entryVal)
	for _, h := range hs {
		if h.phi != nil && h.sort == SInt {
			if _, isCh := under(h.phi.Type()).(*types.Chan); isCh {
				// a channel is kept until it is switched off
				cands = append(cands, cand{t: Or(Eq(h.v, em[h.v]), Eq(h.v, Int(0))), label: "kept or nil"})
			}
			if _, isSl := under(h.phi.Type()).(*types.Slice); isSl || isIntT(h.phi.Type()) {
				intPhi[h.v] = em[h.v]
				cands = append(cands, cand{t: Ge0(h.v), label: "nonneg"})
				if em[h.v].isInt() && isIntT(h.phi.Type()) {
					cands = append(cands, cand{t: Ge(h.v, em[h.v]), label: "from start"})
					cands = append(cands, cand{t: Le(h.v, em[h.v]), label: "to start"})
				}
			}
		}
	}
	// loop tests suggest bounds
	x.ifConds = nil
	x.collect = true
	back0 := 0
	x.loopBody(head.clone(), fr, l, func(st *State, prev *ssa.BasicBlock) { back0++ })
	x.loopSt = x.loopSt[:depth]
	x.collect = false
	conds := x.ifConds
	x.ifConds = nil
	seenC := map[*Term]bool{}
	var measures []*Term
	for _, c := range conds {
		for _, g := range []*Term{c, Not(c)} {
			if g.Op == "<=" {
				if !mentions(g, hv) {
					continue
				}
				measures = append(measures, g.Args[0])
				for _, k := range []int64{0, 1} {
					t := mk(&Term{Op: "<=", Args: []*Term{Add(g.Args[0], Int(k))}, Sort: SBool})
					if u := unwrap(g.Args[0]); u != g.Args[0] {
						// the same bound on the value before it wraps around
						t = Ge0(Add(u, Int(k)))
					}
					if !seenC[t] {
						seenC[t] = true
						cands = append(cands, cand{t: t, label: "bound"})
					}
				}
			}
		}
	}
	measures = append(x.userMeasures(head, fr), measures...)
	if len(cands) > 60 {
		cands = cands[:60]
	}
	// base
	var live []cand
	x.use(st0)
	seenC = map[*Term]bool{}
	for _, c := range cands {
		if c.t == True || seenC[c.t] {
			continue
		}
		seenC[c.t] = true
		b := Subst(c.t, em)
		if (c.must && outer) || quickProve(st0.path, b, 600) {
			live = append(live, c)
		} else {
			debugf("  inv %s: base fails: %.200s", c.label, c.t)
		}
	}
	// 3. weaken to an inductive set
	var measure *Term
	for round := 0; ; round++ {
		h := head.clone()
		x.use(h)
		for _, c := range live {
			h.assume(c.t)
		}
		x.use(h)
		var edges []backEdge
		x.loopBody(h, fr, l, func(st *State, prev *ssa.BasicBlock) { edges = append(edges, backEdge{st, prev}) })
		x.loopSt = x.loopSt[:depth]
		var keep []cand
		for _, c := range live {
			ok := true
			if c.must && outer {
				keep = append(keep, c)
				continue
			}
			for _, e := range edges {
				x.use(e.st)
				bm := x.loopMap(e.st, fr, hs, edgeVal(x, e.st, fr, l, e.prev))
				if !quickProve(e.st.path, Subst(c.t, bm), 1500) {
					ok = false
					debugf("  inv %s: not preserved: %.300s", c.label, c.t)
					if os.Getenv("GOCV_INVHYPS") != "" {
						for _, hh := range flattenAnd(e.st.path) {
							debugf("      %.400s", hh)
						}
						debugf("   => %.900s", Subst(c.t, bm))
					}
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		done := len(keep) == len(live)
		live = keep
		if done {
			for _, ms := range measures {
				ok := len(edges) > 0 || true
				for _, e := range edges {
					x.use(e.st)
					bm := x.loopMap(e.st, fr, hs, edgeVal(x, e.st, fr, l, e.prev))
					if !quickProve(e.st.path, And(Ge0(ms), Lt(Subst(ms, bm), ms)), 800) {
						ok = false
						break
					}
				}
				if ok {
					measure = ms
					break
				}
			}
			break
		}
	}
	x.trial--
	// 4. final exploration
	x.use(st0)
	pos := loopPos(l)
	for _, c := range live {
		if !c.user {
			continue
		}
		x.oblige(st0, "invariant", c.label+" holds on entry", c.props, pos, Subst(c.t, em))
	}
	if outer {
		x.checkPrologue(st0, pos)
	}
	h := head.clone()
	x.use(h)
	for _, c := range live {
		h.assume(c.t)
	}
	x.use(h)
	pre := h.snap()
	savedStep := st0.step
	savedEv := st0.events
	h.step = &StepCtx{specs: steps, pre: pre, loop: l, fr: fr, head: h.clone(), up: savedEv}
	needTerm := x.con != nil && x.con.Terminates && l.Kind == "loop"
	var closes []string
	exits := x.loopBody(h, fr, l, func(st *State, prev *ssa.BasicBlock) {
		x.use(st)
		bm := x.loopMap(st, fr, hs, edgeVal(x, st, fr, l, prev))
		for _, c := range live {
			g := Subst(c.t, bm)
			lab := c.label
			if !c.user {
				lab = "inferred " + lab
			}
			x.oblige(st, "invariant", lab+" is preserved", c.props, pos, g)
		}
		if needTerm {
			if measure != nil {
				x.oblige(st, "termination", "the loop measure decreases", nil, pos, And(Ge0(measure), Lt(Subst(measure, bm), measure)))
			} else {
				x.oblige(st, "termination", "the loop has a decreasing measure", nil, pos, False)
			}
		}
		x.checkLocks(st, pre, pos, "at the end of an iteration")
		x.checkSteps(st, steps, pre, pos, false)
		closes = append(closes, x.checkCloses(st, l, pos)...)
	})
	if len(x.loopSt) != depth {
		panic("loop stack")
	}
	// leaving the loop
	for _, e := range exits {
		e := e
		e.st.closedAny = append(e.st.closedAny[:len(e.st.closedAny):len(e.st.closedAny)], closes...)
		if !outer {
			ev := append(append([]Event{}, savedEv...), Event{Kind: "loop", Name: l.Kind, Early: e.early})
			if e.early {
				ev = append(ev, e.st.events...)
			}
			e.st.events = ev
			e.st.step = savedStep
		}
		x.use(e.st)
		x.guard(func() { e.run(e.st) })
	}
}

// channels closed in one iteration are not closed again in another; reports the element types of those the iteration closes
func (x *Exec) checkCloses(st *State, l *Loop, pos token.Pos) []string {
	any := st.closedAny[:len(st.closedAny):len(st.closedAny)]
	for _, ev := range st.events {
		if ev.Kind != "close" {
			continue
		}
		any = append(any, chanElem[ev.Ch])
		goal := False
		if n := len(st.rangeKeys); l.Kind == "range" && n > 0 {
			// the same channel under another key?
			m := map[*Term]*Term{}
			differ := False
			other := func(t *Term) {
				if t.Op == "var" {
					m[t] = FreshVar("otherkey", t.Sort, t.Rng)
					differ = Or(differ, Ne(t, m[t]))
				}
			}
			switch k := st.rangeKeys[n-1].(type) {
			case Scalar:
				other(k.T)
			case Iface:
				other(k.Tag)
				other(st.ifaceData(k))
			}
			if len(m) > 0 {
				goal = Ne(ev.Ch, Subst(ev.Ch, m))
				for _, h := range st.path {
					if h2 := Subst(h, m); h2 != h {
						goal = Implies(h2, goal)
					}
				}
				goal = Implies(differ, goal)
			}
		}
		x.oblige(st, "panic", "close of a channel closed in an earlier iteration", nil, pos, goal)
	}
	return any
}

// replace a number that wraps around at the machine width by the number itself
func unwrap(t *Term) *Term {
	m := map[*Term]*Term{}
	var walk func(t *Term)
	seen := map[*Term]bool{}
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "mod" && t.Args[1].isInt() && t.Args[1].I.BitLen() == 65 {
			m[t] = t.Args[0]
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	if len(m) == 0 {
		return t
	}
	return Subst(t, m)
}

func baseVar(t *Term) *Term {
	for t.Op == "store" {
		t = t.Args[0]
	}
	return t
}

// a term built only from variables that existed before the loop
func onlyOldVars(t *Term, maxID int) bool {
	if t.Op == "var" {
		return t.id < maxID || strings.HasSuffix(t.Name, "@0")
	}
	for _, a := range t.Args {
		if !onlyOldVars(a, maxID) {
			return false
		}
	}
	return true
}

func isIntT(t types.Type) bool {
	_, _, ok := intInfo(t)
	return ok
}

func loopPos(l *Loop) token.Pos {
	for _, in := range l.Header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for b := range l.Blocks {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}
