package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var BASE = new(big.Int).Exp(big64(10), big64(15), nil)
var callGap = new(big.Int).Exp(big64(10), big64(6), nil)
var loopGap = new(big.Int).Exp(big64(10), big64(9), nil)

type Event struct {
	Kind  string // send recv close go call loop lock
	Ch    *Term
	Elem  types.Type
	Val   Value
	Ok    *Term
	Name  string
	Args  []Value
	Res   []Value
	ArgT  []types.Type
	Early bool
	Pre   *State // calls: the state before
}

type Deferred struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

type Frame struct {
	id    int
	fn    *ssa.Function
	ret   Cont
	bind  []Value
	depth int
	up    *Frame
}
type Cont func(st *State, rets []Value)

type EnvKey struct {
	f int
	v ssa.Value
}
type Held struct {
	Comp string
	Addr *Term
	Obj  Ptr // object that contains the mutex
	Fld  string
	At   *State // when it was acquired
}

type StepCtx struct {
	specs []*StepSpec
	pre  *State
	loop *Loop
	fr   *Frame
	head *State // with the local variables at the loop head
	up   []Event // what happened before, in the enclosing iteration
}

type State struct {
	x      *Exec
	heap   map[string]*Term
	env    map[EnvKey]Value
	defers map[int][]Deferred
	facts  *Facts
	path   []*Term
	ctr    *big.Int
	held   []Held
	freed  []Held // released earlier in the call
	interf bool   // others may have run since the call began
	events []Event
	step   *StepCtx
	closedAny []string // element types of channels closed by loops that have been left
	closed []*Term // channels closed before the current loop iteration
	exiting bool
	rangeKeys []Value
	dead   bool
	epoch  int
	trail  []string
	pans   bool
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.env = make(map[EnvKey]Value, len(st.env))
	for k, v := range st.env {
		n.env[k] = v
	}
	n.defers = make(map[int][]Deferred, len(st.defers))
	for k, v := range st.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.facts = newFacts(st.facts)
	n.path = st.path[:len(st.path):len(st.path)]
	n.held = append([]Held{}, st.held...)
	n.freed = st.freed[:len(st.freed):len(st.freed)]
	n.events = st.events[:len(st.events):len(st.events)]
	n.trail = st.trail[:len(st.trail):len(st.trail)]
	return &n
}

// heap-only snapshot for "old"
func (st *State) snap() *State {
	n := st.clone()
	n.env = nil
	return n
}

func (st *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		st.dead = true
		st.path = append(st.path, False)
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if st.facts.known(t) {
		return
	}
	st.path = append(st.path, t)
	st.facts.learn(t)
}

type Obl struct {
	Fn     string
	Kind   string // ensures, requires, invariant, panic, frame, lock, step, ...
	Label  string
	Props  []string
	Pos    string
	Hyps   []*Term
	Goal   *Term
	Cases  []*Term
	Query  *Query
	Res    proofResult
	Done   bool // decided by the rewriter
	Name   string
	Trail  []string
	Inputs map[string]*Term
}

type Peek struct {
	fr    *Frame
	block *ssa.BasicBlock
	conds []*Term
	other bool
}

type Exec struct {
	feasN, feasCut int
	onGlobal *ssa.Global // the receiver is what this package variable is initialised to
	p        *Program
	specs    *Specs
	fn       *ssa.Function
	con      *Contract
	name     string
	env      map[string]TV
	old      *State
	obls     []*Obl
	trial    int
	allocVar *Term
	sigRes   []types.Type
	unsup    []string
	unsupS   map[string]bool
	closures map[string]Func
	loopSt   []*LoopRun
	peek     *Peek
	frames   int
	exits    int
	paths    int
	covers   map[string]bool
	callees  map[string]bool
	inlined  map[string]bool
	ntriv    int
	steps    map[string]int
	oblSeen  map[string]bool
	budget   int
	stdUsed  map[string]bool
	inputs   map[string]*Term
	spawnOf  *SpawnSpec
	initMode bool
	initUnit bool // the function under verification is a package initialiser
	unroll   map[string]int
	compVar  map[string]*Term
	compLeaf map[string]*Rng
	collect  bool
	ifConds  []*Term
	mapKeys  map[*Term][]Value
	mapGuard map[*Term]guardInfo
	wide     bool // loop counters off by one fill typed holes too
	base     string // suffix of the initial heap variables
	reqOK    bool
	locksSeen int
	subExits int
	lemmasUsed map[string]bool
	modLocs  []modLoc
	modLocsOf *Contract
}

func newExec(p *Program, s *Specs) *Exec {
	return &Exec{p: p, specs: s, unsupS: map[string]bool{}, closures: map[string]Func{}, covers: map[string]bool{},
		callees: map[string]bool{}, inlined: map[string]bool{}, steps: map[string]int{}, oblSeen: map[string]bool{}, stdUsed: map[string]bool{}, budget: 20000, inputs: map[string]*Term{},
		compVar: map[string]*Term{}, compLeaf: map[string]*Rng{}, lemmasUsed: map[string]bool{}, mapKeys: map[*Term][]Value{}, mapGuard: map[*Term]guardInfo{}, base: "@0"}
}

func (x *Exec) newState() *State {
	st := &State{x: x, heap: map[string]*Term{}, env: map[EnvKey]Value{}, defers: map[int][]Deferred{}, facts: newFacts(nil), ctr: new(big.Int).Set(BASE)}
	return st
}
func (x *Exec) use(st *State) { curFacts = st.facts }

func (x *Exec) alloc(st *State) *Term {
	t := BigT(new(big.Int).Set(st.ctr))
	st.ctr = new(big.Int).Add(st.ctr, big64(1))
	return t
}
func (x *Exec) bump(st *State, gap *big.Int) {
	st.ctr = new(big.Int).Add(st.ctr, gap)
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.p.Prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

func (x *Exec) unsupported(msg string) {
	if os.Getenv("GOCV_TRACE") != "" {
		fmt.Fprintln(os.Stderr, "UNSUPPORTED", x.name, msg)
	}
	if x.peek != nil {
		x.peek.other = true
		return
	}
	x.unsupOnce(msg)
}

func (x *Exec) unsupOnce(msg string) {
	if !x.unsupS[msg] {
		x.unsupS[msg] = true
		x.unsup = append(x.unsup, msg)
	}
}

// run f, turning unsupported constructs into a recorded tool limit for this path
func (x *Exec) guard(f func()) {
	depth := len(x.loopSt)
	trial := x.trial
	pk := x.peek
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				x.loopSt = x.loopSt[:depth]
				x.trial = trial
				x.peek = pk
				x.unsupported(u.msg)
				return
			}
			panic(r)
		}
	}()
	f()
}

func (x *Exec) oblige(st *State, kind, label string, props []string, pos token.Pos, goal *Term) {
	if x.trial > 0 || x.peek != nil || x.initMode {
		return
	}
	// conjunctions are split so that a failing part is named
	if goal.Op == "and" {
		for _, g := range goal.Args {
			x.oblige(st, kind, label, props, pos, g)
		}
		return
	}
	if goal.Op == "forall" && goal.Args[0].Op == "or" {
		b := goal.Args[0]
		for i, a := range b.Args {
			if a.Op == "and" {
				rest := append(append([]*Term{}, b.Args[:i]...), b.Args[i+1:]...)
				for _, g := range a.Args {
					x.oblige(st, kind, label, props, pos, Forall(Or(append(append([]*Term{}, rest...), g)...), goal.Args[1:]...))
				}
				return
			}
		}
	}
	if goal.Op == "or" && len(goal.Args) <= 6 {
		// A ==> (B && C): split
		for i, a := range goal.Args {
			if a.Op == "and" {
				rest := append(append([]*Term{}, goal.Args[:i]...), goal.Args[i+1:]...)
				for _, g := range a.Args {
					x.oblige(st, kind, label, props, pos, Or(append(append([]*Term{}, rest...), g)...))
				}
				return
			}
		}
	}
	o := &Obl{Fn: x.name, Kind: kind, Label: label, Props: props, Pos: x.pos(pos), Goal: goal, Trail: st.trail, Inputs: x.inputs}
	if goal == True {
		o.Done = true
		x.ntriv++
		k := o.Kind + "|" + o.Label + "|" + o.Pos
		if !x.oblSeen[k] {
			x.oblSeen[k] = true
		}
		x.obls = append(x.obls, o)
		return
	}
	o.Hyps = st.path[:len(st.path):len(st.path)]
	x.obls = append(x.obls, o)
}

// feasibility of the current path
func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	for _, h := range st.path {
		if h == False {
			return false
		}
	}
	// where asking has never helped, do not ask for long: an infeasible path only means more obligations
	ms := 100
	if x.feasN >= 40 && x.feasCut == 0 {
		ms = 8
	}
	x.feasN++
	if quickProve(st.path, False, ms) {
		x.feasCut++
		return false
	}
	return true
}


type alt struct {
	cond *Term
	note string
	run  func(st *State)
}

func (x *Exec) fork(st *State, alts ...alt) {
	var live []alt
	x.use(st)
	for _, a := range alts {
		if a.cond != False {
			live = append(live, a)
		}
	}
	for _, a := range live {
		s := st
		if len(live) > 1 {
			s = st.clone()
		}
		x.use(s)
		if a.note != "" {
			s.trail = append(s.trail, a.note)
		}
		c := a.cond
		triv := c == True
		s.assume(c)
		if s.dead {
			continue
		}
		if !triv && len(live) > 1 {
			x.paths++
			if x.paths > x.budget {
				panic(unsupportedErr{"too many paths"})
			}
			if !x.feasible(s) {
				continue
			}
		}
		run := a.run
		x.guard(func() { run(s) })
	}
}

// a symbolic value of a type
func (x *Exec) symbolic(st *State, t types.Type, name string) Value {
	if tt, ok := t.(*types.Tuple); ok {
		var r Tuple
		for i := 0; i < tt.Len(); i++ {
			r = append(r, x.symbolic(st, tt.At(i).Type(), fmt.Sprintf("%s%d", name, i)))
		}
		return r
	}
	if op := opaque(t); op != "" {
		return Struct{T: t}
	}
	if st2, ok := under(t).(*types.Struct); ok {
		s := Struct{T: t}
		for i := 0; i < st2.NumFields(); i++ {
			s.Fields = append(s.Fields, x.symbolic(st, st2.Field(i).Type(), name+"."+st2.Field(i).Name()))
		}
		return s
	}
	ls := leaves(t)
	ts := make([]*Term, len(ls))
	for i, l := range ls {
		rg := l.Rng
		if l.Ptr && l.Sort == SInt {
			rg = below(st.ctr)
		}
		ts[i] = FreshVar(name+l.Path, l.Sort, rg)
	}
	v := st.fromLeaves(ts, t)
	st.typeFacts(v, t)
	if i, ok := v.(Iface); ok {
		st.assume(Implies(Eq(i.Tag, Int(0)), Eq(i.Data, Int(0))))
	}
	return v
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
