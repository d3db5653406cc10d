package main

import "fmt"

// a lemma: its statement for arbitrary values of its variables, from its hypotheses and
// from the lemmas it uses (itself included, at smaller arguments)
func (x *Exec) proveLemma(l *Lemma) {
	x.name = "lemma " + l.Name
	x.con = &Contract{Key: x.name}
	st := x.newState()
	st.x = x
	x.use(st)
	env := map[string]TV{}
	for _, v := range l.Vars {
		if s, r := sortOfSpec(v.Type); s != nil {
			t := FreshVar(v.Name, s, r)
			env[v.Name] = specTV(t)
			x.inputs[v.Name] = t
			continue
		}
		t := x.p.parseType(v.Type)
		if t == nil {
			panic(unsupportedErr{"lemma " + l.Name + ": type " + v.Type})
		}
		env[v.Name] = goTV(x.symbolic(st, t, v.Name), t)
	}
	x.env = env
	for _, c := range l.Req {
		st.assume(x.evalBool(st, st, env, c))
		x.use(st)
	}
	x.old = st.snap()
	x.reqOK = x.feasible(st)
	var alts []*State
	alts = append(alts, st)
	for _, e := range l.Split {
		var next []*State
		for _, s := range alts {
			a, b := s.clone(), s.clone()
			x.use(a)
			t := x.evalExpr(a, a, env, e)
			x.use(b)
			b.assume(Not(t))
			x.use(a)
			a.assume(t)
			for _, q := range []*State{a, b} {
				if !q.dead && x.feasible(q) {
					next = append(next, q)
				}
			}
		}
		alts = next
	}
	for _, s := range alts {
		x.use(s)
		for _, u := range l.Uses {
			self := x.selfUse(s, env, l, u)
			t := x.useLemma(s, s, env, u)
			if self != nil {
				t = Implies(self, t)
			}
			s.assume(t)
			x.use(s)
		}
		for _, c := range l.Ens {
			x.oblige(s, "lemma", c.Label, c.Props, 0, x.evalBool(s, s, env, c))
		}
		x.exits++
	}
}

// the condition under which a lemma may use itself, and a check that other uses go backwards
func (x *Exec) selfUse(st *State, env map[string]TV, l *Lemma, e *Expr) *Term {
	for e.Op == "bin" && e.Name == "==>" {
		e = e.Args[1]
	}
	if e.Name != l.Name {
		before := false
		for _, m := range x.specs.lemmaSeq {
			if m == l {
				break
			}
			if m.Name == e.Name {
				before = true
			}
		}
		if !before {
			panic(unsupportedErr{fmt.Sprintf("lemma %s uses %s, which is not declared before it", l.Name, e.Name)})
		}
		return nil
	}
	if l.Decr == nil {
		panic(unsupportedErr{"lemma " + l.Name + " uses itself without a measure"})
	}
	c := &ectx{x: x, st: st, old: st, env: env, cur: st}
	saved := curFacts
	x.use(st)
	defer func() { curFacts = saved }()
	now := c.integer(l.Decr)
	env2 := map[string]TV{}
	for i, v := range l.Vars {
		tv := c.eval(e.Args[i])
		if s, _ := sortOfSpec(v.Type); s != nil {
			if s == SSeq || s == SSSeq {
				tv = specTV(c.seq(e.Args[i]))
			} else {
				tv = specTV(c.mathOf(tv, e))
			}
		}
		env2[v.Name] = tv
	}
	c2 := &ectx{x: x, st: st, old: st, env: env2, cur: st}
	then := c2.integer(l.Decr)
	return And(Ge0(then), Lt(then, now))
}
