package main

// A second attempt at an obligation the solvers did not settle directly: definitions are
// substituted, conditions the hypotheses decide are resolved (each by a solver query), and
// recursive functions whose case is decided are unfolded. Every step derives consequences of
// the hypotheses and the negated goal, so a proof of the result is a proof of the original.

import (
	"fmt"
	"os"
)

type simp struct {
	quick  func(h []*Term, g *Term) bool
	budget int
}

func occurs(v, t *Term, memo map[*Term]bool) bool {
	if v == t {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if occurs(v, a, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

func flattenAnd(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == True || seen[t] {
			return
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		seen[t] = true
		out = append(out, t)
	}
	for _, t := range ts {
		add(t)
	}
	return out
}

func hasRec(t *Term) bool {
	r := false
	subterms(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "app" && x.Fn != nil {
			r = true
		}
	})
	return r
}

func hasQuant(t *Term) bool {
	r := false
	subterms(t, map[*Term]bool{}, func(x *Term) {
		if x.Op == "forall" || x.Op == "exists" {
			r = true
		}
	})
	return r
}

func withoutRec(hs []*Term) []*Term {
	var out []*Term
	for _, h := range flattenAnd(hs) {
		if !hasRec(h) && !hasQuant(h) {
			out = append(out, h)
		}
	}
	return out
}

// (hyps, goal) made simpler; true when that proved it
func (s *simp) run(hyps []*Term, goal *Term) ([]*Term, *Term, bool) {
	saved := curFacts
	defer func() { curFacts = saved }()
	curFacts = nil
	H := flattenAnd(hyps)
	tried := map[*Term]bool{}
	var litsDecided []*Term
	for round := 0; round < 8; round++ {
		changed := false
		// the goal: hypotheses of an implication are hypotheses
		curFacts = nil
		for goal.Op == "or" {
			pick := len(goal.Args) - 1
			for i, a := range goal.Args {
				if a.Op == "=" && (a.Args[0].Sort == SSeq || a.Args[0].Sort == SSSeq) || a.Op == "and" {
					pick = i
				}
			}
			for i, a := range goal.Args {
				if i != pick {
					H = append(H, Not(a))
				}
			}
			goal = goal.Args[pick]
			changed = true
		}
		H = flattenAnd(H)
		// definitions
		for again := true; again; {
			again = false
			for i, h := range H {
				if h.Op != "=" {
					continue
				}
				a, b := h.Args[0], h.Args[1]
				if a.Op != "var" || b.Op == "var" && b.id > a.id {
					a, b = b, a
				}
				if a.Op != "var" || occurs(a, b, map[*Term]bool{}) {
					continue
				}
				if a.Sort == SBool {
					continue
				}
				m := map[*Term]*Term{a: b}
				var n []*Term
				for j, g := range H {
					if j != i {
						n = append(n, Subst(g, m))
					}
				}
				if a.Rng != nil && a.Sort == SInt {
					if a.Rng.Lo != nil {
						n = append(n, Ge(b, BigT(a.Rng.Lo)))
					}
					if a.Rng.Hi != nil {
						n = append(n, Le(b, BigT(a.Rng.Hi)))
					}
				}
				goal = Subst(goal, m)
				H = flattenAnd(n)
				again, changed = true, true
				break
			}
		}
		for _, h := range H {
			if h == False || h == goal {
				return H, goal, true
			}
		}
		if goal == True {
			return H, goal, true
		}
		// what the hypotheses say
		f := newFacts(nil)
		for _, h := range H {
			f.learn(h)
		}
		curFacts = f
		var n []*Term
		for _, h := range H {
			switch h.Op {
			case "<=":
				if a := rewrite(h.Args[0]); a != h.Args[0] {
					curFacts = nil
					g := Ge0(a)
					curFacts = f
					if g != True && f.lits[g] && g != h {
						changed = true
						continue
					}
					if g != True && g != h {
						n = append(n, g)
						changed = true
						continue
					}
				}
			case "or", "ite":
				delete(f.lits, h)
				r := rewrite(h)
				f.lits[h] = true
				if r == True {
					r = h
				}
				n = append(n, r)
				changed = changed || r != h
				continue
			case "=":
				a, b := rewrite(h.Args[0]), rewrite(h.Args[1])
				if a != h.Args[0] || b != h.Args[1] {
					// other facts may normalise the equation further, itself excepted
					delete(f.lits, h)
					g := Eq(a, b)
					f.lits[h] = true
					if g == True { // decided by arithmetic facts that include this equation
						g = rawEq(a, b)
					}
					n = append(n, g)
					changed = changed || g != h
					continue
				}
			case "forall":
				if b := rewrite(h.Args[0]); b != h.Args[0] {
					g := Forall(b, h.Args[1:]...)
					n = append(n, g)
					changed = true
					continue
				}
			case "select", "not":
				in := h
				if h.Op == "not" {
					in = h.Args[0]
				}
				if in.Op == "and" || in.Op == "or" || in.Op == "ite" {
					delete(f.lits, h)
					r := Not(rewrite(in))
					f.lits[h] = true
					if r == True {
						r = h
					}
					n = append(n, r)
					changed = changed || r != h
					continue
				}
				if in.Op != "select" && in.Op != "=" {
					break
				}
				as := make([]*Term, len(in.Args))
				for i, a := range in.Args {
					as[i] = rewrite(a)
				}
				curFacts = nil
				g := rebuild(in, as)
				if h.Op == "not" {
					g = Not(g)
				}
				curFacts = f
				if g != h && g != True && !f.lits[g] {
					n = append(n, g)
					changed = true
					continue
				}
			}
			n = append(n, h)
		}
		H = flattenAnd(n)
		if seqEquations(H, &goal) {
			changed = true
		}
		g := rewrite(goal)
		changed = changed || g != goal
		goal = g
		curFacts = nil
		if goal == True {
			return H, goal, true
		}
		for _, h := range H {
			if h == False || h == goal {
				return H, goal, true
			}
		}
		// conditions
		seen := map[*Term]bool{}
		var conds []*Term
		var apps []*Term
		visit := func(x *Term) {
			if x.Op == "ite" && x.Sort != SBool && !tried[x.Args[0]] {
				tried[x.Args[0]] = true
				conds = append(conds, x.Args[0])
			}
			if x.Op == "app" && x.Fn != nil && x.Fn.Body != nil {
				apps = append(apps, x)
			}
		}
		subterms(goal, seen, visit)
		for _, h := range H {
			if h.Op != "forall" {
				subterms(h, seen, visit)
			}
		}
		curFacts = f
		unf := map[*Term]*Term{}
		for _, a := range apps {
			m := map[*Term]*Term{}
			for i, p := range a.Fn.Params {
				m[p] = a.Args[i]
			}
			b := rewrite(Subst(a.Fn.Body, m))
			unf[a] = b
			if b.Op == "ite" && !tried[b.Args[0]] {
				tried[b.Args[0]] = true
				conds = append(conds, b.Args[0])
			}
		}
		curFacts = nil
		var lits []*Term
		for _, c := range conds {
			if s.budget <= 0 {
				break
			}
			s.budget--
			if s.quick(H, c) {
				lits = append(lits, c)
			} else if s.quick(H, Not(c)) {
				lits = append(lits, Not(c))
			}
		}
		if len(lits) > 0 {
			litsDecided = append(litsDecided, lits...)
			H = flattenAnd(append(H, lits...))
			changed = true
			f2 := newFacts(nil)
			for _, h := range H {
				f2.learn(h)
			}
			curFacts = f2
		} else {
			curFacts = f
		}
		// unfold what is decided
		m := map[*Term]*Term{}
		for a, b := range unf {
			if b.Op == "ite" {
				b = rewrite(b)
			}
			if b.Op != "ite" {
				m[a] = b
			}
		}
		curFacts = nil
		if len(m) > 0 {
			for i, h := range H {
				H[i] = Subst(h, m)
			}
			goal = Subst(goal, m)
			changed = true
		}
		if !changed {
			break
		}
	}
	_ = litsDecided
	if os.Getenv("GOCV_DEEP") != "" {
		fmt.Fprintf(os.Stderr, "DEEP goal %.3000s\n", pretty(goal))
		for _, h := range H {
			if hasRec(h) || os.Getenv("GOCV_DEEP") == "2" {
				fmt.Fprintf(os.Stderr, "  H %.3000s\n", pretty(h))
			}
		}
	}
	return H, goal, false
}

// equal sequences have equal elements: calls are replaced by what they are known to equal, and
// elements of one stretch by those of the other. Works under the current facts.
func seqEquations(H []*Term, goal **Term) bool {
	changed := false
	sub := func(skip int, m map[*Term]*Term) {
		for j, g := range H {
			if j != skip {
				if r := Subst(g, m); r != g && r != True {
					H[j] = r
					changed = true
				}
			}
		}
		if r := Subst(*goal, m); r != *goal {
			*goal = r
			changed = true
		}
	}
	for i := range H {
		h := H[i]
		if h.Op != "=" || h.Args[0].Sort != SSeq {
			continue
		}
		a, b := h.Args[0], h.Args[1]
		if b.Op == "app" && a.Op != "app" {
			a, b = b, a
		}
		if a.Op == "app" && (b.Op == "extract" || b.Op == "concat") && !occurs(a, b, map[*Term]bool{}) {
			sub(i, map[*Term]*Term{a: b})
			continue
		}
		if a.Op != "extract" || b.Op == "extract" && b.Args[0].id > a.Args[0].id {
			a, b = b, a
		}
		if a.Op != "extract" || b.Op == "extract" && b.Args[0] == a.Args[0] {
			continue
		}
		X, o, n := a.Args[0], a.Args[1], a.Args[2]
		if occurs(X, b, map[*Term]bool{}) {
			continue
		}
		m := map[*Term]*Term{}
		visit := func(t *Term) {
			if t.Op == "nth" && t.Args[0] == X {
				j := Sub(t.Args[1], o)
				if provable(j) && provable(Sub(Sub(n, j), Int(1))) {
					m[t] = Nth(b, j)
				}
			}
		}
		seen := map[*Term]bool{}
		for j, g := range H {
			if j != i {
				subterms(g, seen, visit)
			}
		}
		subterms(*goal, seen, visit)
		if len(m) > 0 {
			sub(i, m)
		}
	}
	return changed
}

func solverQuick(sv *Solver, ms int) func(h []*Term, g *Term) bool {
	return func(h []*Term, g *Term) bool {
		if g == True {
			return true
		}
		if g == False {
			return false
		}
		r, _ := sv.check(buildQuery(withoutRec(h), g, 0), ms, false)
		return r == "unsat"
	}
}
