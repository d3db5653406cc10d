package main

// Query construction and solver back ends.

import (
	"math/big"
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type RecFn struct {
	Name   string
	Params []*Term
	Ret    *Sort
	Rng    *Rng
	Body   *Term // nil while being defined / uninterpreted
	Decr   *Term
}

func Forall(body *Term, vs ...*Term) *Term {
	if body == True {
		return True
	}
	if e := expandForall(body, vs); e != nil {
		return e
	}
	return mk(&Term{Op: "forall", Args: append([]*Term{body}, vs...), Sort: SBool})
}

// a quantifier over a few known integers is a conjunction
func expandForall(body *Term, vs []*Term) *Term {
	if body.Op != "or" {
		return nil
	}
	type iv struct{ lo, hi *big.Int }
	in := map[*Term]*iv{}
	for _, v := range vs {
		if v.Sort != SInt {
			return nil
		}
		in[v] = &iv{}
	}
	var lits []linear
	for _, d := range body.Args {
		n := Not(d)
		ls := []*Term{n}
		if n.Op == "and" {
			ls = n.Args
		}
		for _, l := range ls {
			if l.Op == "<=" {
				lits = append(lits, lin(l.Args[0]))
			}
		}
	}
	for round := 0; round < 3; round++ {
		for _, l := range lits {
			for v, c := range l.at {
				i := in[v]
				if i == nil || (c.CmpAbs(big64(1)) != 0) {
					continue
				}
				// 0 <= c*v + rest: the greatest value of the rest
				hi := new(big.Int).Set(l.c)
				ok := true
				for w, d := range l.at {
					if w == v {
						continue
					}
					j := in[w]
					if j == nil {
						ok = false
						break
					}
					b := j.hi
					if d.Sign() < 0 {
						b = j.lo
					}
					if b == nil {
						ok = false
						break
					}
					hi.Add(hi, new(big.Int).Mul(d, b))
				}
				if !ok {
					continue
				}
				if c.Sign() > 0 {
					lo := new(big.Int).Neg(hi)
					if i.lo == nil || lo.Cmp(i.lo) > 0 {
						i.lo = lo
					}
				} else if i.hi == nil || hi.Cmp(i.hi) < 0 {
					i.hi = hi
				}
			}
		}
	}
	n := int64(1)
	for _, v := range vs {
		i := in[v]
		if i.lo == nil || i.hi == nil {
			return nil
		}
		w := new(big.Int).Sub(i.hi, i.lo)
		w.Add(w, big64(1))
		if w.Sign() <= 0 {
			return True
		}
		if w.Cmp(big64(16)) > 0 {
			return nil
		}
		if n *= w.Int64(); n > 16 {
			return nil
		}
	}
	out := []*Term{body}
	for _, v := range vs {
		var next []*Term
		for k := new(big.Int).Set(in[v].lo); k.Cmp(in[v].hi) <= 0; k = new(big.Int).Add(k, big64(1)) {
			for _, b := range out {
				next = append(next, Subst(b, map[*Term]*Term{v: BigT(k)}))
			}
		}
		out = next
	}
	return And(out...)
}

// nnf pushes negation inside and skolemises existential quantifiers.
func nnf(t *Term, pos bool) *Term { return nnfU(t, pos, nil) }

func nnfU(t *Term, pos bool, univ []*Term) *Term {
	switch t.Op {
	case "not":
		return nnfU(t.Args[0], !pos, univ)
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = nnfU(a, pos, univ)
		}
		if (t.Op == "and") == pos {
			return And(as...)
		}
		return Or(as...)
	case "forall":
		if pos {
			u := append(append([]*Term{}, univ...), t.Args[1:]...)
			return mk(&Term{Op: "forall", Args: append([]*Term{nnfU(t.Args[0], true, u)}, t.Args[1:]...), Sort: SBool})
		}
		m := map[*Term]*Term{}
		for _, v := range t.Args[1:] {
			sk := FreshVar("sk_"+v.Name, v.Sort, v.Rng)
			if len(univ) > 0 {
				// the witness depends on the universal variables around it
				sk = App("sk:"+sk.Name, v.Sort, v.Rng, univ...)
			}
			m[v] = sk
		}
		return nnfU(Subst(t.Args[0], m), false, univ)
	case "=":
		if t.Args[0].Sort == SBool && (hasForall(t.Args[0]) || hasForall(t.Args[1])) {
			a, b := t.Args[0], t.Args[1]
			return nnfU(And(Or(Not(a), b), Or(Not(b), a)), pos, univ)
		}
	case "ite":
		if t.Sort == SBool && hasForall(t) {
			return nnfU(And(Or(Not(t.Args[0]), t.Args[1]), Or(t.Args[0], t.Args[2])), pos, univ)
		}
	}
	if pos {
		return t
	}
	return Not(t)
}

var hfMemo = map[*Term]bool{}

func hasForall(t *Term) bool {
	if t.Op == "forall" {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if r, ok := hfMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.Args {
		if hasForall(a) {
			r = true
			break
		}
	}
	hfMemo[t] = r
	return r
}

func rootKey(a *Term) string {
	switch a.Op {
	case "var":
		if i := strings.IndexByte(a.Name, '@'); i >= 0 {
			return a.Name[:i]
		}
		if i := strings.IndexByte(a.Name, '!'); i >= 0 {
			return a.Name[:i]
		}
		return a.Name
	case "store":
		return rootKey(a.Args[0])
	case "select":
		return "s(" + rootKey(a.Args[0]) + ")"
	case "ite":
		return rootKey(a.Args[1])
	case "concat":
		return rootKey(a.Args[0])
	case "extract":
		return rootKey(a.Args[0])
	}
	return a.Op + a.Name
}

type qform struct {
	body *Term // matrix, with bound variables
	vars []*Term
}

// split hypothesis into ground part or prenexed universal
func prenex(t *Term) []qform {
	switch t.Op {
	case "and":
		var r []qform
		for _, a := range t.Args {
			r = append(r, prenex(a)...)
		}
		return r
	case "forall":
		var r []qform
		for _, q := range prenex(t.Args[0]) {
			r = append(r, qform{q.body, append(append([]*Term{}, t.Args[1:]...), q.vars...)})
		}
		return r
	case "or":
		if !hasForall(t) {
			return []qform{{t, nil}}
		}
		// distribute: or(A, forall x B) = forall x' or(A,B)
		acc := []qform{{False, nil}}
		for _, a := range t.Args {
			var n []qform
			for _, q := range prenex(a) {
				m := map[*Term]*Term{}
				var vs []*Term
				for _, v := range q.vars {
					nv := FreshVar("q_"+strings.SplitN(v.Name, "!", 2)[0], v.Sort, v.Rng)
					m[v] = nv
					vs = append(vs, nv)
				}
				b := q.body
				if len(m) > 0 {
					b = Subst(b, m)
				}
				for _, p := range acc {
					n = append(n, qform{Or(p.body, b), append(append([]*Term{}, p.vars...), vs...)})
				}
			}
			acc = n
		}
		return acc
	}
	return []qform{{t, nil}}
}

func subterms(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		subterms(a, seen, f)
	}
	f(t)
}

// nesting of Skolem functions: chains of them are not followed further
var skMemo = map[*Term]int{}

func skDepth(t *Term) int {
	if d, ok := skMemo[t]; ok {
		return d
	}
	d := 0
	for _, a := range t.Args {
		if n := skDepth(a); n > d {
			d = n
		}
	}
	if t.Op == "app" && strings.HasPrefix(t.Name, "sk:") {
		d++
	}
	skMemo[t] = d
	return d
}

var canonVars = map[string]*Term{}

func canonVar(i int, v *Term) *Term {
	k := fmt.Sprintf("canon%d:%p", i, v.Sort)
	if v.Rng != nil {
		k += fmt.Sprintf(":%v:%v", v.Rng.Lo, v.Rng.Hi)
	}
	if canonVars[k] == nil {
		canonVars[k] = FreshVar(k, v.Sort, v.Rng)
	}
	return canonVars[k]
}

func mentionsAny(t *Term, vs []*Term) bool {
	m := map[*Term]bool{}
	for _, v := range vs {
		m[v] = true
	}
	return mentions(t, m)
}

type Query struct {
	Text  string
	Vars  []*Term // free variables, for model extraction
	Quant bool
}

func buildQuery(hyps []*Term, goal *Term, depth int) *Query {
	saved := curFacts
	curFacts = nil
	defer func() { curFacts = saved }()
	var ground []*Term
	var qs []qform
	idwf := map[*Term][]*Term{}
	addT := func(t *Term) {
		if t.Op == "app" && t.Name == "idwf" {
			idwf[t.Args[0]] = append(idwf[t.Args[0]], t.Args[1])
			return
		}
		for _, q := range prenex(nnf(t, true)) {
			if len(q.vars) == 0 {
				if q.body != True {
					ground = append(ground, q.body)
				}
			} else {
				qs = append(qs, q)
			}
		}
	}
	hyps, goal = simplifyQuery(hyps, goal)
	queryFacts := curFacts
	curFacts = nil
	for _, h := range hyps {
		addT(h)
	}
	for _, q := range prenex(nnf(goal, false)) {
		if len(q.vars) == 0 {
			ground = append(ground, q.body)
		} else {
			qs = append(qs, q)
		}
	}
	seen := map[*Term]bool{}
	idx := map[string][]*Term{} // index terms by rootKey
	idxSeen := map[string]bool{}
	var apps []*Term
	var leaves []*Term
	visit := func(t *Term) {
		subterms(t, seen, func(x *Term) {
			switch x.Op {
			case "select", "nth":
				k := rootKey(x.Args[0])
				s := fmt.Sprintf("%s#%d", k, x.Args[1].id)
				if !idxSeen[s] {
					idxSeen[s] = true
					idx[k] = append(idx[k], x.Args[1])
				}
			case "store":
				k := rootKey(x.Args[0])
				s := fmt.Sprintf("%s#%d", k, x.Args[1].id)
				if !idxSeen[s] {
					idxSeen[s] = true
					idx[k] = append(idx[k], x.Args[1])
				}
			case "app":
				if x.Fn != nil && x.Fn.Body != nil {
					apps = append(apps, x)
				}
				for i, a := range x.Args {
					if a.Sort == SInt {
						k := fmt.Sprintf("app:%s:%d", x.Name, i)
						s := fmt.Sprintf("%s#%d", k, a.id)
						if !idxSeen[s] {
							idxSeen[s] = true
							idx[k] = append(idx[k], a)
						}
					}
				}
			}
			leaves = append(leaves, x)
		})
	}
	for _, g := range ground {
		visit(g)
	}
	// the same universal over other names is not needed twice
	{
		var u []qform
		seenQ := map[*Term]bool{}
		for _, q := range qs {
			m := map[*Term]*Term{}
			for i, v := range q.vars {
				m[v] = canonVar(i, v)
			}
			if b := Subst(q.body, m); !seenQ[b] {
				seenQ[b] = true
				u = append(u, q)
			}
		}
		qs = u
	}
	// instantiate universals
	inst := map[string]bool{}
	unfolded := map[*Term]bool{}
	total := 0
	doQuant := func() bool {
		changed := false
		for qi, q := range qs {
			quota := 600
			// candidate terms per variable
			cands := make([][]*Term, len(q.vars))
			for vi, v := range q.vars {
				keys := map[string]bool{}
				shift := map[string][]*Term{} // places indexed by the variable plus something
				subterms(q.body, map[*Term]bool{}, func(x *Term) {
					if (x.Op == "select" || x.Op == "nth") && x.Args[1] == v {
						keys[rootKey(x.Args[0])] = true
					} else if (x.Op == "select" || x.Op == "nth") && x.Args[1].Op == "+" && v.Sort == SInt {
						if d := Sub(x.Args[1], v); !mentionsAny(d, q.vars) {
							k := rootKey(x.Args[0])
							shift[k] = append(shift[k], d)
						}
					}
					if x.Op == "app" {
						for i, a := range x.Args {
							if a == v {
								keys[fmt.Sprintf("app:%s:%d", x.Name, i)] = true
							}
						}
					}
				})
				ts := map[*Term]bool{}
				addC := func(t *Term) {
					if !ts[t] && skDepth(t) < 2 {
						ts[t] = true
						cands[vi] = append(cands[vi], t)
					}
				}
				for _, k := range sortedKeys(keys) {
					for _, t := range idx[k] {
						addC(t)
					}
				}
				for _, k := range sortedKeys(shift) {
					for _, d := range shift[k] {
						for _, t := range idx[k] {
							addC(Sub(t, d))
						}
					}
				}
			}
			emit := func(m map[*Term]*Term, key string) {
				k := fmt.Sprintf("%d:%s", qi, key)
				if inst[k] {
					return
				}
				inst[k] = true
				b := Subst(q.body, m)
				if b == True {
					return
				}
				total++
				quota--
				changed = true
				ground = append(ground, b)
				visit(b)
			}
			// tuples in order of their largest place; the goal's terms come first
			var rec func(i, top int, hit bool, m map[*Term]*Term, key string)
			rec = func(i, top int, hit bool, m map[*Term]*Term, key string) {
				if total > 4000 || quota <= 0 {
					return
				}
				if i == len(q.vars) {
					if hit {
						emit(m, key)
					}
					return
				}
				for n, t := range cands[i] {
					if n > top {
						break
					}
					m[q.vars[i]] = t
					rec(i+1, top, hit || n == top, m, key+fmt.Sprintf("%d,", t.id))
				}
				delete(m, q.vars[i])
			}
			most := 0
			for _, c := range cands {
				if len(c) > most {
					most = len(c)
				}
			}
			if len(q.vars) == 1 {
				rec1 := map[*Term]*Term{}
				for _, t := range cands[0] {
					if total > 4000 {
						break
					}
					rec1[q.vars[0]] = t
					emit(rec1, fmt.Sprintf("%d,", t.id))
				}
				continue
			}
			for top := 0; top < most; top++ {
				rec(0, top, false, map[*Term]*Term{}, "")
			}
		}
		return changed
	}
	for round := 0; round < 3 && len(qs) > 0; round++ {
		if !doQuant() {
			break
		}
	}
	for d := 0; d < depth; d++ {
		todo := apps
		apps = nil
		for _, a := range todo {
			if unfolded[a] {
				continue
			}
			unfolded[a] = true
			m := map[*Term]*Term{}
			for i, p := range a.Fn.Params {
				m[p] = a.Args[i]
			}
			curFacts = queryFacts
			ax := eqRaw(a, rewrite(Subst(a.Fn.Body, m)))
			curFacts = nil
			if ax != True {
				ground = append(ground, ax)
				visit(ax)
			}
		}
		if len(qs) > 0 {
			doQuant()
		}
	}
	if os.Getenv("GOCV_DEBUGI") != "" {
		fmt.Fprintf(os.Stderr, "I instances=%d quantified=%d goal=%.80s\n", total, len(qs), goal.String())
		for _, q := range qs {
			fmt.Fprintf(os.Stderr, "I   %v %.300s\n", q.vars, q.body.String())
		}
	}
	// zeros / flat axioms and typing facts
	var ax []*Term
	addAx := func(t *Term) {
		if t != True {
			ax = append(ax, t)
			subterms(t, seen, func(x *Term) { leaves = append(leaves, x) })
		}
	}
	done := 0
	for done < len(leaves) {
		x := leaves[done]
		done++
		switch {
		case x.Op == "app" && x.Name == "zeros":
			n := x.Args[0]
			addAx(rawImp(Ge0(n), rawEq(mk(&Term{Op: "len", Args: []*Term{x}, Sort: SInt}), n)))
		case x.Op == "app" && x.Name == "flat":
			// unfold last element when the argument is a one-longer prefix
		case x.Op == "nth" && x.Sort == SInt && x.Args[0].Op == "app" && x.Args[0].Name == "zeros":
			addAx(rawImp(And(Ge0(x.Args[1]), Lt(x.Args[1], x.Args[0].Args[0])), rawEq(x, Int(0))))
		}
		if x.Sort == SInt && (x.Op == "var" || x.Op == "nth" || x.Op == "select" || x.Op == "app") {
			r := bounds(x)
			if r.Lo != nil {
				addAx(rawLe(BigT(r.Lo), x))
			}
			if r.Hi != nil {
				addAx(rawLe(x, BigT(r.Hi)))
			} else if x.Op == "select" && x.Args[0].Op == "var" && x.Args[0].Rng != nil && idRngs[x.Args[0].Rng] && x.Args[1].Sort == SInt {
				// an object from before the bound holds objects from before the bound
				hi := BigT(x.Args[0].Rng.Hi)
				addAx(rawImp(rawLe(x.Args[1], hi), rawLe(x, hi)))
			}
			if x.Op == "select" {
				a := x
				if a.Args[0].Op == "select" {
					a = a.Args[0]
				}
				for _, n := range idwf[a.Args[0]] {
					addAx(rawImp(Lt(a.Args[1], n), Lt(x, n)))
				}
			}
		}
		if x.Op == "len" {
			addAx(rawLe(x, BigT(maxLen)))
		}
	}
	// declarations
	var b strings.Builder
	var vars []*Term
	decl := map[string]bool{}
	all := append(append([]*Term{}, ground...), ax...)
	s2 := map[*Term]bool{}
	for _, t := range all {
		subterms(t, s2, func(x *Term) {
			if x.Op == "var" && !decl[x.Name] {
				decl[x.Name] = true
				vars = append(vars, x)
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", smtName(x.Name), x.Sort.Name)
			}
			if x.Op == "app" && !decl["f:"+x.Name] {
				decl["f:"+x.Name] = true
				b.WriteString("(declare-fun " + smtName(x.Name) + " (")
				for i, a := range x.Args {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(a.Sort.Name)
				}
				b.WriteString(") " + x.Sort.Name + ")\n")
			}
		})
	}
	// shared subterms via define-fun for DAG size
	cnt := map[*Term]int{}
	var count func(t *Term)
	count = func(t *Term) {
		cnt[t]++
		if cnt[t] > 1 {
			return
		}
		for _, a := range t.Args {
			count(a)
		}
	}
	for _, t := range all {
		count(t)
	}
	names := map[*Term]string{}
	nn := 0
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if n, ok := names[t]; ok {
			return n
		}
		s := t.render(pr)
		if cnt[t] > 1 && len(s) > 40 && t.Op != "var" {
			nn++
			n := fmt.Sprintf("def!!%d", nn)
			fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, t.Sort.Name, s)
			names[t] = n
			return n
		}
		return s
	}
	for _, t := range all {
		s := pr(t)
		b.WriteString("(assert " + s + ")\n")
	}
	return &Query{Text: b.String(), Vars: vars, Quant: len(qs) > 0}
}

// rebuild t from its leaves under the current facts
func rewrite(t *Term) *Term {
	memo := map[*Term]*Term{}
	var f func(*Term) *Term
	f = func(t *Term) *Term {
		if t.Sort == SBool && curFacts != nil && t.Op != "true" && t.Op != "false" {
			if curFacts.known(t) {
				return True
			}
			if knownFalse(t) {
				return False
			}
		}
		if len(t.Args) == 0 || t.Op == "forall" {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = f(a)
		}
		r := rebuild(t, as)
		memo[t] = r
		return r
	}
	return f(t)
}

// hypotheses and goal rewritten with what the hypotheses decide. Every rewritten formula
// follows from (hyps and not goal), so an unsatisfiable result is one for the original too.
// Leaves curFacts set to the facts used.
func simplifyQuery(hyps []*Term, goal *Term) ([]*Term, *Term) {
	f := newFacts(nil)
	for _, h := range hyps {
		f.learn(h)
	}
	curFacts = f
	var out []*Term
	var add func(h *Term)
	add = func(h *Term) {
		switch h.Op {
		case "and":
			for _, a := range h.Args {
				add(a)
			}
			return
		case "or", "ite":
			delete(f.lits, h)
			r := rewrite(h)
			f.lits[h] = true
			if r == True {
				r = h
			}
			out = append(out, r)
			return
		case "=":
			a, b := rewrite(h.Args[0]), rewrite(h.Args[1])
			if a != h.Args[0] || b != h.Args[1] {
				curFacts = nil
				out = append(out, Eq(a, b))
				curFacts = f
				return
			}
		}
		out = append(out, h)
	}
	for _, h := range hyps {
		add(h)
	}
	return out, rewrite(goal)
}

func rawEq(a, b *Term) *Term {
	if a == b {
		return True
	}
	return mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}
func eqRaw(a, b *Term) *Term { return rawEq(a, b) }
func rawLe(a, b *Term) *Term {
	return mk(&Term{Op: "<=", Args: []*Term{Sub(b, a)}, Sort: SBool})
}
func rawImp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if b == True || a == False {
		return True
	}
	return mk(&Term{Op: "or", Args: []*Term{mk(&Term{Op: "not", Args: []*Term{a}, Sort: SBool}), b}, Sort: SBool})
}

// ---- solver processes

type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	name string
	args []string
}

func startSolver(name string, args ...string) *Solver {
	s := &Solver{name: name, args: args}
	s.start()
	return s
}
func (s *Solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver: %v", err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<20)
	if err := s.cmd.Start(); err != nil {
		fatal("solver %s: %v", s.name, err)
	}
}
func (s *Solver) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.cmd = nil
}

const endMark = "##end##"

// run a query; returns unsat / sat / unknown and, when sat, the raw model values
func (s *Solver) check(q *Query, ms int, model bool) (string, string) {
	if s.cmd == nil {
		s.start()
	}
	var b strings.Builder
	b.WriteString("(reset)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n", ms)
	if model {
		b.WriteString("(set-option :model.completion true)\n")
	}
	b.WriteString(q.Text)
	b.WriteString("(check-sat)\n(echo \"" + endMark + "\")\n")
	res, err := s.talk(b.String(), time.Duration(ms+2000)*time.Millisecond)
	if err != nil {
		s.stop()
		return "unknown", "solver: " + err.Error()
	}
	r := ""
	for _, l := range strings.Split(res, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			return "error", res
		}
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			r = l
		}
	}
	if r == "timeout" || r == "" {
		r = "unknown"
	}
	if r != "sat" || !model {
		return r, ""
	}
	mod, err := s.talk("(get-model)\n(echo \""+endMark+"\")\n", 3*time.Second)
	if err != nil {
		s.stop()
		return r, ""
	}
	return r, mod
}
func (s *Solver) talk(text string, to time.Duration) (string, error) {
	type res struct {
		s string
		e error
	}
	ch := make(chan res, 1)
	out := s.out
	in := s.in
	go func() {
		if _, err := io.WriteString(in, text); err != nil {
			ch <- res{"", err}
			return
		}
		var b strings.Builder
		for {
			l, err := out.ReadString('\n')
			if err != nil {
				ch <- res{b.String(), err}
				return
			}
			if strings.Contains(l, endMark) {
				break
			}
			b.WriteString(l)
		}
		ch <- res{b.String(), nil}
	}()
	select {
	case r := <-ch:
		return r.s, r.e
	case <-time.After(to):
		return "", fmt.Errorf("no answer within %v", to)
	}
}

func oneShot(bin string, args []string, q *Query, ms int, logic string) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+500)*time.Millisecond)
	defer cancel()
	f, err := os.CreateTemp("", "gocv*.smt2")
	if err != nil {
		return "unknown"
	}
	defer os.Remove(f.Name())
	f.WriteString(logic + q.Text + "(check-sat)\n")
	f.Close()
	out, _ := exec.CommandContext(ctx, bin, append(args, f.Name())...).Output()
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" {
			return l
		}
	}
	return "unknown"
}

type Stats struct {
	mu       sync.Mutex
	ByBack   map[string]int
	Time     time.Duration
	Queries  int
	PathQ    int
	PathTime time.Duration
}

var stats = Stats{ByBack: map[string]int{}}

var mainSolver *Solver

// prove: synchronous, used while exploring (pruning, Houdini)
func quickProve(hyps []*Term, goal *Term, ms int) bool {
	if goal == True {
		return true
	}
	for _, h := range hyps {
		if h == False || h == goal {
			return true
		}
	}
	if mainSolver == nil {
		mainSolver = startSolver("z3-new", "-in", "-smt2")
	}
	depth := 2
	if goal == False {
		// feasibility: a superset of the states is fine
		hyps, depth = withoutRec(hyps), 0
	}
	q := buildQuery(hyps, goal, depth)
	t0 := time.Now()
	r, msg := mainSolver.check(q, ms, false)
	stats.PathQ++
	stats.PathTime += time.Since(t0)
	if os.Getenv("GOCV_DEBUGQ") != "" {
		fmt.Fprintf(os.Stderr, "Q %s %v goal=%.200s\n", r, time.Since(t0), goal.String())
	}
	if d := os.Getenv("GOCV_DUMPQ"); d != "" && r != "unsat" && strings.Contains(goal.String(), d) {
		os.WriteFile(fmt.Sprintf("/tmp/q/%d.smt2", stats.PathQ), []byte(func() string { s := ""; for _, h := range flattenAnd(hyps) { s += "; H " + pretty(h) + "\n" }; return s + "; G " + pretty(goal) + "\n" }()+q.Text+"(check-sat)\n"), 0o644)
	}
	if r == "error" {
		os.WriteFile("/tmp/gocv_err.smt2", []byte(q.Text), 0o644)
		fatal("solver error: %s", msg)
	}
	if r != "unsat" && hasRec(goal) {
		sm := &simp{quick: solverQuick(mainSolver, 300), budget: 24}
		h2, g2, ok := sm.run(hyps, goal)
		if ok {
			return true
		}
		r, _ = mainSolver.check(buildQuery(h2, g2, 1), ms, false)
	}
	return r == "unsat"
}

type proofResult struct {
	OK      bool
	Backend string
	Verdict string
	Model   string
	Time    time.Duration
	Text    string
}

// discharge with a worker's solver, falling back to other back ends
func discharge(s *Solver, q *Query, ms int, thorough bool) proofResult {
	t0 := time.Now()
	r, mod := s.check(q, ms, true)
	res := proofResult{Backend: "z3-5.3.2", Verdict: r, Model: mod, Text: q.Text}
	if r == "error" {
		os.WriteFile("/tmp/gocv_err.smt2", []byte(q.Text), 0o644)
		fatal("solver error: %s", mod)
	}
	if r == "unsat" {
		res.OK = true
	} else if r != "sat" {
		if x := oneShot("z3", []string{"-smt2", fmt.Sprintf("-T:%d", ms/1000+1)}, q, ms, ""); x == "unsat" {
			res = proofResult{OK: true, Backend: "z3-4.8.12", Verdict: x}
		} else if x := oneShot("cvc5", []string{"--strings-exp", fmt.Sprintf("--tlimit=%d", ms)}, q, ms, "(set-logic ALL)\n"); x == "unsat" {
			res = proofResult{OK: true, Backend: "cvc5-1.1.2", Verdict: x}
		}
	}
	res.Time = time.Since(t0)
	if !res.OK && os.Getenv("GOCV_DUMPFAIL") != "" {
		f, err := os.CreateTemp("/tmp/q", "fail*.smt2")
		if err == nil {
			f.WriteString(q.Text + "(check-sat)\n")
			f.Close()
		}
	}
	return res
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gocv: "+f+"\n", a...)
	os.Exit(3)
}
