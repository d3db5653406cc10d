package main

// gocv: a contract verifier for Go, working on the SSA form of the real source.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var repoDir, specDir, overlayFile string
var solverMS int
var thorough bool

// the property being decided: obligations that only matter to others are left to their checks
var checkProp string

func (o *Obl) relevant() bool {
	if checkProp == "" {
		return true
	}
	if checkProp == "C14" {
		return o.Kind == "lock"
	}
	if o.Kind == "lock" {
		return false
	}
	// nothing else rests on what is shown about single steps
	return o.Kind != "step" || len(o.Props) == 0 || has(o.Props, checkProp)
}

type OblRes struct {
	Kind, Label, Pos string
	Props            []string `json:",omitempty"`
	OK               bool
	Backend          string
	Verdict          string            `json:",omitempty"`
	MS               float64           `json:",omitempty"`
	Goal             string            `json:",omitempty"`
	Model            string            `json:",omitempty"`
	Inputs           map[string]string `json:",omitempty"`
	Trail            []string          `json:",omitempty"`
	SMT              string            `json:",omitempty"`
}
type UnitRes struct {
	Unit    string
	Obls    []OblRes
	Unsup   []string
	Callees []string
	Inlined []string
	Std     []string
	Lemmas  []string
	Vacuous string
	Exits   int
	Paths   int
	PathQ   int
	PathMS  float64
	WallMS  float64
	Pos     string
}

var baseTable map[string]*Term
var baseID int

func resetTerms() {
	if baseTable == nil {
		baseTable = map[string]*Term{}
		for k, v := range table {
			baseTable[k] = v
		}
		baseID = nextID
	}
	table = map[string]*Term{}
	for k, v := range baseTable {
		table[k] = v
	}
	nextID = baseID
	varCount = map[string]int{}
	for k := range globalIDs {
		delete(globalIDs, k)
	}
	for k := range tagIDs {
		delete(tagIDs, k)
	}
	for k := range tagTypes {
		delete(tagTypes, k)
	}
	for k := range strIDs {
		delete(strIDs, k)
	}
	for k := range strVals {
		delete(strVals, k)
	}
	for k := range funcIDs {
		delete(funcIDs, k)
	}
	for k := range funcByID {
		delete(funcByID, k)
	}
	hfMemo = map[*Term]bool{}
	skMemo = map[*Term]int{}
	canonVars = map[string]*Term{}
	chanElem = map[*Term]string{}
	curFacts = nil
	if mainSolver != nil {
		mainSolver.stop()
		mainSolver = nil
	}
}

func (p *Program) fnFor(key string) string {
	if i := strings.IndexByte(key, '@'); i >= 0 {
		return key[:i]
	}
	return key
}

// pkg.Variable.Method: the method its declared type gives it
func (p *Program) globalMethod(key string) (*ssa.Function, *ssa.Global) {
	f := strings.Split(key, ".")
	if len(f) != 3 {
		return nil, nil
	}
	for path, pkg := range p.Pkgs {
		if shortPkg(path) != f[0] {
			continue
		}
		var t types.Type
		g, ok := pkg.Members[f[1]].(*ssa.Global)
		if ok {
			t = g.Type().(*types.Pointer).Elem()
			if types.IsInterface(t) {
				// the type of the value the initialiser gives it
				t = nil
				n := 0
				for _, fn := range p.All {
					for _, b := range fn.Blocks {
						for _, in := range b.Instrs {
							if s, ok := in.(*ssa.Store); ok && s.Addr == g {
								n++
								if m, ok := s.Val.(*ssa.MakeInterface); ok && fn.Name() == "init" && fn.Synthetic != "" {
									t = m.X.Type()
								}
							}
						}
					}
				}
				if n != 1 || t == nil {
					continue
				}
			}
		} else if ty, ok := pkg.Members[f[1]].(*ssa.Type); ok {
			// a method promoted from an embedded field
			t = types.NewPointer(ty.Type())
		} else {
			continue
		}
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == f[2] {
				if fn := p.Prog.MethodValue(ms.At(i)); fn != nil && len(fn.Blocks) > 0 {
					return fn, g
				}
			}
		}
	}
	return nil, nil
}

type firstTry struct {
	verdict, model string
	ms             float64
}

// decided without a solver
func trivially(o *Obl) bool {
	if o.Done {
		return true
	}
	for _, h := range o.Hyps {
		if h == False || h == o.Goal {
			return true
		}
	}
	return false
}

// a short attempt at an obligation
func firstAttempt(sv *Solver, o *Obl, dep int) firstTry {
	t := time.Now()
	v, m := sv.check(buildQuery(o.Hyps, o.Goal, dep), 700, true)
	return firstTry{v, m, float64(time.Since(t).Microseconds()) / 1000}
}

func proveObl(sv *Solver, o *Obl, dep int, first firstTry, labelFailed, few bool) (r OblRes) {
	r = OblRes{Kind: o.Kind, Label: o.Label, Pos: o.Pos, Props: o.Props}
	var pr proofResult
	// a short attempt, a simplified one, then all back ends
	t1 := time.Now()
	if f := first; f.verdict == "unsat" {
		r.OK, r.Backend, r.Verdict, r.MS = true, "z3-5.3.2", "unsat", f.ms
		return
	}
	q0 := buildQuery(o.Hyps, o.Goal, dep)
	if os.Getenv("GOCV_HYPS") != "" {
		fmt.Fprintf(os.Stderr, "OBL %s\n  G %s\n", o.Label, pretty(o.Goal))
		for _, h := range flattenAnd(o.Hyps) {
			fmt.Fprintf(os.Stderr, "  H %s\n", pretty(h))
		}
		hh, gg := simplifyQuery(o.Hyps, o.Goal)
		fmt.Fprintf(os.Stderr, "  G' %s\n", pretty(gg))
		for _, h := range hh {
			fmt.Fprintf(os.Stderr, "  H' %s\n", pretty(h))
		}
		curFacts = nil
	}
	if v, m := first.verdict, first.model; v == "error" {
		fatal("solver error: %s", m)
	} else if v == "sat" && !strings.Contains(q0.Text, "r:") && !strings.Contains(q0.Text, "seq.") && !q0.Quant {
		pr = proofResult{Backend: "z3-5.3.2", Verdict: v, Model: m, Text: q0.Text}
	} else if labelFailed {
		pr = proofResult{Backend: "z3-5.3.2", Verdict: "unknown", Text: q0.Text}
	} else {
		sm := &simp{quick: solverQuick(sv, 250), budget: 60}
		h2, g2, ok := sm.run(o.Hyps, o.Goal)
		if ok {
			pr = proofResult{OK: true, Backend: "rewriting and z3-5.3.2", Verdict: "unsat"}
		} else if v2, _ := sv.check(buildQuery(h2, g2, 1), 2500, false); v2 == "unsat" {
			pr = proofResult{OK: true, Backend: "z3-5.3.2", Verdict: v2}
		} else if len(o.Cases) > 0 && byCases(sv, o.Hyps, o.Goal, o.Cases) {
			pr = proofResult{OK: true, Backend: "case distinction and z3-5.3.2", Verdict: "unsat"}
		} else if few {
			pr = proofResult{Backend: "z3-5.3.2", Verdict: "unknown", Text: q0.Text}
		} else {
			for d := dep; ; d += 2 {
				q := buildQuery(o.Hyps, o.Goal, d)
				pr = discharge(sv, q, solverMS/2, thorough)
				if pr.OK || d >= dep+2 {
					break
				}
				if !strings.Contains(q.Text, "r:") && pr.Verdict == "sat" {
					break
				}
			}
			if !pr.OK {
				if p2 := discharge(sv, buildQuery(h2, g2, 1), solverMS/2, thorough); p2.OK {
					pr = p2
				}
			}
		}
	}
	if pr.Time == 0 {
		pr.Time = time.Since(t1)
	}
	r.OK, r.Backend, r.Verdict, r.MS = pr.OK, pr.Backend, pr.Verdict, float64(pr.Time.Microseconds())/1000
	if !pr.OK {
		r.Goal = o.Goal.String()
		if len(r.Goal) > 3000 {
			r.Goal = r.Goal[:3000] + "..."
		}
		r.Trail = o.Trail
		r.Model = pr.Model
		if len(r.Model) > 20000 {
			r.Model = r.Model[:20000]
		}
		r.SMT = pr.Text
		if len(r.SMT) > 200000 {
			r.SMT = r.SMT[:200000]
		}
		r.Inputs = modelInputs(pr.Model, o.Inputs)
	}
	return
}

// the obligation in each case of the given conditions
func byCases(sv *Solver, hyps []*Term, goal *Term, cases []*Term) bool {
	if len(cases) == 0 {
		var h []*Term
		var g *Term
		v := ""
		for _, b := range []int{0, 40} {
			sm := &simp{quick: solverQuick(sv, 250), budget: b}
			ok := false
			h, g, ok = sm.run(hyps, goal)
			if ok {
				return true
			}
			v, _ = sv.check(buildQuery(h, g, 1), 1500+b*100, false)
			if v == "unsat" {
				return true
			}
		}
		if v != "unsat" && os.Getenv("GOCV_CASES") != "" {
			fmt.Fprintf(os.Stderr, "CASE not settled (%s)\n  G %s\n", v, pretty(g))
			for _, x := range h {
				fmt.Fprintf(os.Stderr, "  H %.4000s\n", pretty(x))
			}
		}
		return v == "unsat"
	}
	q := solverQuick(sv, 250)
	c := cases[0]
	if q(hyps, c) {
		return byCases(sv, append(hyps[:len(hyps):len(hyps)], c), goal, cases[1:])
	}
	if q(hyps, Not(c)) {
		return byCases(sv, append(hyps[:len(hyps):len(hyps)], Not(c)), goal, cases[1:])
	}
	return byCases(sv, append(hyps[:len(hyps):len(hyps)], c), goal, cases[1:]) &&
		byCases(sv, append(hyps[:len(hyps):len(hyps)], Not(c)), goal, cases[1:])
}

// A loop counter may run from 0 where the contract was written for one that runs from -1 (a
// range loop), or the other way round: when something is not discharged, counters off by one
// are tried as well.
func runUnit(p *Program, s *Specs, unit string) UnitRes {
	bad := func(r UnitRes) (n int) {
		for _, o := range r.Obls {
			if !o.OK {
				n++
			}
		}
		return
	}
	r := runUnit1(p, s, unit, false)
	if n := bad(r); n > 0 && r.WallMS < 150000 && strings.HasPrefix(unit, "func ") {
		counters := false
		for _, c := range s.funcs[unit[5:]].Invs {
			for _, v := range c.Vars {
				counters = counters || v.Type == "int"
			}
		}
		if counters {
			if r2 := runUnit1(p, s, unit, true); bad(r2) < n && len(r2.Unsup) <= len(r.Unsup) && r2.Vacuous == r.Vacuous {
				r2.WallMS += r.WallMS
				return r2
			}
		}
	}
	return r
}

func runUnit1(p *Program, s *Specs, unit string, wide bool) (res UnitRes) {
	resetTerms()
	t0 := time.Now()
	q0, pt0 := stats.PathQ, stats.PathTime
	res.Unit = unit
	x := newExec(p, s)
	x.name = strings.TrimPrefix(unit, "func ")
	x.wide = wide
	recs := x.defineRecs()
	dep := 2
	defer func() {
		if r := recover(); r != nil {
			res.Unsup = append(res.Unsup, fmt.Sprintf("verifier: %v", r))
			if os.Getenv("GOCV_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
			}
		}
	}()
	switch {
	case unit == "recs":
		x.obls = recs
		x.reqOK = true
		x.exits = 1
		x.guard(func() { x.invMono() })
	case strings.HasPrefix(unit, "lemma "):
		l := s.lemmas[unit[6:]]
		dep = l.Depth
		x.guard(func() { x.proveLemma(l) })
	default:
		key := unit[5:]
		con := s.funcs[key]
		fn := p.Funcs[p.fnFor(key)]
		if fn == nil {
			// a method called on a package variable
			fn, x.onGlobal = p.globalMethod(p.fnFor(key))
		}
		if fn == nil {
			res.Unsup = append(res.Unsup, "function "+p.fnFor(key)+" does not exist")
			return
		}
		res.Pos = x.pos(fn.Pos())
		var icon *Contract
		if con.Impl != "" {
			icon = s.ifaces[con.Impl]
			if icon == nil {
				fatal("%s: no interface contract %s", key, con.Impl)
			}
		}
		x.guard(func() { x.verify(fn, con, icon) })
	}
	con := x.con
	// what the contract promises about loops must have been exercised
	if con != nil && len(x.unsup) == 0 {
		var all []*Clause
		all = append(all, con.Steps...)
		for _, c := range all {
			if x.steps[c.Label] == 0 {
				x.obls = append(x.obls, &Obl{Fn: x.name, Kind: "step", Label: c.Label + ": there is a loop that does this", Props: c.Props, Goal: False})
			}
		}
		if con.Spawn != nil {
			for _, c := range con.Spawn.Steps {
				if x.steps["goroutine: "+c.Label] == 0 {
					x.obls = append(x.obls, &Obl{Fn: x.name, Kind: "step", Label: c.Label + ": there is a goroutine loop that does this", Props: c.Props, Goal: False})
				}
			}
		}
		nst := 0
		for _, n := range x.steps {
			nst += n
		}
		if !x.reqOK {
			res.Vacuous = "the precondition is unsatisfiable"
		} else if x.exits == 0 && nst == 0 && len(x.obls) == 0 {
			res.Vacuous = "no path reaches an exit or the end of a loop iteration"
		}
	}
	if f := os.Getenv("GOCV_ONLY"); f != "" {
		var keep []*Obl
		for _, o := range x.obls {
			if strings.Contains(o.Kind+" "+o.Label, f) {
				keep = append(keep, o)
			}
		}
		x.obls = keep
	}
	if checkProp != "" {
		var keep []*Obl
		for _, o := range x.obls {
			if o.relevant() {
				keep = append(keep, o)
			}
		}
		x.obls = keep
	}
	var todo []int
	for i, o := range x.obls {
		if !trivially(o) {
			todo = append(todo, i)
		}
	}
	var got map[int]OblRes
	if len(todo) >= 80 && os.Getenv("GOCV_ONE") == "" {
		g, err := dischargeMany(x.obls, todo, dep, 8)
		if err == nil {
			got = g
		} else {
			fmt.Fprintln(os.Stderr, "gocv:", err, "(going on in one process)")
		}
	}
	if got == nil {
		sv := startSolver("z3-new", "-in", "-smt2")
		defer sv.stop()
		got = map[int]OblRes{}
		failed := map[string]bool{} // labels with an obligation that was not discharged: one each gets the full effort
		for _, i := range todo {
			o := x.obls[i]
			r := proveObl(sv, o, dep, firstAttempt(sv, o, dep), failed[o.Kind+o.Label], len(failed) >= 4)
			if !r.OK {
				failed[o.Kind+o.Label] = true
			}
			got[i] = r
		}
	}
	for i, o := range x.obls {
		if r, ok := got[i]; ok {
			res.Obls = append(res.Obls, r)
		} else {
			res.Obls = append(res.Obls, OblRes{Kind: o.Kind, Label: o.Label, Pos: o.Pos, Props: o.Props, OK: true, Backend: "rewriting"})
		}
	}
	res.Unsup = append(res.Unsup, x.unsup...)
	res.Callees = sortedKeys(x.callees)
	res.Inlined = sortedKeys(x.inlined)
	res.Std = sortedKeys(x.stdUsed)
	res.Lemmas = sortedKeys(x.lemmasUsed)
	res.Exits = x.exits + x.subExits
	res.Paths = x.paths
	res.PathQ = stats.PathQ - q0
	res.PathMS = float64((stats.PathTime - pt0).Microseconds()) / 1000
	res.WallMS = float64(time.Since(t0).Microseconds()) / 1000
	return
}

func (x *Exec) invMono() {}

// the values of the function's inputs in a solver model
func modelInputs(model string, in map[string]*Term) map[string]string {
	out := map[string]string{}
	for n, t := range in {
		if t.Op != "var" {
			out[n] = t.String()
			continue
		}
		k := "(define-fun " + smtName(t.Name) + " () " + t.Sort.Name
		i := strings.Index(model, k)
		if i < 0 {
			continue
		}
		rest := model[i+len(k):]
		depth := 0
		j := 0
		for j = 0; j < len(rest); j++ {
			if rest[j] == '(' {
				depth++
			}
			if rest[j] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
		}
		v := strings.Join(strings.Fields(rest[:j]), " ")
		if len(v) > 2000 {
			v = v[:2000] + "..."
		}
		out[n] = v
	}
	return out
}

func (s *Specs) units() []string {
	var us []string
	us = append(us, "recs")
	for _, l := range s.lemmaSeq {
		us = append(us, "lemma "+l.Name)
	}
	for _, c := range s.order {
		if c.Iface || c.Trusted != "" || c.Inline {
			continue
		}
		us = append(us, "func "+c.Key)
	}
	return us
}

func (s *Specs) unitProps(u string) []string {
	switch {
	case strings.HasPrefix(u, "lemma "):
		return s.lemmas[u[6:]].Props
	case strings.HasPrefix(u, "func "):
		return s.funcs[u[5:]].Props
	}
	return nil
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- worker processes

type worker struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	out *bufio.Reader
	n   int
}

func startWorker(n int) (*worker, error) {
	self, _ := os.Executable()
	c := exec.Command(self, "worker", "-repo", repoDir, "-contracts", specDir, "-overlay", overlayFile, "-ms", fmt.Sprint(solverMS), "-prop", checkProp)
	if thorough {
		c.Args = append(c.Args, "-thorough")
	}
	c.Stderr = os.Stderr
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &worker{c, bufio.NewWriter(in), bufio.NewReaderSize(out, 1<<20), n}, nil
}

func workerMain() {
	p := load(repoDir, overlayFile, "./...")
	s := loadSpecs(specDir)
	in := bufio.NewScanner(os.Stdin)
	w := bufio.NewWriter(os.Stdout)
	fmt.Fprintln(w, "ready")
	w.Flush()
	for in.Scan() {
		r := runUnit(p, s, in.Text())
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

// verify the units named by start and everything their proofs rely on
func verifyAll(s *Specs, start []string, expand func(r UnitRes) []string, nw int) (map[string]UnitRes, error) {
	type job struct{ u string }
	results := map[string]UnitRes{}
	queued := map[string]bool{}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	var queue []string
	pending := 0
	add := func(u string) {
		if !queued[u] {
			queued[u] = true
			queue = append(queue, u)
			pending++
		}
	}
	for _, u := range start {
		add(u)
	}
	if nw > len(queue) && len(queue) > 0 && nw > 8 {
		nw = 8
	}
	var wg sync.WaitGroup
	var firstErr error
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w, err := startWorker(i)
			if err == nil {
				var l string
				l, err = w.out.ReadString('\n')
				if strings.TrimSpace(l) != "ready" && err == nil {
					err = fmt.Errorf("worker: %s", l)
				}
			}
			if err != nil {
				mu.Lock()
				if firstErr == nil {
					firstErr = err
				}
				cond.Broadcast()
				mu.Unlock()
				return
			}
			defer func() {
				w.cmd.Process.Kill()
				w.cmd.Wait()
			}()
			for {
				mu.Lock()
				for len(queue) == 0 && pending > 0 && firstErr == nil {
					cond.Wait()
				}
				if pending == 0 || firstErr != nil {
					mu.Unlock()
					return
				}
				u := queue[0]
				queue = queue[1:]
				mu.Unlock()
				ask := func() (r UnitRes, err error) {
					fmt.Fprintln(w.in, u)
					w.in.Flush()
					l, err := w.out.ReadBytes('\n')
					if err == nil {
						err = json.Unmarshal(l, &r)
					}
					return
				}
				r, err := ask()
				if err != nil {
					// the worker is gone: once more with a new one, then without this unit
					for try := 0; try < 2; try++ {
						w.cmd.Process.Kill()
						w.cmd.Wait()
						nw, e := startWorker(i)
						if e != nil {
							break
						}
						w = nw
						if _, e = w.out.ReadString('\n'); e != nil {
							break
						}
						if try == 1 {
							r = UnitRes{Unit: u, Unsup: []string{"verifier: the process verifying it ended: " + err.Error()}}
							err = nil
							break
						}
						if r, err = ask(); err == nil {
							break
						}
					}
				}
				mu.Lock()
				if err != nil {
					if firstErr == nil {
						firstErr = fmt.Errorf("%s: %v", u, err)
					}
				} else {
					results[u] = r
					for _, v := range expand(r) {
						add(v)
					}
				}
				pending--
				cond.Broadcast()
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	return results, firstErr
}

func main() {
	if f := os.Getenv("GOCV_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if len(os.Args) < 2 {
		fatal("usage: gocv check|func|worker|list")
	}
	fs := flag.NewFlagSet("gocv", flag.ExitOnError)
	fs.StringVar(&repoDir, "repo", "/repo", "repository")
	fs.StringVar(&specDir, "contracts", "/verif/contracts", "contracts")
	fs.StringVar(&overlayFile, "overlay", "/verif/stubs/overlay.json", "go overlay")
	fs.IntVar(&solverMS, "ms", 10000, "solver time per obligation")
	fs.BoolVar(&thorough, "thorough", false, "thorough")
	prop := fs.String("prop", "", "property")
	root := fs.String("root", "/verif", "verification directory")
	verbose := fs.Bool("v", false, "verbose")
	nw := fs.Int("j", 8, "workers")
	seed := fs.Int("seed", 1, "seed of the input search")
	secs := fs.Float64("secs", 5, "seconds of input search")
	race := fs.Bool("race", false, "input search with the race detector")
	fs.Parse(os.Args[2:])
	checkProp = *prop
	if os.Args[1] == "replay" {
		checkProp = ""
	}
	switch os.Args[1] {
	case "worker":
		workerMain()
	case "oblworker":
		oblWorkerMain(fs.Arg(0))
	case "list":
		s := loadSpecs(specDir)
		for _, u := range s.units() {
			fmt.Println(u, s.unitProps(u))
		}
	case "func":
		p := load(repoDir, overlayFile, "./...")
		s := loadSpecs(specDir)
		for _, pat := range fs.Args() {
			for _, u := range s.units() {
				if u == pat || strings.TrimPrefix(u, "func ") == pat || (strings.HasSuffix(pat, "*") && strings.HasPrefix(strings.TrimPrefix(u, "func "), pat[:len(pat)-1])) {
					show(runUnit(p, s, u), *verbose)
				}
			}
		}
	case "all":
		s := loadSpecs(specDir)
		rs, err := verifyAll(s, s.units(), func(UnitRes) []string { return nil }, *nw)
		if err != nil {
			fatal("%v", err)
		}
		for _, u := range sortedKeys(rs) {
			show(rs[u], *verbose)
		}
	case "replay":
		for _, pr := range strings.Split(*prop, ",") {
			t0 := time.Now()
			d := runDriver(*root, pr, *seed, *secs, "", *race)
			fmt.Printf("%s: found=%v cases=%d %.1fs %s %s\n", pr, d.Found, d.Cases, time.Since(t0).Seconds(), d.Note, d.What)
			if d.Found && *verbose {
				fmt.Println(d.Detail)
			}
		}
	case "check":
		os.Exit(check(*prop, *root, *nw))
	}
}

func show(r UnitRes, v bool) {
	ok, n := 0, len(r.Obls)
	for _, o := range r.Obls {
		if o.OK {
			ok++
		}
	}
	st := "ok  "
	if ok < n || len(r.Unsup) > 0 || r.Vacuous != "" {
		st = "FAIL"
	}
	fmt.Printf("%s %-50s %d/%d exits=%d paths=%d q=%d %.0fms\n", st, r.Unit, ok, n, r.Exits, r.Paths, r.PathQ, r.WallMS)
	if r.Vacuous != "" {
		fmt.Println("    vacuous:", r.Vacuous)
	}
	for _, u := range r.Unsup {
		fmt.Println("    unsupported:", u)
	}
	seen := map[string]bool{}
	for i, o := range r.Obls {
		k := o.Kind + o.Label + o.Pos
		if !o.OK {
			if seen[k] && !v {
				continue
			}
			seen[k] = true
			g := o.Goal
			if len(g) > 600 && !v {
				g = g[:600]
			}
			fmt.Printf("    %s %s [%s] %s: %s\n       goal %s\n       in %v trail %v\n", o.Verdict, o.Kind, o.Label, o.Pos, o.Backend, g, o.Inputs, o.Trail)
			os.WriteFile(fmt.Sprintf("/tmp/gocv_fail_%d.smt2", i), []byte(o.SMT+"(check-sat)\n"), 0o644)
		} else if v {
			fmt.Printf("    ok %s [%s] %s %s %.0fms\n", o.Kind, o.Label, o.Pos, o.Backend, o.MS)
		}
	}
}

var _ = sort.Strings
var _ = filepath.Join
var _ = strconv.Itoa
