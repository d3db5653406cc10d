package main

// The obligations of a large unit are discharged by several processes. The exploring process
// writes the terms of the obligations to a file once; every helper reads them back (same
// order, so the same normal forms) and is then told which obligation to attempt. What is
// attempted, and how, is the same as within one process.

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"sync"
)

type wTerm struct {
	Op, Name string
	Args     []int32
	Coef     []*big.Int
	I        *big.Int
	Sort     string
	Rng, Fn  int32 // 1-based
	Base     int32
	BaseHi   *big.Int
}
type wRng struct {
	Lo, Hi *big.Int
	ID     bool
}
type wFn struct {
	Name       string
	Params     []int32
	Ret        string
	Rng        int32
	Body, Decr int32
}
type wObl struct {
	I            int
	Kind, Label  string
	Hyps, Cases  []int32
	Goal         int32
	Inputs       map[string]int32
	Pos          string
	Props, Trail []string
}
type wUnit struct {
	Terms []wTerm
	Rngs  []wRng
	Fns   []wFn
	Obls  []wObl
	Count map[string]int
	Dep   int
}

func encodeObls(obls []*Obl, todo []int, dep int) *wUnit {
	u := &wUnit{Count: varCount, Dep: dep}
	seen := map[*Term]bool{}
	var all []*Term
	fns := map[*RecFn]int32{}
	var fnList []*RecFn
	var visit func(t *Term)
	visit = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
		}
		visit(t.Base)
		all = append(all, t)
		if t.Fn != nil && fns[t.Fn] == 0 {
			fnList = append(fnList, t.Fn)
			fns[t.Fn] = int32(len(fnList))
			for _, p := range t.Fn.Params {
				visit(p)
			}
			visit(t.Fn.Body)
			visit(t.Fn.Decr)
		}
	}
	for _, i := range todo {
		o := obls[i]
		for _, h := range o.Hyps {
			visit(h)
		}
		for _, h := range o.Cases {
			visit(h)
		}
		visit(o.Goal)
		for _, n := range sortedKeys(o.Inputs) {
			visit(o.Inputs[n])
		}
	}
	post := append([]*Term{}, all...)
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	num := map[*Term]int32{}
	for i, t := range all {
		num[t] = int32(i + 1)
	}
	// every term comes after those it is made of
	for _, t := range all {
		bad := t.Base != nil && num[t.Base] >= num[t]
		for _, a := range t.Args {
			bad = bad || num[a] >= num[t]
		}
		if bad {
			if os.Getenv("GOCV_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "TERM ORDER", t.id, pretty(t))
			}
			all = post
			for i, t := range all {
				num[t] = int32(i + 1)
			}
			break
		}
	}
	rngs := map[*Rng]int32{}
	rng := func(r *Rng) int32 {
		if r == nil {
			return 0
		}
		if rngs[r] == 0 {
			u.Rngs = append(u.Rngs, wRng{r.Lo, r.Hi, idRngs[r]})
			rngs[r] = int32(len(u.Rngs))
		}
		return rngs[r]
	}
	list := func(ts []*Term) []int32 {
		var r []int32
		for _, t := range ts {
			r = append(r, num[t])
		}
		return r
	}
	for _, t := range all {
		w := wTerm{Op: t.Op, Name: t.Name, Args: list(t.Args), Coef: t.Coef, I: t.I, Rng: rng(t.Rng)}
		if t.Base != nil {
			w.Base, w.BaseHi = num[t.Base], t.BaseHi
		}
		if t.Sort != nil {
			w.Sort = t.Sort.Name
		}
		if t.Fn != nil {
			w.Fn = fns[t.Fn]
		}
		u.Terms = append(u.Terms, w)
	}
	for _, f := range fnList {
		u.Fns = append(u.Fns, wFn{f.Name, list(f.Params), f.Ret.Name, rng(f.Rng), num[f.Body], num[f.Decr]})
	}
	for _, i := range todo {
		o := obls[i]
		w := wObl{I: i, Kind: o.Kind, Label: o.Label, Hyps: list(o.Hyps), Cases: list(o.Cases), Goal: num[o.Goal], Pos: o.Pos, Props: o.Props, Trail: o.Trail, Inputs: map[string]int32{}}
		for n, t := range o.Inputs {
			w.Inputs[n] = num[t]
		}
		u.Obls = append(u.Obls, w)
	}
	return u
}

func (u *wUnit) decode() map[int]*Obl {
	sorts := map[string]*Sort{"": nil, SBool.Name: SBool, SInt.Name: SInt, SSeq.Name: SSeq, SSSeq.Name: SSSeq}
	var sortOf func(n string) *Sort
	sortOf = func(n string) *Sort {
		if s, ok := sorts[n]; ok {
			return s
		}
		const pre = "(Array Int "
		if len(n) < len(pre) || n[:len(pre)] != pre {
			fatal("sort %s", n)
		}
		s := ArrOf(sortOf(n[len(pre) : len(n)-1]))
		sorts[n] = s
		return s
	}
	rngs := make([]*Rng, len(u.Rngs)+1)
	for i, r := range u.Rngs {
		q := &Rng{r.Lo, r.Hi}
		rngs[i+1] = q
		if r.ID {
			idRngs[q] = true
		}
	}
	fns := make([]*RecFn, len(u.Fns)+1)
	for i, f := range u.Fns {
		fns[i+1] = &RecFn{Name: f.Name, Ret: sortOf(f.Ret), Rng: rngs[f.Rng]}
	}
	ts := make([]*Term, len(u.Terms)+1)
	list := func(ns []int32) []*Term {
		var r []*Term
		for _, n := range ns {
			r = append(r, ts[n])
		}
		return r
	}
	for i, w := range u.Terms {
		t := &Term{Op: w.Op, Name: w.Name, Args: list(w.Args), Coef: w.Coef, I: w.I, Sort: sortOf(w.Sort), Rng: rngs[w.Rng], Fn: fns[w.Fn], Base: ts[w.Base], BaseHi: w.BaseHi}
		ts[i+1] = mk(t)
	}
	for i, f := range u.Fns {
		fns[i+1].Params, fns[i+1].Body, fns[i+1].Decr = list(f.Params), ts[f.Body], ts[f.Decr]
	}
	for n, c := range u.Count {
		varCount[n] = c
	}
	out := map[int]*Obl{}
	for _, w := range u.Obls {
		o := &Obl{Kind: w.Kind, Label: w.Label, Hyps: list(w.Hyps), Cases: list(w.Cases), Goal: ts[w.Goal], Pos: w.Pos, Props: w.Props, Trail: w.Trail, Inputs: map[string]*Term{}}
		for n, t := range w.Inputs {
			o.Inputs[n] = ts[t]
		}
		out[w.I] = o
	}
	return out
}

type oblReq struct {
	I      int
	Failed bool // an obligation with this label is already known not to be discharged
	Few    bool // no further full effort
	Quit   bool
}

// reads an encoded unit and requests from stdin, writes results
func oblWorkerMain(file string) {
	f, err := os.Open(file)
	if err != nil {
		fatal("%v", err)
	}
	var u wUnit
	if err := gob.NewDecoder(bufio.NewReaderSize(f, 1<<20)).Decode(&u); err != nil {
		fatal("%s: %v", file, err)
	}
	f.Close()
	obls := u.decode()
	sv := startSolver("z3-new", "-in", "-smt2")
	defer sv.stop()
	in := json.NewDecoder(os.Stdin)
	w := bufio.NewWriter(os.Stdout)
	for {
		var q oblReq
		if in.Decode(&q) != nil || q.Quit {
			return
		}
		o := obls[q.I]
		r := proveObl(sv, o, u.Dep, firstAttempt(sv, o, u.Dep), q.Failed, q.Few)
		b, _ := json.Marshal(r)
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

// discharge the obligations obls[i], i in todo, with n processes
func dischargeMany(obls []*Obl, todo []int, dep, n int) (map[int]OblRes, error) {
	f, err := os.CreateTemp("", "gocv-obls-*")
	if err != nil {
		return nil, err
	}
	defer os.Remove(f.Name())
	bw := bufio.NewWriterSize(f, 1<<20)
	if err := gob.NewEncoder(bw).Encode(encodeObls(obls, todo, dep)); err != nil {
		return nil, err
	}
	bw.Flush()
	f.Close()
	self, _ := os.Executable()
	out := map[int]OblRes{}
	failed := map[string]bool{}
	next := 0
	var mu sync.Mutex
	var wg sync.WaitGroup
	var firstErr error
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fail := func(err error) {
				mu.Lock()
				if firstErr == nil {
					firstErr = err
				}
				mu.Unlock()
			}
			c := exec.Command(self, "oblworker", "-ms", fmt.Sprint(solverMS), f.Name())
			c.Stderr = os.Stderr
			in, _ := c.StdinPipe()
			po, _ := c.StdoutPipe()
			if err := c.Start(); err != nil {
				fail(err)
				return
			}
			defer func() {
				c.Process.Kill()
				c.Wait()
			}()
			enc := json.NewEncoder(in)
			dec := json.NewDecoder(bufio.NewReaderSize(po, 1<<20))
			for {
				mu.Lock()
				if next >= len(todo) || firstErr != nil {
					mu.Unlock()
					enc.Encode(oblReq{Quit: true})
					in.Close()
					return
				}
				i := todo[next]
				next++
				q := oblReq{I: i, Failed: failed[obls[i].Kind+obls[i].Label], Few: len(failed) >= 4}
				mu.Unlock()
				if err := enc.Encode(q); err != nil {
					fail(err)
					return
				}
				var r OblRes
				if err := dec.Decode(&r); err != nil {
					fail(fmt.Errorf("obligation worker: %v", err))
					return
				}
				mu.Lock()
				out[i] = r
				if !r.OK {
					failed[obls[i].Kind+obls[i].Label] = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if firstErr == nil && len(out) != len(todo) {
		firstErr = fmt.Errorf("%d of %d obligations attempted", len(out), len(todo))
	}
	return out, firstErr
}
