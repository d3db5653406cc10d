package main

// The check of one property: verify every contract the property rests on, and report.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// properties whose cone is everything under contract
var wholeProps = map[string]bool{"C08": true, "C14": true}

func (s *Specs) keyUnits(key string) []string {
	var us []string
	for _, c := range s.order {
		if c.Iface || c.Trusted != "" || c.Inline {
			continue
		}
		if c.Key == key {
			us = append(us, "func "+c.Key)
		}
	}
	return us
}

// units the proof of r relies on
func (s *Specs) deps(r UnitRes) []string {
	var us []string
	for _, k := range r.Callees {
		if strings.HasPrefix(k, "interface ") {
			for _, c := range s.order {
				if c.Impl == k[10:] && c.Trusted == "" {
					us = append(us, "func "+c.Key)
				}
			}
			continue
		}
		us = append(us, s.keyUnits(k)...)
	}
	for _, l := range r.Lemmas {
		us = append(us, "lemma "+l)
	}
	return us
}

// does an obligation of unit u decide property p?
func (s *Specs) counts(p, u string, o OblRes) (counted, primary bool) {
	if p == "C14" {
		return o.Kind == "lock", o.Kind == "lock"
	}
	if o.Kind == "lock" {
		return false, false
	}
	if p == "C08" {
		// absence of panics; what is proved about values only where panics depend on it
		if o.Kind == "panic" {
			return true, true
		}
		return true, len(o.Props) == 0 && o.Kind != "frame" || has(o.Props, "C08")
	}
	ps := s.unitProps(u)
	if has(ps, p) && len(o.Props) > 0 && !has(o.Props, p) {
		return true, false
	}
	return true, true
}

type finding struct {
	Kind, Property, What string
}

func readFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings"))
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		k, rest, ok := strings.Cut(l, ":")
		if !ok {
			continue
		}
		f := strings.Fields(rest)
		if len(f) < 2 || !strings.HasPrefix(f[0], "property=") {
			continue
		}
		out = append(out, finding{k, f[0][9:], strings.Join(f[1:], " ")})
	}
	return out
}

type driverRes struct {
	Ran      bool
	Found    bool
	What     string
	Detail   string
	Cases    int64
	Note     string
	WallS    float64
	ExitCode int
}

func buildDriver(root, out string, race bool) error {
	ov := map[string]map[string]string{}
	b, err := os.ReadFile(overlayFile)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &ov); err != nil {
		return err
	}
	fs, _ := filepath.Glob(filepath.Join(root, "replay", "*.go"))
	for _, f := range fs {
		ov["Replace"][filepath.Join(repoDir, "zz_verif_replay", filepath.Base(f))] = f
	}
	tmp := filepath.Join(filepath.Dir(out), fmt.Sprintf("overlay-%d.json", os.Getpid()))
	nb, _ := json.Marshal(ov)
	if err := os.WriteFile(tmp, nb, 0o644); err != nil {
		return err
	}
	defer os.Remove(tmp)
	args := []string{"build", "-o", out}
	env := append(os.Environ(), "GOFLAGS=-mod=mod -overlay="+tmp, "GOPROXY=off", "GOSUMDB=off", "GONOSUMDB=*", "GOTOOLCHAIN=local")
	if race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	c := exec.Command("go", append(args, "./zz_verif_replay")...)
	c.Dir = repoDir
	c.Env = env
	o, err := c.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, o)
	}
	return nil
}

// runDriver executes the real code on generated inputs against an independent oracle
func runDriver(root, prop string, seed int, secs float64, hints string, race bool) (d driverRes) {
	t0 := time.Now()
	dir := filepath.Join(root, "out")
	os.MkdirAll(dir, 0o755)
	bin := filepath.Join(dir, fmt.Sprintf("replay-%s-%d", prop, os.Getpid()))
	defer os.Remove(bin)
	if err := buildDriver(root, bin, race); err != nil {
		d.Note = "driver does not build against this tree: " + trunc(err.Error(), 2000)
		return
	}
	cf := bin + ".case"
	defer os.Remove(cf)
	c := exec.Command(bin, "-prop", prop, "-seed", fmt.Sprint(seed), "-secs", fmt.Sprint(secs), "-case", cf, "-hints", hints)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=6GiB")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &limitWriter{w: &se, n: 60000}
	if err := c.Start(); err != nil {
		d.Note = err.Error()
		return
	}
	d.Ran = true
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	killed := false
	select {
	case <-done:
	case <-time.After(time.Duration((secs*3 + 60) * float64(time.Second))):
		killed = true
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
	}
	d.ExitCode = c.ProcessState.ExitCode()
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "CASES ") {
			d.Cases, _ = strconv.ParseInt(strings.TrimSpace(l[6:]), 10, 64)
		}
		if strings.HasPrefix(l, "FOUND ") {
			d.Found = true
			d.What = l[6:]
		}
	}
	cur, _ := os.ReadFile(cf)
	switch {
	case d.Found:
		d.Detail = so.String()
	case killed:
		d.Note = "driver did not finish: " + trunc(string(cur), 2000)
	case d.ExitCode == 66 && strings.Contains(se.String(), "DATA RACE"):
		d.Found = true
		d.What = "data race while running: " + trunc(string(cur), 2000)
		d.Detail = trunc(se.String(), 20000)
	case d.ExitCode != 0 && (strings.Contains(se.String(), "panic:") || strings.Contains(se.String(), "fatal error:")):
		d.Found = true
		d.What = "the code under test crashed on: " + trunc(string(cur), 4000)
		d.Detail = trunc(se.String(), 20000)
	case d.ExitCode != 0:
		d.Note = fmt.Sprintf("driver ended with status %d: %s", d.ExitCode, trunc(se.String(), 2000))
	}
	d.WallS = time.Since(t0).Seconds()
	return
}

type limitWriter struct {
	w *strings.Builder
	n int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	if r := l.n - l.w.Len(); r > 0 {
		if len(b) > r {
			l.w.Write(b[:r])
		} else {
			l.w.Write(b)
		}
	}
	return len(b), nil
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func check(prop, root string, nw int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := "quick"
	if thorough || os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
		thorough = true
		if solverMS < 60000 {
			solverMS = 60000
		}
	}
	s := loadSpecs(specDir)
	var start []string
	for _, u := range s.units() {
		if wholeProps[prop] || has(s.unitProps(u), prop) {
			start = append(start, u)
		}
	}
	if len(start) == 0 {
		fmt.Fprintf(os.Stderr, "no contracts for property %s\n", prop)
		return 2
	}
	start = append(start, "recs")
	res, err := verifyAll(s, start, s.deps, nw)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gocv:", err)
		return 2
	}
	type fail struct {
		Unit string `json:"unit"`
		OblRes
	}
	var prim, sec []fail
	var unsup []string
	var vac []fail
	n, okN, secN := 0, 0, 0
	byKind := map[string]int{}
	byBack := map[string]int{}
	solverT := 0.0
	pathQ, pathMS := 0, 0.0
	std := map[string]bool{}
	trusted := map[string]bool{}
	type fnInfo struct {
		Unit        string  `json:"unit"`
		Obligations int     `json:"obligations"`
		Discharged  int     `json:"discharged"`
		Exits       int     `json:"paths_to_an_exit"`
		WallMS      float64 `json:"wall_ms"`
		Inlined     []string `json:"inlined,omitempty"`
	}
	var fns []fnInfo
	inlined := map[string]bool{}
	us := sortedKeys(res)
	for _, u := range us {
		r := res[u]
		fi := fnInfo{Unit: u, Exits: r.Exits, WallMS: r.WallMS, Inlined: r.Inlined}
		for _, o := range r.Obls {
			c, p := s.counts(prop, u, o)
			if !c {
				continue
			}
			n++
			fi.Obligations++
			byKind[o.Kind]++
			solverT += o.MS
			if o.OK {
				okN++
				fi.Discharged++
				byBack[o.Backend]++
			} else if p {
				prim = append(prim, fail{u, o})
			} else {
				secN++
				sec = append(sec, fail{u, o})
			}
		}
		for _, x := range r.Unsup {
			unsup = append(unsup, u+": "+x)
		}
		if r.Vacuous != "" && prop != "C14" {
			f := fail{Unit: u}
			f.Kind, f.Label = "vacuity", r.Vacuous
			vac = append(vac, f)
		}
		for _, x := range r.Std {
			std[x] = true
		}
		for _, x := range r.Inlined {
			inlined[x] = true
		}
		for _, k := range r.Callees {
			key := strings.TrimPrefix(k, "interface ")
			if c := s.funcs[key]; c != nil && c.Trusted != "" {
				trusted["trusted contract: "+key+" ("+c.Trusted+")"] = true
			}
			if strings.HasPrefix(k, "interface ") {
				any := false
				for _, c := range s.order {
					if c.Impl == key && c.Trusted == "" {
						any = true
					}
				}
				w := "implementations from outside the repository are assumed to satisfy the interface contract of " + key
				if !any {
					w = "assumed interface contract (no verified implementation): " + key
				}
				trusted[w] = true
			}
		}
		pathQ += r.PathQ
		pathMS += r.PathMS
		if fi.Obligations > 0 || strings.HasPrefix(u, "func ") {
			fns = append(fns, fi)
		}
	}
	// something the property rests on was not established
	vacuous := len(vac) > 0 && len(unsup) == 0
	bad := len(prim) > 0 || vacuous
	if vacuous {
		prim = append(prim, vac...)
	}
	open := bad || len(unsup) > 0 || len(sec) > 0 || n == 0
	var d driverRes
	secs := 15.0
	if tier == "thorough" {
		secs = 120
	}
	race := prop == "C14"
	if open || tier == "thorough" {
		hf := ""
		if len(prim) > 0 {
			hf = filepath.Join(root, "out", fmt.Sprintf("hints-%s-%d.json", prop, os.Getpid()))
			os.MkdirAll(filepath.Dir(hf), 0o755)
			var hs []map[string]string
			for _, f := range prim {
				if len(f.Inputs) > 0 {
					hs = append(hs, f.Inputs)
				}
			}
			b, _ := json.Marshal(hs)
			os.WriteFile(hf, b, 0o644)
			defer os.Remove(hf)
		}
		d = runDriver(root, prop, seed, secs, hf, race)
	}
	known := 0
	var fixed []string
	for _, f := range readFindings(root) {
		if f.Property != prop {
			continue
		}
		if f.Kind == "KNOWN-FINDING" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.What)
			known++
		} else {
			fixed = append(fixed, f.What)
		}
	}
	code := 0
	viol := 0
	level := "proof"
	bounded := []string{}
	status := "every obligation discharged"
	if d.Found || bad {
		viol = 1
		code = 1
		dir := filepath.Join(root, "out", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d.json", prop, seed))
		rep := map[string]any{
			"property": prop, "seed": seed, "tier": tier,
			"failed_obligations":    prim,
			"other_failed":          sec,
			"outside_verifier":      unsup,
			"input_search":          map[string]any{"found": d.Found, "what": d.What, "detail": d.Detail, "cases": d.Cases, "note": d.Note},
			"reproduce":             fmt.Sprintf("VERIF_SEED=%d bash %s/check.sh %s %s", seed, root, prop, tier),
		}
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0o644)
		for i, f := range prim {
			if i == 8 {
				fmt.Printf("... and %d more failed obligations\n", len(prim)-8)
				break
			}
			fmt.Printf("failed obligation: %s: %s [%s] %s (%s %s)\n", f.Unit, f.Kind, f.Label, f.Pos, f.Backend, f.Verdict)
		}
		for _, u := range unsup {
			fmt.Println("outside the verifier:", u)
		}
		if d.Found {
			fmt.Println("failing input on the real code:", trunc(d.What, 2000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			if d.Note != "" {
				fmt.Println("input search:", d.Note)
			}
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
		status = "violated or not provable"
	} else if open {
		status = fmt.Sprintf("bounded: not everything is within the verifier's reach on this tree; the bounded search of the real code (%d cases, seed %d) found nothing", d.Cases, seed)
		for _, u := range unsup {
			bounded = append(bounded, u)
			fmt.Println("bounded stand-in:", u)
		}
		for _, f := range sec {
			bounded = append(bounded, "not discharged, not about this property: "+f.Unit+": "+f.Label)
		}
		level = "exploration"
	}
	tb := []string{
		"the verifier /verif/tool (symbolic executor over golang.org/x/tools/go/ssa and its SMT encoding; tested by /verif/selftest)",
		"golang.org/x/tools/go/packages and go/ssa represent the compiled program",
		"SMT solvers: z3 5.3.2 (z3-new), z3 4.8.12, cvc5 1.1.2",
		"models of the standard library used: " + strings.Join(sortedKeys(std), ", "),
	}
	for _, k := range sortedKeys(trusted) {
		tb = append(tb, k)
	}
	var samples []any
	for _, u := range us {
		for _, o := range res[u].Obls {
			if len(samples) < 6 && o.OK && (o.Kind == "ensures" || o.Kind == "step" || o.Kind == "lemma") && has(o.Props, prop) {
				samples = append(samples, map[string]any{"unit": u, "obligation": o.Kind + " [" + o.Label + "]", "backend": o.Backend, "ms": o.MS})
			}
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"obligations": n, "discharged": okN,
			"checker_cmd":           fmt.Sprintf("bash /verif/check.sh %s %s", prop, tier),
			"trusted_base":          tb,
			"functions_under_contract": fns,
			"inlined_functions":     sortedKeys(inlined),
			"obligations_by_kind":   byKind,
			"discharged_by_backend": byBack,
			"solver_s":              solverT / 1000,
			"path_feasibility_queries": pathQ, "path_feasibility_s": pathMS / 1000,
			"bounded_stand_ins":     bounded,
			"outcome":               status,
			"explanation":           "each unit is verified against its contract for all inputs and all iterations; calls are replaced by the callee's contract; functions without a contract are inlined",
			"samples":               samples,
			"evaluations":           d.Cases,
			"distinct_nontrivial":   d.Cases,
			"rule":                  "evaluations are runs of the real code on generated inputs (only when an obligation fails or in the thorough tier); every generated case is a complete run compared with an independent oracle",
		},
		"assumptions": assumptions(sortedKeys(trusted)),
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	if d.Ran {
		ev["coverage"].(map[string]any)["input_search"] = map[string]any{"cases": d.Cases, "seconds": d.WallS, "found": d.Found, "note": d.Note}
	}
	if known > 0 {
		ev["coverage"].(map[string]any)["known_findings"] = known
	}
	if len(fixed) > 0 {
		ev["coverage"].(map[string]any)["repaired_defects"] = fixed
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d/%d obligations discharged, %d units, %.1fs: %s\n", prop, okN, n, len(us), time.Since(t0).Seconds(), status)
	return code
}

func assumptions(tr []string) []string {
	a := []string{
		"lengths and capacities stay below 2^56 and allocation never fails",
		"a reader (io.Reader) is a finite sequence of bytes followed by an error or end of file, delivered in arbitrary pieces; a write call takes all of its argument or fails with an error",
		"goroutines interfere with the verified function only through channels and mutex-guarded fields; a guarded field does not change between two critical sections of one call unless the contract says so",
		"values received from channels satisfy the channel invariants stated in /verif/contracts (every send in the repository is checked against them)",
	}
	a = append(a, tr...)
	sort.Strings(a[4:])
	return a
}
