package main

// Command line: decide one property for the code in the repository.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type options struct {
	repo, verif, prop, tier, fn string
	verbose, noHarness          bool
	dump                        string
}

func main() {
	var o options
	flag.StringVar(&o.repo, "repo", "/repo", "code under verification")
	flag.StringVar(&o.verif, "verif", "/verif", "directory of contracts and harnesses")
	flag.StringVar(&o.prop, "prop", "", "property to decide")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.fn, "fn", "", "debugging: only units whose name contains this")
	flag.BoolVar(&o.verbose, "v", false, "print every obligation")
	flag.BoolVar(&o.noHarness, "noharness", false, "debugging: proofs only")
	flag.StringVar(&o.dump, "dump", "", "debugging: write failed obligations as SMT-LIB into this directory")
	flag.Parse()
	os.Exit(runCheck(&o))
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// mentions: some clause of c belongs to property prop.
func (c *Contract) mentions(prop string) bool {
	if contains(c.Props, prop) || contains(c.SafetyProps, prop) || contains(c.FrameProps, prop) {
		return true
	}
	for _, l := range [][]Clause{c.Requires, c.Ensures, c.OnExit, c.Invariants} {
		for _, k := range l {
			if contains(k.Props, prop) {
				return true
			}
		}
	}
	return false
}

func exported(fn string) bool {
	i := strings.LastIndex(fn, ".")
	return i >= 0 && i+1 < len(fn) && fn[i+1] >= 'A' && fn[i+1] <= 'Z'
}

type harnessResult struct {
	Ran      bool
	Pass     bool
	Cases    int64
	Output   string
	Failures []string // concrete failing inputs
	Known    []string
	Note     string
	Dur      float64
	Samples  []string
}

type knownFinding struct {
	Prop, ID, Text string
}

// loadKnown reads the known-findings file: lines "PROP ID text".
func loadKnown(f string) []knownFinding {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(p) == 3 {
			out = append(out, knownFinding{strings.TrimPrefix(p[0], "property="), strings.TrimPrefix(p[1], "id="), p[2]})
		}
	}
	return out
}

func runCheck(o *options) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			seed = v
		}
	}
	specs, err := loadSpecs(filepath.Join(o.verif, "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		return 2
	}
	hch := make(chan *harnessResult, 1)
	if o.noHarness || o.prop == "" {
		hch <- &harnessResult{Note: "not run"}
	} else {
		go func() { hch <- runHarness(o, seed) }()
	}
	prog, err := loadProgram(o.repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "loading:", err)
		return 2
	}
	e := newEngine(prog)
	e.verbose = o.verbose
	e.specs = specs
	for n, s := range specs.ghosts {
		ghostSorts[n] = specSort(s)
	}
	if o.tier == "thorough" {
		e.oblTO = 180 * time.Second
	}
	initErr := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VPANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("%v", r)
			}
		}()
		e.initState()
		return nil
	}()
	e.installLogic()
	if initErr != nil {
		fmt.Fprintln(os.Stderr, "package initialisation:", initErr)
	}

	var units []*Unit
	var skipped, trusted []string
	for _, c := range specs.list {
		if o.prop != "" && !c.mentions(o.prop) {
			continue
		}
		if o.fn != "" && !strings.Contains(c.Fn, o.fn) {
			continue
		}
		if c.Trusted != "" {
			trusted = append(trusted, c.Fn+": "+c.Trusted)
			continue
		}
		if !c.Lemma {
			fn := prog.get(c.Fn)
			if fn == nil || len(fn.Params) != len(c.Params) {
				if !exported(c.Fn) || strings.Contains(c.Fn, "$") {
					skipped = append(skipped, shortName(c.Fn)+": not in the code with this signature; callers are verified against its replacement's body")
					continue
				}
			}
		}
		units = append(units, &Unit{Name: c.Fn, C: c, AllowGo: c.AllowGo, Terminates: c.Terminates, MaxAlloc: c.MaxAlloc, Props: c.Props})
	}
	var results []*UnitResult
	runAll := func(us []*Unit) {
		rs := make([]*UnitResult, len(us))
		if os.Getenv("VPANIC") != "" {
			for i := range us {
				rs[i] = e.runUnit(us[i])
			}
		} else {
			parallel(len(us), func(i int) { rs[i] = e.runUnit(us[i]) })
		}
		results = append(results, rs...)
	}
	runAll(units)
	// the contracts of the callees the proofs rely on, and of their callees
	dep := map[*Unit]bool{}
	have := map[string]bool{}
	for _, u := range units {
		have[u.Name] = true
	}
	for next := results; len(next) > 0 && o.fn == ""; {
		var more []*Unit
		for _, r := range next {
			for _, n := range r.Assumed {
				c := specs.byFn[n]
				if have[n] || c == nil {
					continue
				}
				have[n] = true
				if c.Trusted != "" {
					trusted = append(trusted, c.Fn+": "+c.Trusted)
					continue
				}
				u := &Unit{Name: c.Fn, C: c, AllowGo: c.AllowGo, Terminates: c.Terminates, MaxAlloc: c.MaxAlloc, Props: c.Props}
				dep[u] = true
				more = append(more, u)
			}
		}
		units = append(units, more...)
		k := len(results)
		runAll(more)
		next = results[k:]
	}
	var obls []*Obl
	trivial := map[string]int{}
	inlined, assumed, externs := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range results {
		for _, ob := range r.Obls {
			if o.prop == "" || dep[r.Unit] || len(ob.Props) == 0 || contains(ob.Props, o.prop) {
				obls = append(obls, ob)
			}
		}
		for k, n := range r.Trivial {
			trivial[k] += n
		}
		for _, n := range r.Inlined {
			inlined[n] = true
		}
		for _, n := range r.Assumed {
			assumed[n] = true
		}
		for _, n := range r.Externs {
			externs[n] = true
		}
		if o.verbose {
			fmt.Printf("-- %s: %d obligations, %d by simplification, %d paths, %.1fs %s\n", shortName(r.Unit.Name), len(r.Obls), sumMap(r.Trivial), r.Paths, r.Dur.Seconds(), r.Err)
		}
	}
	budget := 600 * time.Second
	if o.tier == "thorough" {
		budget = 1500 * time.Second
	}
	e.dischargeAll(obls, t0.Add(budget))
	if o.dump != "" {
		dumpFailed(o.dump, obls)
	}
	byName := map[string][]*Obl{}
	names := map[string]bool{}
	for n := range trivial {
		names[n] = true
	}
	for _, ob := range obls {
		byName[ob.Name] = append(byName[ob.Name], ob)
		names[ob.Name] = true
	}
	nTotal, nTriv, nDis := 0, 0, 0
	for _, n := range trivial {
		nTriv += n
	}
	by := map[string]int{"simplifier": nTriv}
	var solverS float64
	var failed []*Obl
	for _, ob := range obls {
		nTotal++
		solverS += ob.Dur.Seconds()
		if ob.Res == "discharged" {
			nDis++
			by[ob.By]++
		} else {
			failed = append(failed, ob)
		}
		if o.verbose {
			fmt.Printf("%-10s %-9s %6.2fs %s [%s]\n", ob.Res, ob.By, ob.Dur.Seconds(), ob.Name, ob.Pos)
			if ob.Res != "discharged" && ob.Detail != "" {
				fmt.Println("    ", clip(ob.Detail, 2000))
				for _, l := range ob.Trace {
					fmt.Println("      path:", l)
				}
			}
		}
	}
	h := <-hch
	known := loadKnown(filepath.Join(o.verif, "known-findings.txt"))
	for _, k := range known {
		if k.Prop == o.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", k.Prop, k.ID, k.Text)
		}
	}
	if o.prop == "" {
		fmt.Printf("%d obligations, %d discharged, %d trivial, %d failed, %.1fs\n", nTotal, nDis, nTriv, len(failed), time.Since(t0).Seconds())
		for _, f := range failed {
			fmt.Println("FAILED", f.Res, f.Name)
		}
		if len(failed) > 0 {
			return 1
		}
		return 0
	}

	// ---- evidence
	var under []string
	for _, r := range results {
		k := "function"
		if r.Unit.C.Lemma {
			k = "lemma"
		} else if dep[r.Unit] {
			k = "callee"
		}
		under = append(under, fmt.Sprintf("%s %s: %d obligations + %d by simplification, %d paths, %.1fs", k, shortName(r.Unit.Name), len(r.Obls), sumMap(r.Trivial), r.Paths, r.Dur.Seconds()))
	}
	for i := range under {
		under[i] = strings.TrimSpace(under[i])
	}
	var bounded []string
	if h.Ran {
		bounded = append(bounded, "replay harness (bounded, random and boundary inputs; not counted as proved): "+strconv.FormatInt(h.Cases, 10)+" cases")
	}
	var samples []string
	for _, n := range sortedKeys(names) {
		if len(samples) < 60 {
			samples = append(samples, n)
		}
	}
	ext := make([]string, 0)
	for _, n := range sortedKeys(externs) {
		ext = append(ext, n)
	}
	depends := []string{}
	for _, n := range sortedKeys(assumed) {
		c := specs.byFn[n]
		d := shortName(n)
		if c != nil && c.Trusted != "" {
			d += " (trusted: " + c.Trusted + ")"
		} else if c != nil {
			d += " (verified in this run)"
		}
		depends = append(depends, d)
	}
	inl := []string{}
	for _, n := range sortedKeys(inlined) {
		inl = append(inl, shortName(n))
	}
	nDischarged := nDis + nTriv
	cov := map[string]any{
		"obligations":                nTotal + nTriv,
		"discharged":                 nDischarged,
		"checker_cmd":                fmt.Sprintf("engine/vcg -prop %s (go/ssa of %s, back ends z3-new, z3, cvc5)", o.prop, o.repo),
		"trusted_base":               trustedBase(ext, trusted),
		"functions_under_contract":   under,
		"discharged_by":              by,
		"named_obligations":          len(names),
		"solver_seconds":             round1(solverS),
		"callee_contracts_used":      depends,
		"bodies_verified_inline":     inl,
		"contracts_without_function": skipped,
		"bounded_parts":              bounded,
		"harness":                    map[string]any{"ran": h.Ran, "passed": h.Pass, "cases": h.Cases, "seconds": round1(h.Dur), "note": h.Note, "samples": h.Samples},
		"samples":                    samples,
		"loop_invariant_candidates":  e.ninv,
	}
	viol := 0
	ret := 0
	repDir := filepath.Join(o.verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	if h.Ran && len(h.Failures) > 0 {
		viol++
		ret = 1
		rf := filepath.Join(repDir, o.prop+"-input.txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s fails on the real code\n\nfailing input(s), replayed against the real code by the harness:\n", o.prop)
		for _, f := range h.Failures {
			sb.WriteString(f + "\n")
		}
		fmt.Fprintf(&sb, "\nre-run: cd %s && VERIF_SEED=%d ./check.sh %s %s\n", o.verif, seed, o.prop, o.tier)
		if len(failed) > 0 {
			sb.WriteString("\nfailed obligations:\n" + describe(failed))
		}
		sb.WriteString("\nharness output:\n" + clip(h.Output, 20000))
		os.WriteFile(rf, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, rf)
	} else if len(failed) > 0 {
		viol++
		ret = 1
		rf := filepath.Join(repDir, o.prop+"-obligation.txt")
		os.WriteFile(rf, []byte(fmt.Sprintf("property %s: the verifier does not accept these obligations on the current code\n\n%s\nharness: %s\n", o.prop, describe(failed), h.Note)), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", o.prop, rf)
	}
	if len(failed) > 0 {
		seen := map[string]bool{}
		for _, f := range failed {
			if !seen[f.Name] {
				seen[f.Name] = true
				fmt.Printf("obligation not discharged (%s): %s\n", f.Res, f.Name)
			}
		}
	}
	for _, f := range h.Failures {
		fmt.Println("failing input:", clip(f, 600))
	}
	if h.Note != "" {
		fmt.Println("harness:", clip(h.Note, 1500))
	}
	ev := map[string]any{
		"property": o.prop, "tier": o.tier, "seed": seed, "level": "proof",
		"coverage": cov, "wall_s": round1(time.Since(t0).Seconds()), "violations": viol,
		"assumptions": assumptions(ext, depends, trusted),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(units) == 0 && ret == 0 {
		fmt.Fprintln(os.Stderr, "no contract states property", o.prop)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged (%d by simplification), %d functions and lemmas, harness cases %d, %.1fs\n", o.prop, nTotal+nTriv, nDischarged, nTriv, len(units), h.Cases, time.Since(t0).Seconds())
	return ret
}

func sumMap(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}
func round1(f float64) float64 { return float64(int(f*10+0.5)) / 10 }

func trustedBase(ext, trusted []string) []string {
	out := []string{
		"the verification condition generator in /verif/engine (go/ssa to bit-vector obligations)",
		"golang.org/x/tools/go/ssa as the meaning of the source",
		"z3 4.8.12 / newer z3 / cvc5 1.1.2",
	}
	for _, n := range ext {
		out = append(out, "model of "+n)
	}
	for _, t := range trusted {
		out = append(out, "contract assumed: "+t)
	}
	return out
}

func assumptions(ext, dep, trusted []string) []string {
	out := []string{
		"integers are exact 64-bit (machine arithmetic, nothing mathematical); objects are smaller than 2^40 bytes",
		"no data races: each function is verified as sequential code",
		"package-level objects built by initialisers are reached only through their variables",
		"parameters of distinct pointer types with the same element type may alias; results of external calls are well formed",
	}
	for _, n := range ext {
		out = append(out, "external function by assumed contract: "+n)
	}
	for _, n := range dep {
		out = append(out, "callee by contract: "+n)
	}
	for _, t := range trusted {
		out = append(out, "trusted: "+t)
	}
	return out
}

func describe(failed []*Obl) string {
	var sb strings.Builder
	seen := map[string]int{}
	for _, f := range failed {
		seen[f.Name]++
		if seen[f.Name] > 2 {
			continue
		}
		fmt.Fprintf(&sb, "obligation: %s\n  kind: %s\n  at: %s\n  verifier: %s by %s\n  %s\n", f.Name, f.Kind, f.Pos, f.Res, f.By, f.Detail)
		for _, l := range f.Trace {
			fmt.Fprintf(&sb, "  path: %s\n", l)
		}
	}
	return sb.String()
}

func dumpFailed(dir string, obls []*Obl) {
	os.MkdirAll(dir, 0o755)
	n := 0
	for _, ob := range obls {
		if (ob.Res == "discharged" && os.Getenv("VDUMPALL") == "") || ob.Goal == nil {
			continue
		}
		n++
		ts := append(append([]*Term{}, ob.Hyp...), Not(ob.Goal))
		s := script(append(append([]*Term{}, ts...), frameFacts(ts)...), nil)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("o%03d.smt2", n)), []byte("; "+ob.Name+"\n"+s), 0o644)
	}
}

// ---- the replay harness: Go tests laid over the repository

func runHarness(o *options, seed int) *harnessResult {
	r := &harnessResult{}
	cfgB, err := os.ReadFile(filepath.Join(o.verif, "harness", "harness.json"))
	if err != nil {
		r.Note = "no harness"
		return r
	}
	var cfg map[string]struct {
		Pkg   string   `json:"pkg"`
		Files []string `json:"files"`
		Run   string   `json:"run"`
		User  bool     `json:"user"` // run without privileges: the code under test writes files
	}
	if err := json.Unmarshal(cfgB, &cfg); err != nil {
		r.Note = "harness.json: " + err.Error()
		return r
	}
	var keys []string
	for k := range cfg {
		if k == o.prop || strings.HasPrefix(k, o.prop+".") {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		r.Note = "no harness for this property"
		return r
	}
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "vharness")
	if err != nil {
		r.Note = err.Error()
		return r
	}
	defer os.RemoveAll(tmp)
	os.Chmod(tmp, 0o755)
	r.Pass = true
	for _, k := range keys {
		c := cfg[k]
		ov := map[string]map[string]string{"Replace": {}}
		for _, f := range append(append([]string{}, c.Files...), "common_verif_test.go") {
			src := filepath.Join(o.verif, "harness", f)
			b, err := os.ReadFile(src)
			if err != nil {
				continue
			}
			base := filepath.Base(f)
			if strings.Contains(string(b), "package PKG\n") {
				pkgName := filepath.Base(c.Pkg)
				b = []byte(strings.Replace(string(b), "package PKG", "package "+pkgName, 1))
				src = filepath.Join(tmp, strings.ReplaceAll(c.Pkg, "/", "_")+"_"+base)
				os.WriteFile(src, b, 0o644)
			}
			ov["Replace"][filepath.Join(o.repo, c.Pkg, base)] = src
		}
		ob, _ := json.Marshal(ov)
		of := filepath.Join(tmp, "overlay.json")
		os.WriteFile(of, ob, 0o644)
		bin := filepath.Join(tmp, "t.test")
		build := exec.Command("go", "test", "-c", "-o", bin, "-overlay", of, "./"+c.Pkg)
		build.Dir = o.repo
		build.Env = goEnv()
		if out, err := build.CombinedOutput(); err != nil {
			r.Note += fmt.Sprintf("harness for %s does not build against this code: %s; ", c.Pkg, clip(string(out), 1500))
			continue
		}
		work := filepath.Join(tmp, "work")
		os.MkdirAll(work, 0o755)
		secs := "40"
		if o.tier == "thorough" {
			secs = "300"
		}
		run := exec.Command("timeout", "-k", "5", "600", bin, "-test.run", c.Run, "-test.timeout", "590s", "-test.count", "1")
		run.Dir = work
		if c.User && os.Getuid() == 0 {
			os.Chown(work, 65534, 65534)
			run.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		}
		run.Env = append(goEnv(), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+o.tier, "VERIF_SECS="+secs, "TMPDIR="+work, "VERIF_PROP="+o.prop, "GOMEMLIMIT=8GiB")
		out, err := run.CombinedOutput()
		r.Ran = true
		r.Output += string(out)
		nf := len(r.Failures)
		for _, l := range strings.Split(string(out), "\n") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, "VERIF-FAIL "); i >= 0 && len(r.Failures) < 20 {
				r.Failures = append(r.Failures, l[i+len("VERIF-FAIL "):])
			}
			if i := strings.Index(l, "VERIF-CASES "); i >= 0 {
				n, _ := strconv.ParseInt(strings.Fields(l[i+len("VERIF-CASES "):])[0], 10, 64)
				r.Cases += n
			}
			if i := strings.Index(l, "VERIF-SAMPLE "); i >= 0 && len(r.Samples) < 8 {
				r.Samples = append(r.Samples, clip(l[i+len("VERIF-SAMPLE "):], 300))
			}
		}
		if err != nil {
			r.Pass = false
			if len(r.Failures) == nf {
				// a crash, a timeout or a test failure without details
				r.Failures = append(r.Failures, "the harness run ended abnormally: "+err.Error()+": "+clip(lastLines(string(out), 40), 3000))
			}
		}
	}
	r.Dur = time.Since(t0).Seconds()
	return r
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	// keep the interesting part: from the first panic on
	for i, x := range l {
		if strings.HasPrefix(x, "panic:") || strings.HasPrefix(x, "fatal error:") || strings.HasPrefix(x, "--- FAIL") {
			l = l[i:]
			if len(l) > n {
				l = l[:n]
			}
			return strings.Join(l, " | ")
		}
	}
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, " | ")
}
