package main

// SMT-LIB printing and solver back ends.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func bvLit(w int, v *big.Int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*s", w/4, v.Text(16))
	}
	return fmt.Sprintf("#b%0*s", w, v.Text(2))
}

func sym(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!') {
			return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
		}
	}
	return n
}

func strSym(lit string) string { return fmt.Sprintf("|str:%x|", lit) }

// printTerm prints t; names maps terms to already defined names.
func printTerm(t *Term, names map[*Term]string) string {
	var sb strings.Builder
	writeTerm(&sb, t, names)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case OVar:
		sb.WriteString(sym(t.Name))
		return
	case OBound:
		sb.WriteString(sym(t.Name))
		return
	case OConst:
		sb.WriteString(bvLit(t.S.W, t.V))
		return
	case OTrue:
		sb.WriteString("true")
		return
	case OFalse:
		sb.WriteString("false")
		return
	case OStrLit:
		sb.WriteString(strSym(t.Name))
		return
	case OForall, OExists:
		if t.Op == OForall {
			sb.WriteString("(forall (")
		} else {
			sb.WriteString("(exists (")
		}
		for _, b := range t.Bound {
			fmt.Fprintf(sb, "(%s %s)", sym(b.Name), b.S)
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.Args[0], names)
		if len(t.Pats) > 0 {
			for _, p := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writeTerm(sb, x, names)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	var head string
	switch t.Op {
	case OApp:
		if len(t.Args) == 0 {
			sb.WriteString(appSym(t))
			return
		}
		head = appSym(t)
	case OFP:
		if len(t.Args) == 0 {
			sb.WriteString(t.Name)
			return
		}
		head = t.Name
	case OExtract:
		head = fmt.Sprintf("(_ extract %d %d)", t.I, t.J)
	case OSext:
		head = fmt.Sprintf("(_ sign_extend %d)", t.S.W-t.Args[0].S.W)
	case OConstArr:
		head = fmt.Sprintf("(as const %s)", t.S)
	default:
		head = opName[t.Op]
	}
	if (t.Op == OAdd || t.Op == OConcat || t.Op == OMul) && len(t.Args) > 2 {
		for i := 0; i < len(t.Args)-1; i++ {
			sb.WriteString("(" + head + " ")
			writeTerm(sb, t.Args[i], names)
			sb.WriteByte(' ')
		}
		writeTerm(sb, t.Args[len(t.Args)-1], names)
		for i := 0; i < len(t.Args)-1; i++ {
			sb.WriteByte(')')
		}
		return
	}
	sb.WriteString("(" + head)
	for _, a := range t.Args {
		sb.WriteByte(' ')
		writeTerm(sb, a, names)
	}
	sb.WriteByte(')')
}

// collect visits all subterms once (children first).
func collect(ts []*Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	var v func(t *Term)
	v = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			v(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				v(x)
			}
		}
		f(t)
	}
	for _, t := range ts {
		v(t)
	}
}

const maxObjLen = uint64(1) << 47

// stringAxioms: facts about string terms occurring in ts.
func stringAxioms(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	lits := []*Term{}
	add := func(t *Term) {
		if t.S != StrS || t.HasB || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case OStrLit:
			lits = append(lits, t)
		case OIte:
		default:
		}
		raw := intern(&Term{Op: OApp, S: U64S, Name: "slen", Args: []*Term{t}})
		out = append(out, Ule(raw, C64(maxObjLen)))
		if t.Op == OStrLit {
			out = append(out, Eq(raw, C64(uint64(len(t.Name)))))
			if len(t.Name) <= 64 {
				sa := intern(&Term{Op: OApp, S: ArrS(U64S, U8S), Name: "sarr", Args: []*Term{t}})
				for i := 0; i < len(t.Name); i++ {
					out = append(out, Eq(Select(sa, C64(uint64(i))), BV(8, uint64(t.Name[i]))))
				}
			}
		}
		if t.Op == OApp && t.Name == "sof" {
			out = append(out, Eq(raw, t.Args[2]))
			sa := intern(&Term{Op: OApp, S: ArrS(U64S, U8S), Name: "sarr", Args: []*Term{t}})
			i := BVar("sofi", U64S)
			out = append(out, Forall([]*Term{i}, [][]*Term{{Select(sa, i)}},
				Implies(Ult(i, t.Args[2]), Eq(Select(sa, i), Select(t.Args[0], Add(t.Args[1], i))))))
		}
		if t.Op == OApp && t.Name == "sconcat" {
			a, b := t.Args[0], t.Args[1]
			out = append(out, Eq(raw, Add(slenOf(a), slenOf(b))))
		}
	}
	collect(ts, add)
	for i := range lits {
		for j := 0; j < i; j++ {
			out = append(out, Not(intern(&Term{Op: OEq, S: BoolS, Args: []*Term{lits[j], lits[i]}})))
		}
	}
	// extensionality for equality atoms
	collect(ts, func(t *Term) {
		if t.Op == OEq && !t.HasB && t.Args[0].S == StrS {
			a, b := t.Args[0], t.Args[1]
			k := Var(fmt.Sprintf("ext!%d", t.ID), U64S)
			ra := rawLen(a)
			rb := rawLen(b)
			out = append(out, Or(t, Not(Eq(ra, rb)), And(Ult(k, ra), Not(Eq(StrAt(a, k), StrAt(b, k))))))
		}
	})
	return out
}
func rawLen(a *Term) *Term { return slenOf(a) }

// script builds a complete SMT-LIB script asserting all of ts.
func script(ts []*Term, model []*Term) string { return scriptAbs(ts, model, false) }

// withAxioms adds the facts about the functions that occur.
func withAxioms(ts []*Term) []*Term {
	all := append([]*Term{}, ts...)
	for r := 0; r < 2; r++ {
		ax := stringAxioms(all)
		base := map[*Term]bool{}
		for _, t := range all {
			base[t] = true
		}
		n := 0
		for _, a := range ax {
			if !base[a] {
				base[a] = true
				all = append(all, a)
				n++
			}
		}
		if n == 0 {
			break
		}
	}
	return append(all, extraAxioms(all)...)
}

// scriptAbs: with abs, products by constants are abstracted ("" if there are none).
func scriptAbs(ts []*Term, model []*Term, abs bool) string {
	return scriptOf(withAxioms(ts), model, abs)
}

// groundOnly drops the quantified assertions (a weakening).
func groundOnly(ts []*Term) []*Term {
	var out []*Term
	for _, t := range ts {
		if !t.HasQ {
			out = append(out, t)
		}
	}
	return out
}

func scriptOf(all []*Term, model []*Term, abs bool) string {
	div := false
	if abs {
		var ok bool
		all, ok = abstractMul(all)
		div = divisions64(all)
		if !ok && !div {
			return ""
		}
	}
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	body := scriptBody(all, model, map[string]bool{}, nil)
	if div {
		for _, op := range []string{"bvudiv", "bvurem", "bvsdiv", "bvsrem"} {
			if strings.Contains(body, "("+op+" ") {
				fmt.Fprintf(&sb, "(declare-fun abs.%s ((_ BitVec 64) (_ BitVec 64)) (_ BitVec 64))\n", op)
				body = strings.ReplaceAll(body, "("+op+" ", "(abs."+op+" ")
			}
		}
	}
	sb.WriteString(body)
	return sb.String()
}

// divisions64: there are divisions by something that is not a constant, and
// all divisions are on 64 bits, so that leaving them uninterpreted may help.
func divisions64(ts []*Term) bool {
	some, all := false, true
	collect(ts, func(t *Term) {
		switch t.Op {
		case OUdiv, OUrem, OSdiv, OSrem:
			some = some || t.Args[1].Op != OConst
			all = all && t.S.W == 64
		}
	})
	return some && all
}

// extraAxioms can be set by the model layer (facts on uninterpreted functions).
var axiomHooks []func(ts []*Term) []*Term

func extraAxioms(ts []*Term) []*Term {
	var out []*Term
	all := ts
	have := map[*Term]bool{}
	for r := 0; r < 4; r++ {
		n := len(out)
		for _, h := range axiomHooks {
			for _, a := range h(all) {
				if !have[a] {
					have[a] = true
					out = append(out, a)
					all = append(all[:len(all):len(all)], a)
				}
			}
		}
		if n == len(out) {
			break
		}
	}
	return out
}

func scriptBody(all, model []*Term, declared map[string]bool, persist map[*Term]string) string {
	var sb strings.Builder
	uses := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	var v func(t *Term)
	v = func(t *Term) {
		uses[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			v(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				v(x)
			}
		}
		order = append(order, t)
	}
	for _, t := range all {
		v(t)
	}
	for _, t := range model {
		v(t)
	}
	declSort := func(s *Sort) {}
	declSort = func(s *Sort) {
		switch s.K {
		case SU:
			if !declared["sort "+s.Name] {
				declared["sort "+s.Name] = true
				fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s.Name)
			}
		case SArr:
			declSort(s.Key)
			declSort(s.Val)
		}
	}
	names := persist
	if names == nil {
		names = map[*Term]string{}
	}
	for _, t := range order {
		declSort(t.S)
		switch t.Op {
		case OVar:
			n := sym(t.Name)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", n, t.S)
				if b, ok := refBounds.Load(t.Name); ok {
					x := b.([2]uint64)
					if x[0] > 0 {
						fmt.Fprintf(&sb, "(assert (bvuge %s #x%08x))\n", n, x[0])
					}
					if x[1] < 1<<32 {
						fmt.Fprintf(&sb, "(assert (bvult %s #x%08x))\n", n, x[1])
					}
				}
				if f, ok := frames.Load(t.Name); ok {
					_ = f
				}
			}
		case OStrLit:
			n := strSym(t.Name)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&sb, "(declare-fun %s () Str)\n", n)
			}
		case OApp:
			n := appSym(t)
			if !declared[n] {
				declared[n] = true
				fmt.Fprintf(&sb, "(declare-fun %s (", n)
				for i, a := range t.Args {
					declSort(a.S)
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(a.S.String())
				}
				fmt.Fprintf(&sb, ") %s)\n", t.S)
			}
		}
		if len(t.Args) > 0 && !t.HasB && uses[t] > 1 && names[t] == "" {
			d := printTerm(t, names)
			n := fmt.Sprintf("$t%d", t.ID)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.S, d)
			names[t] = n
		}
	}
	if persist != nil {
		return sb.String()
	}
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", printTerm(t, names))
	}
	sb.WriteString("(check-sat)\n")
	if len(model) > 0 {
		sb.WriteString("(get-value (")
		for _, m := range model {
			sb.WriteString(printTerm(m, names) + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

// frameFacts gives quantified frame axioms for havocked memories occurring in ts.
func frameFacts(ts []*Term) []*Term {
	var out []*Term
	done := map[string]bool{}
	for {
		n := 0
		collect(append(append([]*Term{}, ts...), out...), func(t *Term) {
			if t.Op != OVar || done[t.Name] {
				return
			}
			f, ok := frames.Load(t.Name)
			if !ok {
				return
			}
			done[t.Name] = true
			n++
			fr := f.(*frameInfo)
			r := BVar("fr!r", RefS)
			var cs []*Term
			cs = append(cs, Ult(r, Ref(fr.water)))
			for _, w := range fr.written {
				cs = append(cs, Not(Eq(r, w)))
			}
			sel := intern(&Term{Op: OSelect, S: t.S.Val, Args: []*Term{t, r}})
			out = append(out, Forall([]*Term{r}, [][]*Term{{sel}}, Implies(And(cs...), Eq(sel, Select(fr.old, r)))))
		})
		if n == 0 {
			return out
		}
	}
}

// ---- running solvers

type solverSpec struct {
	name string
	args []string
}

var solvers = []solverSpec{
	{"z3-new", []string{"z3-new", "-in", "smt.random_seed=1"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "--quiet", "--produce-models"}},
	{"cvc5-int", []string{"cvc5", "--lang=smt2", "--quiet", "--produce-models", "--solve-bv-as-int=sum"}},
	{"z3", []string{"z3", "-in", "smt.random_seed=1"}},
}

type solveResult struct {
	res    string // unsat sat unknown
	solver string
	out    string
	dur    time.Duration
}

var solverTime = map[string]time.Duration{}
var solverCount = map[string]int{}
var solverMu sync.Mutex

func runSolver(ctx context.Context, s solverSpec, scr string, timeout time.Duration) solveResult {
	ctx, cancel := context.WithTimeout(ctx, timeout)
	defer cancel()
	args := append([]string{}, s.args[1:]...)
	if strings.HasPrefix(s.name, "cvc5") {
		args = append(args, fmt.Sprintf("--tlimit=%d", timeout.Milliseconds()))
	}
	cmd := exec.CommandContext(ctx, s.args[0], args...)
	cmd.Stdin = strings.NewReader(scr)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	solverMu.Lock()
	solverTime[s.name] += d
	solverMu.Unlock()
	o := out.String()
	r := "unknown"
	for _, l := range strings.SplitN(o, "\n", 4) {
		switch strings.TrimSpace(l) {
		case "unsat":
			r = "unsat"
		case "sat":
			r = "sat"
		default:
			continue
		}
		break
	}
	if r == "sat" && s.name == "cvc5-int" {
		r = "unknown"
	}
	if strings.Contains(o, "(error") && !strings.HasPrefix(o, "unsat") && !strings.HasPrefix(o, "sat") {
		r = "unknown"
	}
	return solveResult{r, s.name, o, d}
}

var solveSem = make(chan struct{}, 8)

// solve decides the conjunction ts.
func solve(ts []*Term, model []*Term, timeout time.Duration) solveResult {
	for _, t := range ts {
		if t == TFalse {
			return solveResult{res: "unsat", solver: "simplifier"}
		}
	}
	full := append(append([]*Term{}, ts...), frameFacts(ts)...)
	closed := withAxioms(full)
	scr := scriptOf(closed, model, false)
	q := 3 * time.Second
	if timeout < q {
		q = timeout
	}
	run := func(jobs []job, timeout time.Duration) (solveResult, bool) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan solveResult, len(jobs))
		for _, j := range jobs {
			j := j
			go func() {
				solveSem <- struct{}{}
				defer func() { <-solveSem }()
				if ctx.Err() != nil {
					ch <- solveResult{res: "unknown", solver: j.s.name}
					return
				}
				r := runSolver(ctx, j.s, j.scr, timeout)
				if j.abs {
					r.solver += " (weakened hypotheses)"
					if r.res == "sat" {
						r.res = "unknown"
					}
				}
				ch <- r
			}()
		}
		var last solveResult
		for range jobs {
			x := <-ch
			if x.res != "unknown" {
				noteSolved(x)
				return x, true
			}
			if ctx.Err() == nil {
				last = x
			}
		}
		last.res = "unknown"
		return last, false
	}
	// quick try
	jobs := []job{{solvers[0], scr, false}}
	ascr, iscr, iascr := "", "", ""
	if len(model) == 0 {
		ascr = scriptOf(closed, nil, true)
		if w, ok := instantiateAll(closed); ok {
			w = groundOnly(withAxioms(w))
			iscr = scriptOf(w, nil, false)
			iascr = scriptOf(w, nil, true)
			if iascr != "" {
				jobs = append(jobs, job{solvers[0], iascr, true})
			} else {
				jobs = append(jobs, job{solvers[0], iscr, true})
			}
		}
	}
	if ascr != "" {
		jobs = append(jobs, job{solvers[0], ascr, true})
	}
	r, ok := run(jobs, q)
	if d := os.Getenv("VSLOW"); d != "" && (!ok || r.dur > time.Second) {
		slowN.Add(1)
		os.WriteFile(fmt.Sprintf("%s/s%03d-%v.smt2", d, slowN.Load(), r.res), []byte(scr), 0o644)
		if ascr != "" {
			os.WriteFile(fmt.Sprintf("%s/s%03d-%v-abs.smt2", d, slowN.Load(), r.res), []byte(ascr), 0o644)
		}
	}
	if d := os.Getenv("VSLOW"); d != "" && iscr != "" && (!ok || r.dur > time.Second) {
		os.WriteFile(fmt.Sprintf("%s/s%03d-%v-inst.smt2", d, slowN.Load(), r.res), []byte(iscr), 0o644)
		os.WriteFile(fmt.Sprintf("%s/s%03d-%v-instabs.smt2", d, slowN.Load(), r.res), []byte(iascr), 0o644)
	}
	if ok || timeout <= q {
		return r
	}
	jobs = nil
	for _, s := range solvers {
		jobs = append(jobs, job{s, scr, false})
	}
	if ascr != "" {
		jobs = append(jobs, job{solvers[1], ascr, true}, job{solvers[0], ascr, true})
	}
	if iscr != "" {
		jobs = append(jobs, job{solvers[0], iscr, true}, job{solvers[1], iscr, true})
	}
	if iascr != "" {
		jobs = append(jobs, job{solvers[0], iascr, true})
	}
	r, _ = run(jobs, timeout)
	if d := os.Getenv("VSLOW2"); d != "" && r.dur > 8*time.Second && r.res == "unsat" {
		n := slowN.Add(1)
		os.WriteFile(fmt.Sprintf("%s/t%03d-%s-%.0f.smt2", d, n, strings.Fields(r.solver)[0], r.dur.Seconds()), []byte(scr), 0o644)
		os.WriteFile(fmt.Sprintf("%s/t%03d-inst.smt2", d, n), []byte(iscr), 0o644)
	}
	return r
}

var slowN atomic.Int64

type job struct {
	s   solverSpec
	scr string
	abs bool
}

func noteSolved(r solveResult) {
	solverMu.Lock()
	solverCount[r.solver+" "+r.res]++
	solverMu.Unlock()
}

// ---- incremental feasibility checker

type incr struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	names    map[*Term]string
	cache    map[string]string
	n        int
	dead     bool
}

func newIncr() *incr {
	c := &incr{declared: map[string]bool{}, names: map[*Term]string{}, cache: map[string]string{}}
	c.start()
	return c
}
func (c *incr) start() {
	c.cmd = exec.Command("z3-new", "-in", "smt.random_seed=1")
	c.in, _ = c.cmd.StdinPipe()
	o, _ := c.cmd.StdoutPipe()
	c.out = bufio.NewReader(o)
	if err := c.cmd.Start(); err != nil {
		c.dead = true
		return
	}
	io.WriteString(c.in, "(set-option :global-declarations true)\n(set-option :timeout 400)\n(set-logic ALL)\n")
}
func (c *incr) close() {
	if c == nil || c.cmd == nil || c.cmd.Process == nil {
		return
	}
	c.in.Close()
	c.cmd.Process.Kill()
	c.cmd.Wait()
}

// check returns sat/unsat/unknown for the quantifier-free part of ts.
func (c *incr) check(ts []*Term) string {
	if c.dead {
		return "unknown"
	}
	var qf []*Term
	for _, t := range ts {
		if t == TFalse {
			return "unsat"
		}
		if t.Op == OAnd {
			for _, a := range t.Args {
				if !a.HasQ && !a.HasB {
					qf = append(qf, a)
				}
			}
			continue
		}
		if !t.HasQ && t != TTrue {
			qf = append(qf, t)
		}
	}
	sort.Slice(qf, func(i, j int) bool { return qf[i].ID < qf[j].ID })
	var kb strings.Builder
	for _, t := range qf {
		fmt.Fprintf(&kb, "%d,", t.ID)
	}
	key := kb.String()
	if r, ok := c.cache[key]; ok {
		return r
	}
	var ax []*Term
	for _, a := range stringAxioms(qf) {
		if !a.HasQ {
			ax = append(ax, a)
		}
	}
	for _, a := range extraAxioms(qf) {
		if !a.HasQ {
			ax = append(ax, a)
		}
	}
	all := append(append([]*Term{}, qf...), ax...)
	c.n++
	var sb strings.Builder
	sb.WriteString(scriptBody(all, nil, c.declared, c.names))
	sb.WriteString("(push 1)\n")
	for _, t := range all {
		fmt.Fprintf(&sb, "(assert %s)\n", printTerm(t, c.names))
	}
	sb.WriteString("(check-sat)\n(pop 1)\n(echo \"done\")\n")
	io.WriteString(c.in, sb.String())
	res := "unknown"
	for {
		l, err := c.out.ReadString('\n')
		if err != nil {
			c.dead = true
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if l == "done" || l == "\"done\"" {
			break
		}
		if l == "sat" || l == "unsat" {
			res = l
		} else if strings.HasPrefix(l, "(error") {
			warnOnce("incremental solver: " + l)
			res = "unknown"
		}
	}
	c.cache[key] = res
	return res
}

var warned sync.Map

func warnOnce(s string) {
	if _, dup := warned.LoadOrStore(s, true); !dup {
		fmt.Println("WARN", s)
	}
}

// appSym: the symbol of an uninterpreted function; functions that are used at
// several sorts get a symbol for each.
func appSym(t *Term) string {
	var sb strings.Builder
	for _, a := range t.Args {
		sb.WriteString(a.S.String())
		sb.WriteByte(' ')
	}
	sb.WriteString(t.S.String())
	l, _ := appSigs.LoadOrStore(t.Name, &sigList{})
	k := l.(*sigList).index(sb.String())
	if k == 0 {
		return sym(t.Name)
	}
	return sym(fmt.Sprintf("%s~%d", t.Name, k))
}

var appSigs sync.Map

type sigList struct {
	mu sync.Mutex
	l  []string
}

func (s *sigList) index(g string) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i, x := range s.l {
		if x == g {
			return i
		}
	}
	s.l = append(s.l, g)
	return len(s.l) - 1
}
