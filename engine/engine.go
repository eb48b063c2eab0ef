package main

// Engine: program wide state, package level variables, verification units.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	prog    *Program
	repo    string
	verbose bool

	loopMu sync.Mutex
	loops  map[*ssa.Function]map[*ssa.BasicBlock]*Loop

	gmu   sync.Mutex
	grefs map[*ssa.Global]*Term
	gvals map[*ssa.Global]Value
	base  *State

	specs *SpecFile

	statMu    sync.Mutex
	ninv      int
	ninvJobs  int
	oblTO     time.Duration
	useNotes  map[string]bool
	discharge []*Obl
}

// Unit is one function (or lemma) under contract.
type Unit struct {
	Name       string
	C          *Contract
	AllowGo    bool
	Terminates bool
	MaxAlloc   uint64
	Props      []string
}

func (u *Unit) SafetyProps() []string {
	if len(u.C.SafetyProps) > 0 {
		return u.C.SafetyProps
	}
	return u.C.Props
}
func (u *Unit) TermProps() []string { return u.SafetyProps() }

func newEngine(p *Program) *Engine {
	e := &Engine{prog: p, repo: p.repo, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, grefs: map[*ssa.Global]*Term{},
		gvals: map[*ssa.Global]Value{}, useNotes: map[string]bool{}, oblTO: 40 * time.Second}
	return e
}

func (e *Engine) countInv(u *Unit, n, jobs int) {
	e.statMu.Lock()
	e.ninv += n
	e.ninvJobs += jobs
	e.statMu.Unlock()
}

func floatConst(f float64) *Term {
	b := math.Float64bits(f)
	return FPOp(fmt.Sprintf("((_ to_fp 11 53) #x%016x)", b), F64S)
}

// ---- package level variables

func (e *Engine) globalRef(g *ssa.Global) *Term {
	e.gmu.Lock()
	defer e.gmu.Unlock()
	if r, ok := e.grefs[g]; ok {
		return r
	}
	n := len(e.grefs)
	if n >= 2000 {
		fail("too many package-level variables")
	}
	r := Ref(uint64(2048 + n))
	e.grefs[g] = r
	return r
}

func errConst(name string) *IfaceV {
	t := errStringType()
	tagMu.Lock()
	n, ok := errConstTab[name]
	if !ok {
		n = uint64(len(errConstTab) + 1)
		errConstTab[name] = n
	}
	tagMu.Unlock()
	p := &PtrV{Ref: Ref(1024 + n), Root: t, T: t}
	return &IfaceV{Tag: typeTag(types.NewPointer(t)), Pl: Zext(p.Ref, 64), Dyn: p, DynT: types.NewPointer(t)}
}

var errConstTab = map[string]uint64{}
var errStrT types.Type

func errStringType() types.Type { return errStrT }

// globalValue: the value of a package level variable that is constant after
// initialisation; nil if it may change.
func (e *Engine) globalValue(g *ssa.Global) Value {
	e.gmu.Lock()
	v, ok := e.gvals[g]
	e.gmu.Unlock()
	if ok {
		return v
	}
	t := g.Type().(*types.Pointer).Elem()
	pp := ""
	if g.Pkg != nil {
		pp = g.Pkg.Pkg.Path()
	}
	var r Value
	if !(pp == modPath || strings.HasPrefix(pp, modPath+"/")) {
		switch {
		case types.TypeString(t, nil) == "error":
			r = errConst(pp + "." + g.Name())
		case pp == "encoding/binary":
			r = zeroValue(t)
		case pp == "os" && (g.Name() == "Stdout" || g.Name() == "Stderr" || g.Name() == "Stdin" || g.Name() == "Args"):
			if _, isPtr := under(t).(*types.Pointer); isPtr {
				r = &PtrV{Ref: e.globalRef(g), Root: under(t).(*types.Pointer).Elem(), T: under(t).(*types.Pointer).Elem()}
			}
		}
	}
	e.gmu.Lock()
	e.gvals[g] = r
	e.gmu.Unlock()
	return r
}

// stableGlobal: g is only written by package initialisation and its address does not escape.
func (e *Engine) stableGlobals(pk *ssa.Package) map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			out[g] = true
		}
	}
	var visit func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	var loadOnly func(v ssa.Value) bool
	loadOnly = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !loadOnly(r) {
					return false
				}
			case *ssa.IndexAddr:
				if !loadOnly(r) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, op := range in.Operands(ops) {
					g, ok := (*op).(*ssa.Global)
					if !ok || !out[g] {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
						continue
					case *ssa.FieldAddr:
						if loadOnly(i) {
							continue
						}
					case *ssa.IndexAddr:
						if loadOnly(i) {
							continue
						}
					}
					if f.Name() == "init" && f.Synthetic != "" {
						continue
					}
					out[g] = false
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	for _, f := range e.prog.all() {
		if f.Pkg == pk {
			visit(f)
		}
	}
	for _, m := range pk.Members {
		if f, ok := m.(*ssa.Function); ok {
			visit(f)
		}
	}
	return out
}

// initState runs the initialisers of the module's packages symbolically.
func (e *Engine) initState() {
	st := newState()
	var order []*ssa.Package
	done := map[string]bool{}
	var dfs func(p *types.Package)
	dfs = func(p *types.Package) {
		if done[p.Path()] || !(p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/")) {
			return
		}
		done[p.Path()] = true
		for _, i := range p.Imports() {
			dfs(i)
		}
		if sp := e.prog.pkgs[p.Path()]; sp != nil {
			order = append(order, sp)
		}
	}
	for _, n := range sortedKeys(e.prog.pkgs) {
		dfs(e.prog.pkgs[n].Pkg)
	}
	if ep := e.prog.pkgs["errors"]; ep != nil {
		errStrT = ep.Pkg.Scope().Lookup("errorString").Type()
	}
	for _, pk := range order {
		init := pk.Func("init")
		if init == nil {
			continue
		}
		ok := false
		st2 := st.clone()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if er, is := r.(EngineErr); is {
						if e.verbose {
							fmt.Fprintf(os.Stderr, "init of %s: %s\n", pk.Pkg.Path(), er.msg)
						}
						return
					}
					panic(r)
				}
			}()
			x := e.newX(&Unit{Name: "init " + pk.Pkg.Path(), C: &Contract{}})
			x.initMode = true
			outs := x.callFn(init, nil, nil, st2, nil)
			for _, o := range outs {
				if !o.exit {
					st2 = o.st
					ok = true
				}
			}
		}()
		if !ok {
			continue
		}
		st = st2
		stable := e.stableGlobals(pk)
		for _, m := range pk.Members {
			g, is := m.(*ssa.Global)
			if !is || !stable[g] || g.Name() == "init$guard" {
				continue
			}
			t := g.Type().(*types.Pointer).Elem()
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, is := r.(EngineErr); !is {
							panic(r)
						}
					}
				}()
				v := st.load(&PtrV{Ref: e.globalRef(g), Root: t, T: t})
				e.gmu.Lock()
				e.gvals[g] = v
				e.gmu.Unlock()
			}()
		}
	}
	// Keep the contents of objects allocated by initialisers, forget the variables
	// that may change afterwards.
	e.base = newState()
	e.base.alloc = st.alloc
	for n, t := range st.mem {
		if strings.HasPrefix(n, "e:") {
			e.base.mem[n] = onlyAbove(n, t)
		}
	}
}

// onlyAbove rebuilds t keeping only stores at references of initialiser objects.
func onlyAbove(name string, t *Term) *Term {
	switch t.Op {
	case OStore:
		r := onlyAbove(name, t.Args[0])
		if v, ok := t.Args[1].U64(); ok && v >= firstAlloc {
			return Store(r, t.Args[1], t.Args[2])
		}
		return r
	case OVar:
		return t
	}
	return Var("M0:"+name, t.S)
}

func (e *Engine) newX(u *Unit) *X {
	return &X{eng: e, unit: u, trivial: map[string]int{}, covered: map[string]bool{}, loopMemo: map[string]*loopMemo{},
		inlined: map[string]bool{}, assumedC: map[string]bool{}, externs: map[string]bool{},
		deadline: time.Now().Add(600 * time.Second), rng: 0}
}

// ---- verifying one unit

type UnitResult struct {
	Unit     *Unit
	Obls     []*Obl
	Trivial  map[string]int
	Inlined  []string
	Assumed  []string
	Externs  []string
	Err      string
	Paths    int
	Dur      time.Duration
	Loops    map[string]*loopMemo
	Covered  bool
	Covers   map[string]bool
	NReturns int
}

// bindNames gives the parameter names of the contract to the arguments.
func (e *Engine) setupParams(x *X, fn *ssa.Function, c *Contract, st *State) ([]Value, map[string]SV) {
	vars := map[string]SV{}
	var args []Value
	if len(c.Params) != len(fn.Params) {
		fail("contract of %s names %d parameters, the function has %d", c.Fn, len(c.Params), len(fn.Params))
	}
	for i, pa := range fn.Params {
		n := c.Params[i]
		if n == "_" || n == "" {
			n = fmt.Sprintf("arg%d", i)
		}
		v := x.symbolicArg(st, pa.Type(), "p:"+n, c)
		args = append(args, v)
		vars[n] = SV{v: v, t: pa.Type()}
		x.addModel(n, v, pa.Type())
	}
	return args, vars
}

func (x *X) symbolicArg(st *State, t types.Type, name string, c *Contract) Value {
	if sg, ok := under(t).(*types.Signature); ok {
		_ = sg
		return &FuncV{Sym: Var(name, RefS)}
	}
	v := symbolic(t, name, firstAlloc)
	if pt, ok := under(t).(*types.Pointer); ok && c != nil && c.ElemPtr {
		_ = pt
	}
	st.wf(v, t)
	return v
}

func (x *X) addModel(n string, v Value, t types.Type) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(EngineErr); !ok {
				panic(r)
			}
		}
	}()
	fs := flatten(v, t)
	for i, l := range leavesOf(t) {
		if i > 12 {
			break
		}
		x.model = append(x.model, namedTerm{n + l.path, fs[i]})
	}
}

func (e *Engine) runUnit(u *Unit) (res *UnitResult) {
	t0 := time.Now()
	memo := map[string]*loopMemo{}
	for i := 0; ; i++ {
		res, again := e.tryUnit(u, t0, i == 8, memo)
		if !again {
			return res
		}
		for _, m := range memo { // what was given up stays so
			m.ok = map[string]bool{}
		}
	}
}

func (e *Engine) tryUnit(u *Unit, t0 time.Time, noTrust bool, memo map[string]*loopMemo) (res *UnitResult, again bool) {
	res = &UnitResult{Unit: u, Covers: map[string]bool{}}
	x := e.newX(u)
	x.noTrust = noTrust
	x.loopMemo = memo
	x.inc = newIncr()
	defer x.inc.close()
	defer func() {
		res.Dur = time.Since(t0)
		res.Obls = x.obls
		res.Trivial = x.trivial
		res.Inlined = sortedKeys(x.inlined)
		res.Assumed = sortedKeys(x.assumedC)
		res.Externs = sortedKeys(x.externs)
		res.Paths = x.paths
		res.Loops = x.loopMemo
		if r := recover(); r != nil {
			if _, is := r.(lostTrust); is {
				again = true
				return
			}
			er, ok := r.(EngineErr)
			if !ok {
				if os.Getenv("VPANIC") != "" {
					panic(r)
				}
				er = EngineErr{fmt.Sprint("internal: ", r)}
			}
			res.Err = er.msg
			o := &Obl{Unit: u.Name, Name: shortName(u.Name) + ": within the verifier's reach", Kind: "engine", Props: u.C.Props, Res: "failed", Detail: er.msg}
			res.Obls = append(res.Obls, o)
		}
	}()
	c := u.C
	if c.Lemma {
		x.runLemma(c, res)
		return
	}
	fn := e.prog.get(c.Fn)
	if fn == nil {
		fail("function %s not found", c.Fn)
	}
	e.prog.ensureBuilt(fn)
	if fn.Blocks == nil {
		fail("%s has no body", c.Fn)
	}
	st := e.base.clone()
	args, vars := e.setupParams(x, fn, c, st)
	old := st.clone()
	env := &SpecEnv{x: x, st: st, old: old, vars: vars, c: c, fn: fn}
	env.evalLets(c.Lets)
	for _, rq := range c.Requires {
		t := env.boolExpr(rq.Expr)
		st.assume(t)
	}
	x.entry = st.clone()
	env.old = x.entry
	x.spec = env
	if st.dead || x.inc.check(st.conds()) == "unsat" {
		fail("the preconditions contradict each other")
	}
	var bind []Value
	for i, fv := range fn.FreeVars {
		if i < len(c.FreeVals) {
			bind = append(bind, vars[c.FreeVals[i]].v)
			continue
		}
		// captured variables: pointers to unknown cells
		v := symbolic(fv.Type(), "fv:"+fv.Name(), firstAlloc)
		if p, ok := v.(*PtrV); ok {
			st.assume(Not(Eq(p.Ref, Ref(0))))
		}
		bind = append(bind, v)
		vars[fv.Name()] = SV{v: v, t: fv.Type()}
	}
	outs := x.callFn(fn, args, bind, st, nil)
	live := 0
	for _, o := range outs {
		if o.exit {
			x.checkExit(env, o)
			continue
		}
		if o.st.dead {
			continue
		}
		if x.inc.check(o.st.conds()) == "unsat" {
			continue
		}
		live++
		x.checkReturn(env, fn, o)
	}
	res.NReturns = live
	if live == 0 && !c.NoReturn {
		fail("no return is reachable")
	}
	for _, cv := range c.Covers {
		res.Covers[cv.Label] = x.covered[cv.Label]
		if !x.covered[cv.Label] {
			x.obls = append(x.obls, &Obl{Unit: u.Name, Name: shortName(u.Name) + ": reachable: " + cv.Label, Kind: "cover", Props: c.Props, Res: "failed", Detail: "no path reaches this case"})
		} else {
			x.trivial[shortName(u.Name)+": reachable: "+cv.Label]++
		}
	}
	return
}

func (x *X) resultVars(env *SpecEnv, fn *ssa.Function, o Outcome, c *Contract) map[string]SV {
	vars := map[string]SV{}
	for k, v := range env.vars {
		vars[k] = v
	}
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		n := fmt.Sprintf("result%d", i)
		if i < len(c.Results) && c.Results[i] != "_" {
			n = c.Results[i]
		}
		v := o.vals
		if rs.Len() > 1 {
			v = o.vals.(TupleV)[i]
		}
		vars[n] = SV{v: v, t: rs.At(i).Type()}
		if i == 0 {
			vars["result"] = vars[n]
		}
	}
	return vars
}

func (x *X) checkReturn(env *SpecEnv, fn *ssa.Function, o Outcome) {
	c := env.c
	post := &SpecEnv{x: x, st: o.st, old: x.entry, vars: x.resultVars(env, fn, o, c), c: c, fn: fn}
	post.evalLets(c.PostLets)
	for _, cv := range c.Covers {
		if !x.covered[cv.Label] {
			t := post.boolExpr(cv.Expr)
			if t == TTrue || (t != TFalse && solve(append(o.st.conds(), t), nil, 5*time.Second).res != "unsat") {
				x.covered[cv.Label] = true
			}
		}
	}
	for _, en := range c.Ensures {
		name := fmt.Sprintf("%s: ensures %s", shortName(c.Fn), en.Label)
		st := o.st.clone()
		x.oblige(st, name, "ensures", post.boolExpr(en.Expr), token.NoPos, en.props(c))
	}
	x.checkFresh(post, fn, o)
	x.checkFrame(env, o)
}

// checkFresh: results declared to be new objects are.
func (x *X) checkFresh(post *SpecEnv, fn *ssa.Function, o Outcome) {
	c := post.c
	var refs []*Term
	for i, n := range c.Results {
		if !c.isFresh(n) || i >= fn.Signature.Results().Len() {
			continue
		}
		name := fmt.Sprintf("%s: ensures %s is new", shortName(c.Fn), n)
		var r *Term
		var t *Term
		switch v := post.vars[n].v.(type) {
		case *SliceV:
			r = v.Ref
			t = Or(Eq(r, Ref(0)), And(Ule(Ref(x.entry.alloc), r), Eq(v.Off, C64(0))))
		case *PtrV:
			r = v.Ref
			if v.Elem || v.ArrIdx != nil || len(v.Path) > 0 {
				fail("%s: fresh result %s points into an object", c.Fn, n)
			}
			t = Or(Eq(r, Ref(0)), Ule(Ref(x.entry.alloc), r))
		case *Term:
			if v.S != RefS {
				continue
			}
			r = v
			t = Ule(Ref(x.entry.alloc), r)
		default:
			fail("%s: fresh result %s", c.Fn, n)
		}
		for _, q := range refs {
			t = And(t, Or(Eq(r, Ref(0)), Not(Eq(r, q))))
		}
		refs = append(refs, r)
		x.oblige(o.st.clone(), name, "ensures", t, token.NoPos, c.Props)
	}
}

func (x *X) checkExit(env *SpecEnv, o Outcome) {
	c := env.c
	if len(c.OnExit) == 0 {
		return
	}
	post := &SpecEnv{x: x, st: o.st, old: x.entry, vars: env.vars, c: c, fn: env.fn}
	post.vars = map[string]SV{}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	post.vars["code"] = SV{v: o.code, t: types.Typ[types.Int]}
	for _, en := range c.OnExit {
		name := fmt.Sprintf("%s: on exit %s", shortName(c.Fn), en.Label)
		st := o.st.clone()
		x.oblige(st, name, "exit", post.boolExpr(en.Expr), token.NoPos, en.props(c))
	}
}

// checkFrame: objects that existed before the call keep their contents
// except those the contract lists.
func (x *X) checkFrame(env *SpecEnv, o Outcome) {
	c := env.c
	if c.ModifiesAny {
		return
	}
	name := fmt.Sprintf("%s: changes nothing else", shortName(c.Fn))
	allowed := env.modifiedLocs(x.entry)
	for _, n := range sortedKeys(o.st.mem) {
		if strings.HasPrefix(n, "it:") {
			continue
		}
		cur := o.st.mem[n]
		before := x.entry.get(n, cur.S)
		if cur == before {
			continue
		}
		if strings.HasPrefix(n, "g:") {
			if !c.ghostAllowed(n) && !strings.HasPrefix(n, "g:last") {
				x.oblige(o.st.clone(), name, "frame", Eq(cur, before), token.NoPos, c.frameProps())
			}
			continue
		}
		// every reference below the entry watermark that is not allowed
		st := o.st.clone()
		r := Var(freshName("frame"), RefS)
		refBounds.Store(r.Name, [2]uint64{0, x.entry.alloc})
		var cs []*Term
		skip := false
		for _, a := range allowed {
			if a.matches(n) {
				if a.ref == nil {
					skip = true
					break
				}
				cs = append(cs, Not(Eq(r, a.ref)))
			}
		}
		if skip {
			continue
		}
		a, b := Select(cur, r), Select(before, r)
		if a == b {
			x.trivial[name]++
			continue
		}
		for _, q := range cs {
			st.assume(q)
		}
		x.oblige(st, name, "frame", Eq(a, b), token.NoPos, c.frameProps())
	}
}

func (x *X) runLemma(c *Contract, res *UnitResult) {
	st := x.eng.base.clone()
	vars := map[string]SV{}
	for i, n := range c.Params {
		t := c.LemmaTypes[i]
		if gt := x.eng.specType(t); gt != nil {
			v := symbolic(gt, "p:"+n, firstAlloc)
			st.wf(v, gt)
			vars[n] = SV{v: v, t: gt}
			x.addModel(n, v, gt)
		} else {
			vars[n] = SV{v: Var("p:"+n, specSort(t))}
			x.model = append(x.model, namedTerm{n, vars[n].v.(*Term)})
		}
	}
	env := &SpecEnv{x: x, st: st, old: st.clone(), vars: vars, c: c}
	env.evalLets(c.Lets)
	for _, rq := range c.Requires {
		st.assume(env.boolExpr(rq.Expr))
	}
	env.evalLets(c.PostLets)
	if x.inc.check(st.conds()) == "unsat" {
		fail("the preconditions contradict each other")
	}
	for _, en := range c.Ensures {
		name := fmt.Sprintf("lemma %s: %s", c.Fn, en.Label)
		x.oblige(st.clone(), name, "lemma", env.boolExpr(en.Expr), token.NoPos, en.props(c))
	}
	res.NReturns = 1
}

// ---- discharge

func (e *Engine) dischargeAll(obls []*Obl, deadline time.Time) {
	type key struct{ s string }
	sort.SliceStable(obls, func(i, j int) bool { return obls[i].Name < obls[j].Name })
	parallel(len(obls), func(i int) {
		o := obls[i]
		if o.Res != "" {
			return
		}
		if o.Kind == "termination" && o.Detail != "" {
			o.Res = "failed"
			return
		}
		if time.Now().After(deadline) {
			o.Res, o.Detail = "unknown", "time limit"
			return
		}
		t0 := time.Now()
		var model []*Term
		for _, m := range o.Model {
			if m.t.S.K == SBV || m.t.S == BoolS {
				model = append(model, m.t)
			}
		}
		r := solve(append(append([]*Term{}, o.Hyp...), Not(o.Goal)), nil, e.oblTO)
		o.Dur = time.Since(t0)
		o.By = r.solver
		switch r.res {
		case "unsat":
			o.Res = "discharged"
		case "sat":
			o.Res = "failed"
			r2 := solve(append(append([]*Term{}, o.Hyp...), Not(o.Goal)), model, 20*time.Second)
			o.Detail = fmtModel(o.Model, r2.out)
		default:
			o.Res = "unknown"
			o.Detail = "no answer within the limit: " + clip(r.out, 300)
		}
	})
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func fmtModel(m []namedTerm, out string) string {
	var sb strings.Builder
	i := strings.Index(out, "((")
	if i < 0 {
		return clip(out, 800)
	}
	sb.WriteString("counterexample: ")
	sb.WriteString(clip(strings.Join(strings.Fields(out[i:]), " "), 3000))
	return sb.String()
}
