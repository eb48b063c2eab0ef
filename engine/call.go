package main

// Calls: contracts, models of external functions, inlining, builtins.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	fn   *ssa.Function
	name string
	args []Value
	sig  *types.Signature
	pos  token.Pos
	in   ssa.Instruction
}

type modelFn func(x *X, p *Path, c *callCtx) []Outcome

var models = map[string]modelFn{}

func one(p *Path, vals ...Value) []Outcome {
	var v Value
	switch len(vals) {
	case 0:
	case 1:
		v = vals[0]
	default:
		v = TupleV(vals)
	}
	return []Outcome{{vals: v, st: p.st}}
}

// call executes a call instruction.
func (x *X) call(p *Path, call *ssa.CallCommon, pos token.Pos, in ssa.Instruction) []Outcome {
	fn := x.val(p, call.Value)
	var args []Value
	for _, a := range call.Args {
		args = append(args, x.val(p, a))
	}
	return x.callWith(p, call, fn, args, pos, in)
}

func (x *X) callWith(p *Path, call *ssa.CallCommon, fnVal Value, args []Value, pos token.Pos, in ssa.Instruction) []Outcome {
	if call.IsInvoke() {
		iv := fnVal.(*IfaceV)
		return x.invoke(p, iv, call.Method, args, pos, in)
	}
	switch f := fnVal.(type) {
	case *ssa.Builtin:
		return x.builtin(p, f, call, args, pos)
	case *FuncV:
		return x.callFuncV(p, f, args, call.Signature(), pos, in)
	}
	fail("call of %T", fnVal)
	return nil
}

func (x *X) callFuncV(p *Path, f *FuncV, args []Value, sig *types.Signature, pos token.Pos, in ssa.Instruction) []Outcome {
	if f.Nil {
		x.safety(p, "call of a nil function", TFalse, pos)
		p.st.dead = true
		return nil
	}
	if f.Sym != nil {
		if m := x.symCall(p, f, args, sig, pos); m != nil {
			return m
		}
		fail("call of an unknown function value")
	}
	return x.callFunction(p, f.Fn, args, f.Bind, pos, in)
}

// symCall: calls of unknown function parameters behave as uninterpreted pure
// functions when the unit's contract says so.
func (x *X) symCall(p *Path, f *FuncV, args []Value, sig *types.Signature, pos token.Pos) []Outcome {
	return nil
}

func ifaceMethodName(it types.Type, m *types.Func) string {
	s := types.TypeString(it, func(p *types.Package) string { return p.Path() })
	if _, ok := it.(*types.Named); !ok {
		// anonymous or embedded: use the interface that declares the method
		if r := m.Type().(*types.Signature).Recv(); r != nil {
			s = types.TypeString(r.Type(), func(p *types.Package) string { return p.Path() })
		}
	}
	return "(" + s + ")." + m.Name()
}

func (x *X) invoke(p *Path, iv *IfaceV, m *types.Func, args []Value, pos token.Pos, in ssa.Instruction) []Outcome {
	x.safety(p, "method call on a nil interface", Not(Eq(iv.Tag, BV(32, 0))), pos)
	if p.st.dead {
		return nil
	}
	if iv.DynT != nil {
		if _, isI := under(iv.DynT).(*types.Interface); !isI {
			sel := x.eng.prog.prog.MethodSets.MethodSet(iv.DynT).Lookup(m.Pkg(), m.Name())
			if sel == nil {
				fail("method %s of %s", m.Name(), iv.DynT)
			}
			fn := x.eng.prog.prog.MethodValue(sel)
			if fn == nil {
				fail("abstract method %s", m.Name())
			}
			return x.callFunction(p, fn, append([]Value{iv.Dyn}, args...), nil, pos, in)
		}
	}
	var names []string
	if iv.T != nil {
		names = append(names, ifaceMethodName(iv.T, m))
	}
	if r := m.Type().(*types.Signature).Recv(); r != nil {
		names = append(names, ifaceMethodName(r.Type(), m))
	}
	names = append(names, "(any)."+m.Name())
	for _, n := range names {
		if mf, ok := models[n]; ok {
			x.externs[n] = true
			return mf(x, p, &callCtx{name: n, args: append([]Value{iv}, args...), sig: m.Type().(*types.Signature), pos: pos, in: in})
		}
	}
	for _, n := range names {
		if harmlessName(n) {
			return x.havocCall(p, n, m.Type().(*types.Signature))
		}
	}
	fail("interface call %s without a model", names[0])
	return nil
}

var inlineStd = map[string]bool{"encoding/binary": true, "time": true, "internal/byteorder": true, "unicode/utf8": true, "math/bits": true, "slices": true, "cmp": true}

var harmlessPkgs = []string{"fmt", "github.com/cheggaaa/pb", "text/tabwriter", "log", "github.com/fatih/color", "github.com/spf13", "go.uber.org"}

func harmlessName(n string) bool {
	s := strings.TrimLeft(n, "(*")
	for _, h := range harmlessPkgs {
		if strings.HasPrefix(s, h+".") || strings.HasPrefix(s, h+"/") {
			return true
		}
	}
	return false
}

// havocCall: unknown results, no effect on memory the code can see.
func (x *X) havocCall(p *Path, name string, sig *types.Signature) []Outcome {
	x.externs[name+" (results unknown)"] = true
	rs := sig.Results()
	var vals []Value
	for i := 0; i < rs.Len(); i++ {
		vals = append(vals, x.freshValue(p.st, rs.At(i).Type(), "r:"+name))
	}
	return one(p, vals...)
}

// freshValue: an unknown value; references may be to anything allocated so far
// or to new objects.
func (x *X) freshValue(st *State, t types.Type, name string) Value {
	st.alloc += 64
	v := symbolic(t, freshName(name), st.alloc)
	st.wf(v, t)
	return v
}

func (x *X) callFunction(p *Path, fn *ssa.Function, args []Value, bind []Value, pos token.Pos, in ssa.Instruction) []Outcome {
	name := funcName(fn)
	ctx := &callCtx{fn: fn, name: name, args: args, sig: fn.Signature, pos: pos, in: in}
	if fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "instance of") && fn.Name() != "init" && fn.Parent() == nil {
		// wrappers, thunks, bound methods
		x.eng.prog.ensureBuilt(fn)
		if fn.Blocks != nil {
			return x.callFn(fn, args, bind, p.st, p.fr)
		}
	}
	if x.initMode {
		if fn.Name() == "init" && fn.Signature.Params().Len() == 0 && fn.Signature.Recv() == nil && fn.Parent() == nil {
			return one(p)
		}
		if strings.HasPrefix(fn.Name(), "init#") {
			return one(p)
		}
		if !inModule(fn) && !inlineStd[pkgPath(fn)] {
			if m, ok := models[name]; ok {
				return m(x, p, ctx)
			}
			return x.havocCall(p, name, fn.Signature)
		}
		return x.callFn(fn, args, bind, p.st, p.fr)
	}
	if c := x.eng.contractFor(fn); c != nil && !c.Inline && !x.unit.C.inlines(name) && !(x.pure) {
		return x.applyContract(p, c, ctx)
	}
	if m, ok := models[name]; ok {
		x.externs[name] = true
		return m(x, p, ctx)
	}
	if inModule(fn) || inlineStd[pkgPath(fn)] {
		x.eng.prog.ensureBuilt(fn)
		if fn.Blocks == nil {
			fail("no body: %s", name)
		}
		x.inlined[name] = true
		return x.callFn(fn, args, bind, p.st, p.fr)
	}
	if harmlessName(name) {
		return x.havocCall(p, name, fn.Signature)
	}
	fail("call of external function %s without a model", name)
	return nil
}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// contractFor: the contract usable at calls of fn (nil: inline the body).
func (e *Engine) contractFor(fn *ssa.Function) *Contract {
	if e.specs == nil {
		return nil
	}
	c := e.specs.byFn[funcName(fn)]
	if c == nil || c.Lemma {
		return nil
	}
	if len(c.Params) != len(fn.Params) {
		return nil // signature changed: the body is used instead
	}
	return c
}

func (x *X) applyContract(p *Path, c *Contract, ctx *callCtx) []Outcome {
	x.assumedC[c.Fn] = true
	st := p.st
	vars := map[string]SV{}
	for i, n := range c.Params {
		vars[n] = SV{v: ctx.args[i], t: ctx.fn.Params[i].Type()}
	}
	pre := st.clone()
	env := &SpecEnv{x: x, st: pre, old: pre, vars: vars, c: c, fn: ctx.fn}
	env.evalLets(c.Lets)
	for _, rq := range c.Requires {
		name := fmt.Sprintf("%s: call of %s: requires %s", shortName(funcName(p.fr.fn)), shortName(c.Fn), rq.Label)
		props := x.unit.C.Props
		if len(rq.Props) > 0 {
			props = rq.Props
		}
		t := env.boolExpr(rq.Expr)
		x.oblige(st, name, "requires", t, ctx.pos, props)
		if x.quiet > 0 {
			st.assume(t)
		}
	}
	pre = st.clone()
	env.st, env.old = pre, pre
	// effects
	water := st.alloc
	st.alloc += 1 << 12
	if c.ModifiesAny {
		fail("call of %s: its contract has no frame", c.Fn)
	}
	for _, m := range env.modifiedLocs(pre) {
		m.havoc(st)
	}
	for _, g := range c.GhostMods {
		so, ok := ghostSorts[g]
		if !ok {
			fail("ghost %s has no sort", g)
		}
		st.set("g:"+g, Var(freshName("g:"+g), so))
	}
	// results
	rs := ctx.fn.Signature.Results()
	var vals []Value
	content := map[*Term]contentOf{}
	post := &SpecEnv{x: x, st: st, old: pre, vars: map[string]SV{}, c: c, fn: ctx.fn}
	for k, v := range env.vars {
		post.vars[k] = v
	}
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		n := fmt.Sprintf("result%d", i)
		if i < len(c.Results) {
			n = c.Results[i]
		}
		var v Value
		if c.isFresh(n) {
			v = x.freshResult(st, t, "r:"+ctx.fn.Name(), water)
			if sl, ok := v.(*SliceV); ok {
				for _, l := range leavesOf(sl.Elem) {
					nm, so := elemMem(sl.Elem, l)
					r := sl.Ref
					var nv *Term
					if r.Op == OIte {
						nv = r.Args[0]
						r = r.Args[2]
					}
					if cv := Select(st.get(nm, so), r); cv.Op == OVar {
						content[cv] = contentOf{nm, so, r, nv, sl.Len}
					}
				}
			}
		} else {
			v = symbolic(t, freshName("r:"+ctx.fn.Name()), st.alloc)
			st.wf(v, t)
		}
		vals = append(vals, v)
		post.vars[n] = SV{v: v, t: t}
		if i == 0 {
			post.vars["result"] = post.vars[n]
		}
	}
	// exact results given by defining equations replace the unknown
	post.evalLets(c.PostLets)
	var facts []*Term
	for _, en := range c.Ensures {
		if len(c.usable) > 0 && !c.usable[en.Label] {
			continue
		}
		facts = append(facts, post.boolExpr(en.Expr))
	}
	// results defined by equations are replaced by their definitions
	sub := definitions(facts, vals, rs, content)
	if len(sub) > 0 {
		for v, c := range content {
			if t := sub[v]; t != nil {
				st.set(c.mem, Store(st.get(c.mem, c.s), c.ref, t))
			}
		}
		for i := range vals {
			vals[i] = substValue(vals[i], rs.At(i).Type(), sub)
		}
		for i := range facts {
			facts[i] = Subst(facts[i], sub)
		}
	}
	var defd []*Term
	for v := range sub {
		defd = append(defd, v)
	}
	sort.Slice(defd, func(i, j int) bool { return defd[i].Name < defd[j].Name })
	for _, v := range defd {
		if v.S.K == SBV || v.S.K == SBool { // facts assumed before, such as len <= cap
			st.assume(Eq(v, sub[v]))
		}
	}
	for _, f := range facts {
		st.assume(f)
	}
	if c.NoReturn {
		st.dead = true
	}
	return one(p, vals...)
}

// freshResult: a new object, its contents unknown (constrained by ensures).
func (x *X) freshResult(st *State, t types.Type, name string, water uint64) Value {
	switch u := under(t).(type) {
	case *types.Pointer:
		r := st.newRef()
		if at, ok := under(u.Elem()).(*types.Array); ok {
			for _, l := range leavesOf(at.Elem()) {
				n, so := elemMem(at.Elem(), l)
				st.set(n, Store(st.get(n, so), r, Var(freshName(name), so.Val)))
			}
		} else {
			v := symbolic(u.Elem(), freshName(name), st.alloc)
			st.wf(v, u.Elem())
			st.store(&PtrV{Ref: r, Root: u.Elem(), T: u.Elem()}, v)
		}
		isNil := Var(freshName(name+".nil"), BoolS)
		return &PtrV{Ref: Ite(isNil, Ref(0), r), Root: u.Elem(), T: u.Elem()}
	case *types.Slice:
		r := st.newRef()
		for _, l := range leavesOf(u.Elem()) {
			n, so := elemMem(u.Elem(), l)
			v := Var(freshName(name), so.Val)
			if l.ref {
				memBounds.Store(v.Name, st.alloc)
			}
			st.set(n, Store(st.get(n, so), r, v))
		}
		n := Var(freshName(name+".len"), U64S)
		cp := Var(freshName(name+".cap"), U64S)
		isNil := Var(freshName(name+".nil"), BoolS)
		sl := &SliceV{Ite(isNil, Ref(0), r), C64(0), n, cp, u.Elem()}
		st.assume(And(Ule(n, cp), Ule(cp, C64(maxObjLen)), Implies(isNil, Eq(cp, C64(0)))))
		return sl
	case *types.Map:
		r := st.newMap(u)
		d, dn := st.mapDom(u)
		st.set(dn, Store(d, r, Var(freshName(name), d.S.Val)))
		ln, lnn := st.mapLen(u)
		st.set(lnn, Store(ln, r, Var(freshName(name), U64S)))
		for _, l := range leavesOf(u.Elem()) {
			n := mapName(u) + ":val" + l.path
			so := ArrS(RefS, ArrS(mapKeySort(u.Key()), l.s))
			st.set(n, Store(st.get(n, so), r, Var(freshName(name), so.Val)))
		}
		return r
	}
	v := symbolic(t, freshName(name), st.alloc)
	st.wf(v, t)
	return v
}

// ---- builtins

func (x *X) builtin(p *Path, b *ssa.Builtin, call *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	switch b.Name() {
	case "len":
		return one(p, x.lenOf(p.st, args[0], call.Args[0].Type()))
	case "cap":
		switch v := args[0].(type) {
		case *SliceV:
			return one(p, v.Cap)
		}
		return one(p, x.lenOf(p.st, args[0], call.Args[0].Type()))
	case "append":
		return x.appendB(p, call, args)
	case "copy":
		dst := args[0].(*SliceV)
		var n *Term
		switch s := args[1].(type) {
		case *SliceV:
			n = Ite(Ult(s.Len, dst.Len), s.Len, dst.Len)
			st := p.st.clone()
			p.st.copyElems(dst, dst.Off, func(l leaf) *Term { return st.elemArr(s, l) }, s.Off, n)
		case *Term:
			sl := slenOf(s)
			n = Ite(Ult(sl, dst.Len), sl, dst.Len)
			p.st.copyElems(dst, dst.Off, func(l leaf) *Term { return SArr2(s) }, C64(0), n)
		}
		return one(p, n)
	case "delete":
		mt := under(call.Args[0].Type()).(*types.Map)
		m := args[0].(*Term)
		// deleting from a nil map is a no-op
		if m.IsZero() {
			return one(p)
		}
		p.st.mapDelete(m, mt, mapKeyTerm(args[1], mt.Key()))
		return one(p)
	case "min", "max":
		r := args[0].(*Term)
		sg := signed(call.Args[0].Type())
		for _, a := range args[1:] {
			t := a.(*Term)
			var less *Term
			if sg {
				less = Slt(t, r)
			} else {
				less = Ult(t, r)
			}
			if b.Name() == "max" {
				if sg {
					less = Slt(r, t)
				} else {
					less = Ult(r, t)
				}
			}
			r = Ite(less, t, r)
		}
		return one(p, r)
	case "print", "println":
		return one(p)
	case "clear":
		switch v := args[0].(type) {
		case *SliceV:
			for _, l := range leavesOf(v.Elem) {
				nm, so := elemMem(v.Elem, l)
				m := p.st.get(nm, so)
				p.st.set(nm, Store(m, v.Ref, ACopy(Select(m, v.Ref), v.Off, ConstArr(so.Val, zeroTerm(l.s)), C64(0), v.Len)))
			}
		case *Term:
			mt := under(call.Args[0].Type()).(*types.Map)
			d, dn := p.st.mapDom(mt)
			p.st.set(dn, Store(d, v, ConstArr(d.S.Val, TFalse)))
			ln, lnn := p.st.mapLen(mt)
			p.st.set(lnn, Store(ln, v, C64(0)))
		}
		return one(p)
	case "recover":
		return one(p, zeroValue(b.Type().(*types.Signature).Results().At(0).Type()))
	case "ssa:wrapnilchk":
		return one(p, args[0])
	case "close":
		return one(p)
	}
	fail("builtin %s", b.Name())
	return nil
}

func (x *X) lenOf(st *State, v Value, t types.Type) *Term {
	switch a := v.(type) {
	case *SliceV:
		return a.Len
	case *ArrayV:
		return C64(uint64(len(a.E)))
	case *PtrV:
		return C64(uint64(under(a.T).(*types.Array).Len()))
	case *Term:
		if a.S == StrS {
			return slenOf(a)
		}
		if mt, ok := under(t).(*types.Map); ok {
			ln, _ := st.mapLen(mt)
			n := Select(ln, a)
			st.assume(Ule(n, C64(maxObjLen)))
			return Ite(Eq(a, Ref(0)), C64(0), n)
		}
		if _, ok := under(t).(*types.Chan); ok {
			return Var(freshName("chanlen"), U64S)
		}
	}
	fail("len of %s", t)
	return nil
}

func (x *X) appendB(p *Path, call *ssa.CallCommon, args []Value) []Outcome {
	s := args[0].(*SliceV)
	var n, soff *Term
	var src func(st *State, l leaf) *Term
	switch t := args[1].(type) {
	case *SliceV:
		n, soff = t.Len, t.Off
		src = func(st *State, l leaf) *Term { return st.elemArr(t, l) }
	case *Term:
		n, soff = slenOf(t), C64(0)
		src = func(st *State, l leaf) *Term { return SArr2(t) }
	}
	if n.IsZero() {
		return one(p, s)
	}
	nl := Add(s.Len, n)
	p.st.assume(Ule(n, C64(maxObjLen)))
	fits := Ule(nl, s.Cap)
	if s.Cap.IsZero() {
		fits = Eq(n, C64(0))
	}
	var outs []Outcome
	a, b := x.feasible(p.st, fits), x.feasible(p.st, Not(fits))
	if a {
		st := p.st.clone()
		st.assume(fits)
		pre := st.clone()
		d := *s
		d.Len = nl
		st.copyElems(&d, Add(s.Off, s.Len), func(l leaf) *Term { return src(pre, l) }, soff, n)
		outs = append(outs, Outcome{vals: &SliceV{s.Ref, s.Off, nl, s.Cap, s.Elem}, st: st})
	}
	if b {
		st := p.st.clone()
		st.assume(Not(fits))
		st.assume(Ule(nl, C64(maxObjLen)))
		pre := st.clone()
		r := st.newRef()
		cp := Var(freshName("growcap"), U64S)
		st.assume(And(Ule(nl, cp), Ule(cp, C64(maxObjLen))))
		for _, l := range leavesOf(s.Elem) {
			nm, so := elemMem(s.Elem, l)
			z := ConstArr(so.Val, zeroTerm(l.s))
			arr := ACopy(z, C64(0), pre.elemArr(s, l), s.Off, s.Len)
			arr = ACopy(arr, s.Len, src(pre, l), soff, n)
			st.set(nm, Store(st.get(nm, so), r, arr))
		}
		outs = append(outs, Outcome{vals: &SliceV{r, C64(0), nl, cp, s.Elem}, st: st})
	}
	if len(outs) == 0 {
		p.st.dead = true
	}
	return outs
}

// contentOf: where the unknown content of a fresh slice is kept.
type contentOf struct {
	mem string
	s   *Sort
	ref *Term

	isNil, n *Term
}

// definitions finds equations "result variable = term" among facts.
func definitions(facts []*Term, vals []Value, rs *types.Tuple, content map[*Term]contentOf) map[*Term]*Term {
	isRes := map[*Term]bool{}
	for v := range content {
		isRes[v] = true
	}
	for i := range vals {
		if _, ok := vals[i].(*FuncV); ok {
			continue
		}
		for _, t := range flatten(vals[i], rs.At(i).Type()) {
			if t.Op == OVar {
				isRes[t] = true
			}
		}
	}
	sub := map[*Term]*Term{}
	var mentions func(t *Term, seen map[*Term]bool) bool
	mentions = func(t *Term, seen map[*Term]bool) bool {
		if isRes[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if mentions(a, seen) {
				return true
			}
		}
		return false
	}
	// bytes of a fresh slice given by equations such as be(r,0,8) == x
	bytesOf := map[*Term]map[uint64]*Term{}
	defBytes := func(v, t *Term) bool {
		parts := []*Term{v}
		if v.Op == OConcat {
			parts = v.Args
		}
		if t.HasB || mentions(t, map[*Term]bool{}) {
			return false
		}
		var cv *Term
		for _, p := range parts {
			if p.Op != OSelect || p.Args[1].Op != OConst || p.S != U8S || !isRes[p.Args[0]] || (cv != nil && cv != p.Args[0]) {
				return false
			}
			if _, ok := content[p.Args[0]]; !ok {
				return false
			}
			cv = p.Args[0]
		}
		if bytesOf[cv] == nil {
			bytesOf[cv] = map[uint64]*Term{}
		}
		hi := t.S.W
		for _, p := range parts {
			i, _ := p.Args[1].U64()
			if bytesOf[cv][i] == nil {
				bytesOf[cv][i] = Extract(t, hi-1, hi-8)
			}
			hi -= 8
		}
		return true
	}
	def := func(v, t *Term) bool {
		if defBytes(v, t) {
			return true
		}
		if !isRes[v] || sub[v] != nil || t.HasB || mentions(t, map[*Term]bool{}) {
			return false
		}
		sub[v] = t
		return true
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		switch t.Op {
		case OAnd:
			for _, a := range t.Args {
				visit(a)
			}
		case OEq:
			if !def(t.Args[0], t.Args[1]) {
				def(t.Args[1], t.Args[0])
			}
		case OVar:
			if t.S == BoolS {
				def(t, TTrue)
			}
		case ONot:
			if t.Args[0].Op == OVar {
				def(t.Args[0], TFalse)
			}
		}
	}
	for _, f := range facts {
		visit(f)
	}
	for cv, bs := range bytesOf {
		if sub[cv] != nil {
			continue
		}
		var ks []uint64
		for k := range bs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		t := Var(cv.Name+"!rest", cv.S)
		for _, k := range ks {
			t = Store(t, C64(k), bs[k])
		}
		sub[cv] = t
	}
	for _, c := range content { // a slice with elements is not nil
		if c.isNil == nil || c.n == nil {
			continue
		}
		if t := sub[c.n]; t != nil && t.Op == OConst && !t.IsZero() {
			sub[c.isNil] = TFalse
		}
	}
	return sub
}

func substValue(v Value, t types.Type, sub map[*Term]*Term) Value {
	if _, ok := v.(*FuncV); ok {
		return v
	}
	if iv, ok := v.(*IfaceV); ok && iv.DynT != nil {
		return v
	}
	fs := flatten(v, t)
	ls := leavesOf(t)
	m := map[string]*Term{}
	ch := false
	for i, l := range ls {
		n := Subst(fs[i], sub)
		if n != fs[i] {
			ch = true
		}
		m[l.path] = n
	}
	if !ch {
		return v
	}
	return unflatten(t, func(l leaf) *Term { return m[l.path] })
}
