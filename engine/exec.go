package main

// Symbolic execution of SSA with obligations (the condition generator).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Unit  string
	Name  string // stable name
	Props []string
	Hyp   []*Term
	Goal  *Term
	Trace []string
	Pos   string
	Kind  string
	Model []namedTerm // values to report from a counterexample
	// filled by discharge
	Res    string // discharged / failed / unknown
	By     string
	Detail string
	Dur    time.Duration
}
type namedTerm struct {
	name string
	t    *Term
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	dbg    map[string]ssa.Value
	defers []deferRec
	depth  int
	stack  string // call path
	parent *Frame
}
type deferRec struct {
	call *ssa.CallCommon
	fn   Value
	args []Value
	pos  token.Pos
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.dbg = make(map[string]ssa.Value, len(f.dbg)+2)
	for k, v := range f.dbg {
		n.dbg[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type Path struct {
	fr        *Frame
	blk, prev *ssa.BasicBlock
	idx       int
	st        *State
	unroll    map[*ssa.BasicBlock]int
	phisDone  bool
}

func (p *Path) clone() *Path {
	n := *p
	n.fr = p.fr.clone()
	n.st = p.st.clone()
	n.unroll = map[*ssa.BasicBlock]int{}
	for k, v := range p.unroll {
		n.unroll[k] = v
	}
	return &n
}

type Outcome struct {
	exit bool // os.Exit or the like
	code *Term
	vals Value
	st   *State
}

type X struct {
	eng      *Engine
	unit     *Unit
	inc      *incr
	obls     []*Obl
	quiet    int // >0: do not record obligations
	noTrust  bool
	initMode bool
	pure     bool
	trivial  map[string]int // obligations discharged by simplification
	covered  map[string]bool
	entry    *State
	spec     *SpecEnv // entry environment of the unit (parameters)
	loopMemo map[string]*loopMemo
	inlined  map[string]bool
	assumedC map[string]bool // contracts of callees used
	externs  map[string]bool // external models used
	steps    int
	paths    int
	deadline time.Time
	model    []namedTerm
	exits    []Outcome
	rng      int
}

var dbgOn = os.Getenv("VDEBUG") != ""

func dbg(f string, a ...any) {
	if dbgOn {
		fmt.Fprintf(os.Stderr, "%6.1f "+f+"\n", append([]any{time.Since(dbgStart).Seconds()}, a...)...)
	}
}

var dbgStart = time.Now()

// ---- obligations

func (x *X) oblige(st *State, name, kind string, goal *Term, pos token.Pos, props []string) {
	if x.initMode {
		return
	}
	if goal == TTrue || st.pcSet[goal] {
		if x.quiet == 0 {
			x.trivial[name]++
		}
		return
	}
	if goal.Op == OAnd {
		for _, g := range goal.Args {
			x.oblige(st, name, kind, g, pos, props)
		}
		return
	}
	if x.quiet == 0 {
		o := &Obl{Unit: x.unit.Name, Name: name, Kind: kind, Props: props, Hyp: st.conds(), Goal: goal, Trace: st.trace, Model: x.model}
		if pos.IsValid() {
			o.Pos = x.eng.prog.prog.Fset.Position(pos).String()
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

// safety records an obligation that a run-time panic cannot happen.
func (x *X) safety(p *Path, what string, goal *Term, pos token.Pos) {
	if x.pure {
		return
	}
	name := fmt.Sprintf("%s: no panic: %s", shortName(funcName(p.fr.fn)), what)
	x.oblige(p.st, name, "safety", goal, pos, x.unit.SafetyProps())
	if x.quiet > 0 || x.initMode {
		p.st.assume(goal)
	}
}

func (x *X) feasible(st *State, c *Term) bool {
	if c == TFalse || st.dead {
		return false
	}
	if c == TTrue {
		return true
	}
	if st.pcSet[c] {
		return true
	}
	if st.pcSet[Not(c)] {
		return false
	}
	if x.inc == nil {
		return true
	}
	return x.inc.check(append(relevant(st.conds(), c), c)) != "unsat"
}

// relevant keeps the quantifier-free conditions (all of them; a hook for slicing).
func relevant(cs []*Term, c *Term) []*Term { return cs }

// ---- values

func (x *X) val(p *Path, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Builtin:
		return v
	}
	r, ok := p.fr.env[v]
	if !ok {
		fail("value %s not available in %s", v.Name(), p.fr.fn)
	}
	return r
}

func constTerm(val constant.Value, t types.Type) Value {
	b, ok := under(t).(*types.Basic)
	if !ok {
		fail("constant of type %s", t)
	}
	s := basicSort(b)
	switch {
	case s == BoolS:
		return Bool(constant.BoolVal(val))
	case s == StrS:
		if val.Kind() == constant.Int {
			n, _ := constant.Int64Val(val)
			return StrLit(string(rune(n)))
		}
		return StrLit(constant.StringVal(val))
	case s.K == SBV:
		i := constant.ToInt(val)
		if n, ok := constant.Int64Val(i); ok {
			return BVi(s.W, n)
		}
		if n, ok := constant.Uint64Val(i); ok {
			return BV(s.W, n)
		}
		fail("constant %s", val)
	case s == F64S:
		f, _ := constant.Float64Val(val)
		return floatConst(f)
	}
	return Var("const:"+s.Name+val.ExactString(), s)
}

func (x *X) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	return constTerm(c.Value, c.Type())
}

func (x *X) globalPtr(g *ssa.Global) *PtrV {
	t := g.Type().(*types.Pointer).Elem()
	return &PtrV{Ref: x.eng.globalRef(g), Root: t, T: t}
}

// ---- running

type Region struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

const maxUnroll = 72

// callFn runs fn on args and returns all outcomes.
func (x *X) callFn(fn *ssa.Function, args []Value, bind []Value, st *State, parent *Frame) []Outcome {
	x.eng.prog.ensureBuilt(fn)
	if fn.Blocks == nil {
		fail("no body: %s", funcName(fn))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, dbg: map[string]ssa.Value{}, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
		fr.stack = parent.stack + "/" + fn.Name()
		n := 0
		for f := parent; f != nil; f = f.parent {
			if f.fn == fn {
				n++
			}
		}
		if n > 0 || fr.depth > 30 {
			fail("recursion through %s without a contract", funcName(fn))
		}
	} else {
		fr.stack = fn.Name()
	}
	for i, pa := range fn.Params {
		fr.env[pa] = args[i]
		if pa.Name() != "" {
			fr.dbg[pa.Name()] = pa
		}
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = bind[i]
	}
	p := &Path{fr: fr, blk: fn.Blocks[0], st: st, unroll: map[*ssa.BasicBlock]int{}}
	outs, _, _ := x.run(p, nil)
	return outs
}

func (x *X) run(p0 *Path, region *Region) (outs []Outcome, backs, exits []*Path) {
	work := []*Path{p0}
	arrive := func(p *Path) {
		// p.blk is the target, p.prev the source
		if region != nil {
			if p.blk == region.header {
				backs = append(backs, p)
				return
			}
			if !region.blocks[p.blk] {
				exits = append(exits, p)
				return
			}
		}
		work = append(work, p)
	}
	for len(work) > 0 {
		p := work[len(work)-1]
		work = work[:len(work)-1]
		if p.st.dead {
			continue
		}
		x.paths++
		if x.paths > 60000 {
			fail("too many paths")
		}
		if time.Now().After(x.deadline) {
			fail("time limit while generating conditions")
		}
		// loop header?
		if p.idx == 0 && !p.phisDone && (region == nil || p.blk != region.header) {
			if L := x.eng.loopAt(p.fr.fn, p.blk); L != nil {
				if !x.tryUnroll(p, L) {
					os, ex := x.cutLoop(p, L)
					outs = append(outs, os...)
					for _, e := range ex {
						arrive(e)
					}
					continue
				}
			}
		}
		if p.idx == 0 && !p.phisDone {
			x.doPhis(p)
		}
		p.phisDone = false
		done := false
		for !done {
			if p.st.dead {
				break
			}
			x.steps++
			in := p.blk.Instrs[p.idx]
			switch in := in.(type) {
			case *ssa.Phi:
				p.idx++
			case *ssa.If:
				c := x.val(p, in.Cond).(*Term)
				tb, fb := p.blk.Succs[0], p.blk.Succs[1]
				ft := x.feasible(p.st, c)
				ff := x.feasible(p.st, Not(c))
				if ft && ff {
					q := p.clone()
					q.st.assume(Not(c))
					q.st.trace = append(q.st.trace, x.traceLine(p, in, false))
					q.prev, q.blk, q.idx = q.blk, fb, 0
					arrive(q)
				}
				if ft {
					if ff {
						p.st.trace = append(p.st.trace, x.traceLine(p, in, true))
					}
					p.st.assume(c)
					p.prev, p.blk, p.idx = p.blk, tb, 0
					arrive(p)
				} else if ff {
					p.st.assume(Not(c))
					p.prev, p.blk, p.idx = p.blk, fb, 0
					arrive(p)
				}
				done = true
			case *ssa.Jump:
				p.prev, p.blk, p.idx = p.blk, p.blk.Succs[0], 0
				arrive(p)
				done = true
			case *ssa.Return:
				var vals Value
				switch len(in.Results) {
				case 0:
					vals = nil
				case 1:
					vals = x.val(p, in.Results[0])
				default:
					var tv TupleV
					for _, r := range in.Results {
						tv = append(tv, x.val(p, r))
					}
					vals = tv
				}
				outs = append(outs, Outcome{vals: vals, st: p.st})
				done = true
			case *ssa.Panic:
				x.safety(p, "explicit panic is unreachable", TFalse, in.Pos())
				p.st.dead = true
				done = true
			case *ssa.Call:
				os := x.call(p, &in.Call, in.Pos(), in)
				done = true
				for i := range os {
					o := os[i]
					if o.st.dead {
						continue
					}
					if o.exit {
						outs = append(outs, o)
						continue
					}
					q := p
					if i < len(os)-1 {
						q = &Path{fr: p.fr.clone(), blk: p.blk, prev: p.prev, unroll: map[*ssa.BasicBlock]int{}}
						for k, v := range p.unroll {
							q.unroll[k] = v
						}
					}
					q.st = o.st
					q.fr.env[in] = o.vals
					q.idx = p.idx + 1
					if len(os) == 1 {
						done = false
					} else {
						q.phisDone = true
						if q == p {
							// continue this path via the work list too
						}
						work = append(work, q)
					}
				}
			case *ssa.RunDefers:
				os := x.runDefers(p)
				done = true
				for i := range os {
					o := os[i]
					if o.exit {
						outs = append(outs, o)
						continue
					}
					q := p.clone()
					q.st = o.st
					q.fr.defers = nil
					q.idx = p.idx + 1
					q.phisDone = true
					work = append(work, q)
				}
			default:
				x.step(p, in)
				p.idx++
			}
		}
	}
	return
}

func (x *X) traceLine(p *Path, in *ssa.If, taken bool) string {
	pos := in.Cond.Pos()
	s := ""
	if pos.IsValid() {
		ps := x.eng.prog.prog.Fset.Position(pos)
		s = fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, x.eng.repo+"/"), ps.Line)
	} else {
		s = p.fr.fn.Name() + " " + p.blk.Comment
	}
	return fmt.Sprintf("%s %v", s, taken)
}

func (x *X) doPhis(p *Path) {
	if p.prev == nil {
		return
	}
	ei := -1
	for i, b := range p.blk.Preds {
		if b == p.prev {
			ei = i
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range p.blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.val(p, ph.Edges[ei]))
	}
	for i, ph := range phis {
		p.fr.env[ph] = vals[i]
		if ph.Comment != "" {
			p.fr.dbg[ph.Comment] = ph
		}
	}
}

func (x *X) runDefers(p *Path) []Outcome {
	states := []Outcome{{st: p.st}}
	for i := len(p.fr.defers) - 1; i >= 0; i-- {
		d := p.fr.defers[i]
		var next []Outcome
		for _, o := range states {
			if o.exit {
				next = append(next, o)
				continue
			}
			q := &Path{fr: p.fr, blk: p.blk, idx: p.idx, st: o.st, unroll: p.unroll}
			next = append(next, x.callWith(q, d.call, d.fn, d.args, d.pos, nil)...)
		}
		states = next
	}
	return states
}

// ---- instructions

func signed(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (x *X) step(p *Path, in ssa.Instruction) {
	set := func(v ssa.Value, r Value) { p.fr.env[v] = r }
	switch in := in.(type) {
	case *ssa.DebugRef:
		if id, ok := in.Expr.(interface{ String() string }); ok && in.Object() != nil {
			_ = id
			if _, ok := in.Object().(*types.Var); ok {
				p.fr.dbg[in.Object().Name()] = in.X
			}
		}
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		set(in, x.allocLocal(p, t))
		if in.Comment != "" {
			p.fr.dbg["&"+in.Comment] = in
		}
	case *ssa.BinOp:
		set(in, x.binop(p, in))
	case *ssa.UnOp:
		set(in, x.unop(p, in))
	case *ssa.ChangeType:
		set(in, retype(x.val(p, in.X), in.Type()))
	case *ssa.ChangeInterface:
		v := *(x.val(p, in.X).(*IfaceV))
		v.T = in.Type()
		set(in, &v)
	case *ssa.Convert:
		set(in, x.convert(p, x.val(p, in.X), in.X.Type(), in.Type(), in.Pos()))
	case *ssa.MakeInterface:
		set(in, x.makeIface(x.val(p, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeClosure:
		f := &FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, x.val(p, b))
		}
		set(in, f)
	case *ssa.MakeSlice:
		set(in, x.makeSlice(p, in))
	case *ssa.MakeMap:
		set(in, p.st.newMap(under(in.Type()).(*types.Map)))
	case *ssa.MakeChan:
		set(in, p.st.newRef())
	case *ssa.Slice:
		set(in, x.slice(p, in))
	case *ssa.FieldAddr:
		b := x.val(p, in.X).(*PtrV)
		x.nilCheck(p, b, in.Pos())
		st := under(in.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Struct)
		set(in, subPtr(b, in.Field, st.Field(in.Field).Type()))
	case *ssa.Field:
		set(in, x.val(p, in.X).(*StructV).F[in.Field])
	case *ssa.IndexAddr:
		set(in, x.indexAddr(p, in))
	case *ssa.Index:
		set(in, x.index(p, in))
	case *ssa.Lookup:
		set(in, x.lookup(p, in))
	case *ssa.MapUpdate:
		m := x.val(p, in.Map).(*Term)
		mt := under(in.Map.Type()).(*types.Map)
		x.safety(p, "assignment to a nil map", Not(Eq(m, Ref(0))), in.Pos())
		p.st.mapSet(m, mt, mapKeyTerm(x.val(p, in.Key), mt.Key()), x.val(p, in.Value))
	case *ssa.Range:
		set(in, x.rangeStart(p, in))
	case *ssa.Next:
		set(in, x.rangeNext(p, in))
	case *ssa.TypeAssert:
		set(in, x.typeAssert(p, in))
	case *ssa.Extract:
		set(in, x.val(p, in.Tuple).(TupleV)[in.Index])
	case *ssa.Store:
		a := x.val(p, in.Addr).(*PtrV)
		x.nilCheck(p, a, in.Pos())
		p.st.store(a, x.val(p, in.Val))
	case *ssa.Defer:
		d := deferRec{call: &in.Call, pos: in.Pos()}
		if in.Call.IsInvoke() {
			d.fn = x.val(p, in.Call.Value)
		} else {
			d.fn = x.val(p, in.Call.Value)
		}
		for _, a := range in.Call.Args {
			d.args = append(d.args, x.val(p, a))
		}
		p.fr.defers = append(p.fr.defers, d)
	case *ssa.Go:
		if x.unit != nil && x.unit.AllowGo {
			return
		}
		fail("go statement")
	default:
		fail("instruction %T in %s", in, p.fr.fn)
	}
}

func retype(v Value, t types.Type) Value {
	switch y := v.(type) {
	case *StructV:
		return &StructV{T: t, F: y.F}
	case *ArrayV:
		return &ArrayV{T: t, E: y.E}
	case *PtrV:
		if pt, ok := under(t).(*types.Pointer); ok {
			r := *y
			if len(y.Path) == 0 && !y.Elem {
				// identical underlying types: keep the original root for memory naming
				if typeKey(y.Root) != typeKey(pt.Elem()) {
					fail("pointer conversion %s", t)
				}
				r.Root = pt.Elem()
			}
			r.T = pt.Elem()
			return &r
		}
	case *IfaceV:
		r := *y
		r.T = t
		return &r
	}
	return v
}

func (x *X) allocLocal(p *Path, t types.Type) *PtrV { return p.st.allocObj(t) }

func subPtr(b *PtrV, f int, t types.Type) *PtrV {
	if b.ArrIdx != nil {
		fail("field of a symbolically indexed array element")
	}
	return &PtrV{Ref: b.Ref, Elem: b.Elem, Idx: b.Idx, Root: b.Root, Path: append(b.Path[:len(b.Path):len(b.Path)], f), T: t}
}

func (x *X) nilCheck(p *Path, b *PtrV, pos token.Pos) {
	n := ptrNil(b)
	if b.Elem || len(b.Path) > 0 {
		return
	}
	x.safety(p, "nil dereference", Not(n), pos)
}

func (x *X) idxTerm(v Value, t types.Type) *Term {
	i := v.(*Term)
	if i.S.W < 64 {
		if signed(t) {
			return Sext(i, 64)
		}
		return Zext(i, 64)
	}
	return i
}

func (x *X) indexAddr(p *Path, in *ssa.IndexAddr) Value {
	i := x.idxTerm(x.val(p, in.Index), in.Index.Type())
	switch b := x.val(p, in.X).(type) {
	case *SliceV:
		x.safety(p, "index in range", Ult(i, b.Len), in.Pos())
		return &PtrV{Ref: b.Ref, Elem: true, Idx: Add(b.Off, i), Root: b.Elem, T: b.Elem}
	case *PtrV:
		x.nilCheck(p, b, in.Pos())
		at := under(b.T).(*types.Array)
		x.safety(p, "index in range", Ult(i, C64(uint64(at.Len()))), in.Pos())
		if !b.Elem && len(b.Path) == 0 {
			return &PtrV{Ref: b.Ref, Elem: true, Idx: i, Root: at.Elem(), T: at.Elem()}
		}
		if k, ok := i.U64(); ok {
			return subPtr(b, int(k), at.Elem())
		}
		return &PtrV{Ref: b.Ref, Elem: b.Elem, Idx: b.Idx, Root: b.Root, Path: b.Path, T: at.Elem(), ArrIdx: i}
	}
	fail("IndexAddr on %s", in.X.Type())
	return nil
}

func (x *X) index(p *Path, in *ssa.Index) Value {
	i := x.idxTerm(x.val(p, in.Index), in.Index.Type())
	switch b := x.val(p, in.X).(type) {
	case *ArrayV:
		x.safety(p, "index in range", Ult(i, C64(uint64(len(b.E)))), in.Pos())
		return arrayAt(b, i, under(in.X.Type()).(*types.Array).Elem())
	case *Term:
		x.safety(p, "index in range", Ult(i, slenOf(b)), in.Pos())
		return StrAt(b, i)
	}
	fail("Index on %s", in.X.Type())
	return nil
}

func (x *X) lookup(p *Path, in *ssa.Lookup) Value {
	if mt, ok := under(in.X.Type()).(*types.Map); ok {
		m := x.val(p, in.X).(*Term)
		v, has := p.st.mapGet(m, mt, mapKeyTerm(x.val(p, in.Index), mt.Key()))
		v = valueIte(has, v, zeroValue(mt.Elem()), mt.Elem())
		if in.CommaOk {
			return TupleV{v, has}
		}
		return v
	}
	i := x.idxTerm(x.val(p, in.Index), in.Index.Type())
	s := x.val(p, in.X).(*Term)
	x.safety(p, "string index in range", Ult(i, slenOf(s)), in.Pos())
	return StrAt(s, i)
}

func (x *X) unop(p *Path, in *ssa.UnOp) Value {
	v := x.val(p, in.X)
	switch in.Op {
	case token.MUL:
		b := v.(*PtrV)
		if g, ok := in.X.(*ssa.Global); ok {
			if r := x.eng.globalValue(g); r != nil {
				return r
			}
		}
		x.nilCheck(p, b, in.Pos())
		return p.st.load(b)
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.S == F64S {
			return FPOp("fp.neg", F64S, t)
		}
		return Neg(t)
	case token.XOR:
		return BNot(v.(*Term))
	case token.ARROW:
		// receive: unknown value
		t := in.Type()
		if in.CommaOk {
			t = t.(*types.Tuple).At(0).Type()
		}
		nv := symbolic(t, freshName("recv"), p.st.alloc)
		if in.CommaOk {
			return TupleV{nv, Var(freshName("recvok"), BoolS)}
		}
		return nv
	}
	fail("unop %s", in.Op)
	return nil
}

func (x *X) binop(p *Path, in *ssa.BinOp) Value {
	a, b := x.val(p, in.X), x.val(p, in.Y)
	return x.binopV(p, in.Op, a, b, in.X.Type(), in.Y.Type(), in.Pos())
}

func (x *X) binopV(p *Path, op token.Token, a, b Value, ta, tb types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		_, ia := under(ta).(*types.Interface)
		_, ib := under(tb).(*types.Interface)
		if ia && !ib {
			b = x.makeIface(b, tb, ta)
		} else if ib && !ia {
			a = x.makeIface(a, ta, tb)
			ta = tb
		}
		r = valueEq(a, b, ta)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	s, ok := a.(*Term)
	t, ok2 := b.(*Term)
	if !ok || !ok2 {
		fail("binop %s on %T", op, a)
	}
	if s.S == F64S {
		switch op {
		case token.ADD:
			return FPOp("fp.add RNE", F64S, s, t)
		case token.SUB:
			return FPOp("fp.sub RNE", F64S, s, t)
		case token.MUL:
			return FPOp("fp.mul RNE", F64S, s, t)
		case token.QUO:
			return FPOp("fp.div RNE", F64S, s, t)
		case token.LSS:
			return FPOp("fp.lt", BoolS, s, t)
		case token.LEQ:
			return FPOp("fp.leq", BoolS, s, t)
		case token.GTR:
			return FPOp("fp.lt", BoolS, t, s)
		case token.GEQ:
			return FPOp("fp.leq", BoolS, t, s)
		}
		fail("float op %s", op)
	}
	if s.S == StrS {
		switch op {
		case token.ADD:
			return strConcat(s, t)
		case token.LSS:
			return App("strlt", BoolS, s, t)
		case token.GTR:
			return App("strlt", BoolS, t, s)
		case token.LEQ:
			return Not(App("strlt", BoolS, t, s))
		case token.GEQ:
			return Not(App("strlt", BoolS, s, t))
		}
	}
	sg := signed(ta)
	switch op {
	case token.SHL, token.SHR:
		// shift count: any integer type
		if signed(tb) {
			x.safety(p, "non-negative shift count", Sle(BV(t.S.W, 0), t), pos)
		}
		w := s.S.W
		var cnt, big *Term
		if t.S.W > w {
			big = Not(Ult(t, BV(t.S.W, uint64(w))))
			cnt = Extract(t, w-1, 0)
		} else {
			cnt = Zext(t, w)
			big = TFalse
		}
		if op == token.SHL {
			return Ite(big, BV(w, 0), Shl(s, cnt))
		}
		if sg {
			return Ite(big, Ashr(s, BV(w, uint64(w-1))), Ashr(s, cnt))
		}
		return Ite(big, BV(w, 0), Lshr(s, cnt))
	}
	if s.S == BoolS {
		switch op {
		case token.AND:
			return And(s, t)
		case token.OR:
			return Or(s, t)
		}
	}
	switch op {
	case token.ADD:
		return Add(s, t)
	case token.SUB:
		return Sub(s, t)
	case token.MUL:
		return Mul(s, t)
	case token.QUO, token.REM:
		x.safety(p, "division by zero", Not(Eq(t, BV(t.S.W, 0))), pos)
		switch {
		case op == token.QUO && sg:
			return Sdiv(s, t)
		case op == token.QUO:
			return Udiv(s, t)
		case sg:
			return Srem(s, t)
		}
		return Urem(s, t)
	case token.AND:
		return BAnd(s, t)
	case token.OR:
		return BOr(s, t)
	case token.XOR:
		return BXor(s, t)
	case token.AND_NOT:
		return BAnd(s, BNot(t))
	case token.LSS:
		if sg {
			return Slt(s, t)
		}
		return Ult(s, t)
	case token.LEQ:
		if sg {
			return Sle(s, t)
		}
		return Ule(s, t)
	case token.GTR:
		if sg {
			return Slt(t, s)
		}
		return Ult(t, s)
	case token.GEQ:
		if sg {
			return Sle(t, s)
		}
		return Ule(t, s)
	}
	fail("binop %s", op)
	return nil
}

func strConcat(a, b *Term) *Term {
	if a.Op == OStrLit && b.Op == OStrLit {
		return StrLit(a.Name + b.Name)
	}
	if a.Op == OStrLit && a.Name == "" {
		return b
	}
	if b.Op == OStrLit && b.Name == "" {
		return a
	}
	return App("sconcat", StrS, a, b)
}

func (x *X) convert(p *Path, v Value, from, to types.Type, pos token.Pos) Value {
	fu, tu := under(from), under(to)
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer {
			fail("unsafe conversion")
		}
		s := v.(*Term)
		fs, ts := basicSort(fb), basicSort(tb)
		switch {
		case fs.K == SBV && ts.K == SBV:
			if ts.W <= fs.W {
				return Extract(s, ts.W-1, 0)
			}
			if signed(from) {
				return Sext(s, ts.W)
			}
			return Zext(s, ts.W)
		case fs.K == SBV && ts == F64S:
			if signed(from) {
				return FPOp("(_ to_fp 11 53) RNE", F64S, s)
			}
			return FPOp("(_ to_fp_unsigned 11 53) RNE", F64S, s)
		case fs == F64S && ts.K == SBV:
			// out-of-range conversions are implementation defined in Go
			if signed(to) {
				return FPOp(fmt.Sprintf("(_ fp.to_sbv %d) RTZ", ts.W), ts, s)
			}
			return FPOp(fmt.Sprintf("(_ fp.to_ubv %d) RTZ", ts.W), ts, s)
		case fs == ts:
			return s
		case ts == StrS && fs.K == SBV:
			return App("runestr", StrS, Zext(s, 64))
		}
		fail("conversion %s -> %s", from, to)
	}
	if tok && basicSort(tb) == StrS {
		if sl, ok := v.(*SliceV); ok && isByte(sl.Elem) {
			return p.st.bytesToString(sl)
		}
	}
	if fok && basicSort(fb) == StrS {
		if su, ok := tu.(*types.Slice); ok && isByte(su.Elem()) {
			s := v.(*Term)
			n := slenOf(s)
			arr := ACopy(ConstArr(ArrS(U64S, U8S), BV(8, 0)), C64(0), SArr2(s), C64(0), n)
			if n.IsConst() {
				arr = ACopy(ConstArr(ArrS(U64S, U8S), BV(8, 0)), C64(0), SArr2(s), C64(0), n)
			}
			return p.st.newBytes(arr, n)
		}
	}
	switch tu.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Struct, *types.Signature:
		return retype(v, to)
	}
	fail("conversion %s -> %s", from, to)
	return nil
}

func (x *X) makeIface(v Value, from, to types.Type) *IfaceV {
	if iv, ok := v.(*IfaceV); ok {
		return iv
	}
	return &IfaceV{Tag: typeTag(from), Pl: payload(v, from), T: to, Dyn: v, DynT: from}
}

func (x *X) typeAssert(p *Path, in *ssa.TypeAssert) Value {
	iv := x.val(p, in.X).(*IfaceV)
	at := in.AssertedType
	var ok *Term
	var res Value
	if it, isI := under(at).(*types.Interface); isI {
		r := *iv
		r.T = at
		res = &r
		if iv.DynT != nil {
			ok = And(Bool(types.Implements(iv.DynT, it)))
		} else {
			ok = And(Not(Eq(iv.Tag, BV(32, 0))), App("implements:"+typeKey0(at)+at.String(), BoolS, iv.Tag))
		}
		if in.CommaOk {
			return TupleV{valueIte(ok, res, zeroValue(at), at), ok}
		}
		x.safety(p, "type assertion", ok, in.Pos())
		return res
	}
	if iv.DynT != nil {
		ok = Bool(types.Identical(iv.DynT, at))
		if ok == TTrue {
			res = iv.Dyn
		} else {
			res = zeroValue(at)
		}
	} else {
		ok = Eq(iv.Tag, typeTag(at))
		res = unbox(iv.Pl, at)
	}
	if in.CommaOk {
		if ok.IsConst() || ok == TTrue || ok == TFalse {
			return TupleV{res, ok}
		}
		return TupleV{valueIte(ok, res, zeroValue(at), at), ok}
	}
	x.safety(p, "type assertion", ok, in.Pos())
	return res
}

func (x *X) makeSlice(p *Path, in *ssa.MakeSlice) Value {
	n := x.idxTerm(x.val(p, in.Len), in.Len.Type())
	c := x.idxTerm(x.val(p, in.Cap), in.Cap.Type())
	x.safety(p, "makeslice size", And(Sle(C64(0), n), Sle(n, c), Ule(c, C64(maxObjLen))), in.Pos())
	elem := under(in.Type()).(*types.Slice).Elem()
	r := p.st.newRef()
	p.st.zeroElems(r, elem)
	x.noteAlloc(p, c, elem)
	return &SliceV{r, C64(0), n, c, elem}
}

func (x *X) slice(p *Path, in *ssa.Slice) Value {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.idxTerm(x.val(p, v), v.Type())
	}
	lo, hi, mx := get(in.Low), get(in.High), get(in.Max)
	if lo == nil {
		lo = C64(0)
	}
	switch b := x.val(p, in.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = b.Len
		}
		top := b.Cap
		if mx != nil {
			top = mx
			x.safety(p, "slice bounds", Ule(mx, b.Cap), in.Pos())
		}
		x.safety(p, "slice bounds", And(Ule(hi, top), Ule(lo, hi)), in.Pos())
		nc := Sub(top, lo)
		off := Add(b.Off, lo)
		return &SliceV{b.Ref, off, Sub(hi, lo), nc, b.Elem}
	case *PtrV: // pointer to array
		x.nilCheck(p, b, in.Pos())
		at := under(b.T).(*types.Array)
		n := C64(uint64(at.Len()))
		if hi == nil {
			hi = n
		}
		top := n
		if mx != nil {
			top = mx
		}
		x.safety(p, "slice bounds", And(Ule(top, n), Ule(hi, top), Ule(lo, hi)), in.Pos())
		ref := b.Ref
		if b.Elem || len(b.Path) > 0 {
			// array inside another object: read-only snapshot
			arr := p.st.load(b).(*ArrayV)
			ref = Ref(0xE0000000 + roCount.Add(1)) // used by this path only
			p.st.zeroElems(ref, at.Elem())
			p.st.store(&PtrV{Ref: ref, Root: b.T, T: b.T}, arr)
			roObj.Store(ref, true)
		}
		return &SliceV{ref, lo, Sub(hi, lo), Sub(top, lo), at.Elem()}
	case *Term: // string
		if hi == nil {
			hi = slenOf(b)
		}
		x.safety(p, "string slice bounds", And(Ule(hi, slenOf(b)), Ule(lo, hi)), in.Pos())
		if lo.IsZero() && hi == slenOf(b) {
			return b
		}
		return subStr(b, lo, Sub(hi, lo))
	}
	fail("slice of %s", in.X.Type())
	return nil
}

func subStr(s, off, n *Term) *Term {
	if s.Op == OApp && s.Name == "sof" {
		return SOf(s.Args[0], Add(s.Args[1], off), n)
	}
	if s.Op == OStrLit {
		if o, ok := off.U64(); ok {
			if k, ok := n.U64(); ok && o+k <= uint64(len(s.Name)) {
				return StrLit(s.Name[o : o+k])
			}
		}
		// constant table indexed symbolically with constant width: ite over positions
		if k, ok := n.U64(); ok && len(s.Name) <= 64 && k <= uint64(len(s.Name)) {
			last := uint64(len(s.Name)) - k
			r := StrLit(s.Name[last:])
			for o := int(last) - 1; o >= 0; o-- {
				r = Ite(Eq(off, C64(uint64(o))), StrLit(s.Name[o:o+int(k)]), r)
			}
			return r
		}
	}
	return SOf(SArr2(s), off, n)
}

func (x *X) noteAlloc(p *Path, n *Term, elem types.Type) {
	if x.unit != nil && x.unit.MaxAlloc > 0 && !x.pure {
		// bound on single allocations, when the contract states one
		x.oblige(p.st, shortName(funcName(p.fr.fn))+": allocation bound", "alloc", Ule(n, C64(x.unit.MaxAlloc)), token.NoPos, x.unit.SafetyProps())
	}
}

// ---- range over maps and strings

func (x *X) rangeStart(p *Path, in *ssa.Range) Value {
	x.rng++
	id := x.rng
	it := &IterV{id: id}
	if mt, ok := under(in.X.Type()).(*types.Map); ok {
		m := x.val(p, in.X).(*Term)
		d, _ := p.st.mapDom(mt)
		dom := Ite(Eq(m, Ref(0)), ConstArr(d.S.Val, TFalse), Select(d, m))
		p.st.iters[id] = &iterState{m: m, mt: mt, dom0: dom}
		p.st.set(fmt.Sprintf("it:%d:visited", id), ConstArr(dom.S, TFalse))
		p.st.set(fmt.Sprintf("it:%d:count", id), C64(0))
		return it
	}
	fail("range over %s", in.X.Type())
	return nil
}

func (x *X) rangeNext(p *Path, in *ssa.Next) Value {
	it := x.val(p, in.Iter).(*IterV)
	if in.IsString {
		fail("range over a string")
	}
	is := p.st.iters[it.id]
	vn, cn := fmt.Sprintf("it:%d:visited", it.id), fmt.Sprintf("it:%d:count", it.id)
	vis, cnt := p.st.mem[vn], p.st.mem[cn]
	mt := is.mt
	ok := Var(freshName("more"), BoolS)
	k := Var(freshName("mapkey"), mapKeySort(mt.Key()))
	ln, _ := p.st.mapLen(mt)
	n := Ite(Eq(is.m, Ref(0)), C64(0), Select(ln, is.m))
	// the map may only be changed by code outside the iteration
	d, _ := p.st.mapDom(mt)
	dom := Ite(Eq(is.m, Ref(0)), ConstArr(d.S.Val, TFalse), Select(d, is.m))
	p.st.assume(Implies(ok, And(Select(dom, k), Not(Select(vis, k)), Ult(cnt, n))))
	b := BVar("mk", mapKeySort(mt.Key()))
	p.st.assume(Implies(Not(ok), And(Eq(cnt, n), Forall([]*Term{b}, nil, Implies(Select(dom, b), Select(vis, b))))))
	p.st.assume(Ule(cnt, n))
	p.st.assume(Ule(n, C64(maxObjLen)))
	p.st.set(vn, Ite(ok, Store(vis, k, TTrue), vis))
	p.st.set(cn, Ite(ok, Add(cnt, C64(1)), cnt))
	v, _ := p.st.mapGet(is.m, mt, k)
	tt := in.Type().(*types.Tuple)
	r := TupleV{ok, nil, nil}
	kv := mapKeyValue(k, mt.Key())
	p.st.wf(kv, mt.Key())
	if !isInvalid(tt.At(1).Type()) {
		r[1] = kv
	}
	if !isInvalid(tt.At(2).Type()) {
		r[2] = v
	}
	return r
}
func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}
