package main

import (
	"go/types"
	"strconv"
	"strings"
)

// sort: assumed contracts.

func init() {
	// sort.Search(n, f): some 0 <= i <= n with f(i) unless i == n, and not
	// f(i-1) unless i == 0.  That holds of every f; f must not write.
	models["sort.Search"] = func(x *X, p *Path, c *callCtx) []Outcome {
		n := c.args[0].(*Term)
		f := c.args[1].(*FuncV)
		// call f(i) in a path; the value of each outcome with its state
		call := func(st *State, i *Term) []Outcome {
			var outs []Outcome
			for _, o := range x.callFuncV(&Path{st: st.clone(), fr: p.fr}, f, []Value{i}, under(c.sig.Params().At(1).Type()).(*types.Signature), c.pos, c.in) {
				if o.st.dead {
					continue
				}
				if o.exit {
					fail("sort.Search with a predicate that exits")
				}
				for k, t := range o.st.mem {
					if st.mem[k] != t && (st.mem[k] != nil || !(t.Op == OVar)) {
						fail("sort.Search with a predicate that writes %s", k)
					}
				}
				outs = append(outs, o)
			}
			return outs
		}
		any := p.st.clone()
		j := Var(freshName("probe"), U64S)
		any.assume(And(Sle(C64(0), j), Slt(j, n)))
		if x.feasible(any, TTrue) {
			call(any, j)
		}
		i := Var(freshName("found"), U64S)
		p.st.assume(And(Sle(C64(0), i), Or(Sle(i, n), i.zeroP())))
		var res []Outcome
		// the states of f(i) at the found position
		var mid []*State
		end := p.st.clone()
		end.assume(Sle(n, i))
		if x.feasible(end, TTrue) {
			mid = append(mid, end)
		}
		in := p.st.clone()
		in.assume(Slt(i, n))
		if x.feasible(in, TTrue) {
			for _, o := range call(in, i) {
				o.st.assume(o.vals.(*Term))
				if x.feasible(o.st, TTrue) {
					mid = append(mid, o.st)
				}
			}
		}
		for _, s := range mid {
			z := s.clone()
			z.assume(i.zeroP())
			if x.feasible(z, TTrue) {
				res = append(res, Outcome{vals: i, st: z})
			}
			s.assume(Not(i.zeroP()))
			if !x.feasible(s, TTrue) {
				continue
			}
			for _, o := range call(s, Sub(i, C64(1))) {
				o.st.assume(Not(o.vals.(*Term)))
				if x.feasible(o.st, TTrue) {
					res = append(res, Outcome{vals: i, st: o.st})
				}
			}
		}
		if len(res) == 0 {
			p.st.dead = true
		}
		return res
	}
}

// inlineNow: run f without contracts and without recording obligations.
func (x *X) inlineNow(f func() []Outcome) []Outcome {
	op := x.pure
	x.quiet++
	x.pure = true
	defer func() { x.quiet--; x.pure = op }()
	return f()
}

// sortSlice: after sorting, the n elements of sl are a permutation of those
// before, no later element less than an earlier one.  less runs the
// comparison in a path; its meaning is what its body computes.
func (x *X) sortSlice(p *Path, sl *SliceV, less func(p *Path, i, j *Term) []Outcome, swap func(p *Path, i, j *Term) []Outcome) []Outcome {
	n := sl.Len
	// the callbacks are safe for all positions
	i, j := Var(freshName("sort.i"), U64S), Var(freshName("sort.j"), U64S)
	in := And(Sle(C64(0), i), Slt(i, n), Sle(C64(0), j), Slt(j, n))
	probe := func(f func(p *Path, i, j *Term) []Outcome) []Outcome {
		q := &Path{st: p.st.clone(), fr: p.fr}
		q.st.assume(in)
		if !x.feasible(q.st, TTrue) {
			return nil
		}
		return f(q, i, j)
	}
	for _, o := range probe(less) {
		for k, t := range o.st.mem {
			if !onlyFresh(t, p.st.mem[k], p.st.alloc) {
				fail("sorting with a comparison that writes %s", k)
			}
		}
	}
	if swap != nil {
		for _, o := range probe(swap) {
			if o.st.dead {
				continue
			}
			want := p.st.clone()
			a, b := want.elemAt(sl, i), want.elemAt(sl, j)
			at := func(i *Term) *PtrV {
				return &PtrV{Ref: sl.Ref, Elem: true, Idx: Add(sl.Off, i), Root: sl.Elem, T: sl.Elem}
			}
			want.store(at(i), b)
			want.store(at(j), a)
			k := BVar("swk", U64S)
			for _, l := range leavesOf(sl.Elem) {
				got, w := o.st.elemArr(sl, l), want.elemArr(sl, l)
				x.oblige(o.st, shortName(funcName(p.fr.fn))+": the sort interface swaps", "assert", Forall([]*Term{k}, nil, Eq(Select(got, k), Select(w, k))), 0, x.unit.SafetyProps())
			}
		}
	}
	st := p.st
	pre := st.clone()
	pi, rho := Var(freshName("sort.perm"), ArrS(U64S, U64S)), Var(freshName("sort.inv"), ArrS(U64S, U64S))
	for _, l := range leavesOf(sl.Elem) {
		nm, so := elemMem(sl.Elem, l)
		m := st.get(nm, so)
		v := Var(freshName("sorted"+l.path), so.Val)
		if l.ref {
			memBounds.Store(v.Name, st.alloc)
		}
		st.set(nm, Store(m, sl.Ref, v))
	}
	// perm and inv map positions of the backing array
	b := BVar("sb", U64S)
	inb := func(t *Term) *Term { return Ult(Sub(t, sl.Off), n) }
	st.assume(Forall([]*Term{b}, nil, Implies(inb(b), And(inb(Select(pi, b)), Eq(Select(rho, Select(pi, b)), b)))))
	st.assume(Forall([]*Term{b}, nil, Implies(inb(b), And(inb(Select(rho, b)), Eq(Select(pi, Select(rho, b)), b)))))
	var fw, bw, out []*Term
	for _, l := range leavesOf(sl.Elem) {
		now, old := st.elemArr(sl, l), pre.elemArr(sl, l)
		fw = append(fw, Eq(Select(now, b), Select(old, Select(pi, b))))
		bw = append(bw, Eq(Select(old, b), Select(now, Select(rho, b))))
		out = append(out, Eq(Select(now, b), Select(old, b)))
	}
	st.assume(Forall([]*Term{b}, nil, Implies(inb(b), And(fw...))))
	st.assume(Forall([]*Term{b}, nil, Implies(inb(b), And(bw...))))
	// the elements outside stay
	st.assume(Forall([]*Term{b}, nil, Implies(Not(inb(b)), And(out...))))
	// order: for i < j not less(j, i)
	freshMu.Lock()
	snap := make(map[string]int, len(freshN))
	for k, v := range freshN {
		snap[k] = v
	}
	freshMu.Unlock()
	q := &Path{st: st.clone(), fr: p.fr}
	ord := And(Sle(C64(0), i), Slt(i, j), Slt(j, n))
	q.st.assume(ord)
	base := q.st.conds()
	have := map[*Term]bool{}
	for _, t := range base {
		have[t] = true
	}
	bi, bj := BVar("si", U64S), BVar("sj", U64S)
	sub := map[*Term]*Term{i: bi, j: bj}
	for _, o := range x.inlineNow(func() []Outcome { return less(q, j, i) }) {
		if o.st.dead || o.exit {
			continue
		}
		c := []*Term{ord}
		for _, t := range o.st.conds() {
			if !have[t] {
				c = append(c, t)
			}
		}
		f := Implies(And(c...), Not(o.vals.(*Term)))
		if newVars(f, snap) || f.HasQ {
			continue
		}
		st.assume(Forall([]*Term{bi, bj}, nil, Subst(f, sub)))
	}
	return one(p)
}

// onlyFresh: t is old except at objects allocated since.
func onlyFresh(t, old *Term, alloc uint64) bool {
	for t != old {
		if t.Op == OVar && old == nil {
			return true
		}
		if t.Op != OStore {
			return false
		}
		if r, ok := t.Args[1].U64(); !ok || r < alloc {
			return false
		}
		t = t.Args[0]
	}
	return true
}

// newVars: t mentions a variable made after the snapshot.
func newVars(t *Term, snap map[string]int) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.S.K == SFP { // floating-point ties are of no use and expensive
			return true
		}
		if t.Op == OVar {
			if k := strings.LastIndexByte(t.Name, '!'); k >= 0 {
				s := t.Name[k+1:]
				pre := t.Name[:k]
				e := 0
				for e < len(s) && s[e] >= '0' && s[e] <= '9' {
					e++
				}
				if n, err := strconv.Atoi(s[:e]); err == nil && n > snap[pre] {
					return true
				}
			}
		}
		for _, a := range t.Args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func init() {
	sortIface := func(x *X, p *Path, c *callCtx) []Outcome {
		iv := c.args[0].(*IfaceV)
		flip := false
		for {
			if iv.DynT == nil {
				fail("sorting a value of unknown type")
			}
			pv, ok := iv.Dyn.(*PtrV)
			if !ok || types.TypeString(iv.DynT, func(p *types.Package) string { return p.Path() }) != "*sort.reverse" {
				break
			}
			iv = p.st.load(pv).(*StructV).F[0].(*IfaceV)
			flip = !flip
		}
		sl, ok := iv.Dyn.(*SliceV)
		if !ok {
			fail("sorting a %s", iv.DynT)
		}
		method := func(name string, args ...Value) func(p *Path) []Outcome {
			sel := x.eng.prog.prog.MethodSets.MethodSet(iv.DynT).Lookup(nil, name)
			if sel == nil {
				fail("no method %s", name)
			}
			fn := x.eng.prog.prog.MethodValue(sel)
			return func(p *Path) []Outcome {
				return x.callFunction(p, fn, append([]Value{iv.Dyn}, args...), nil, c.pos, c.in)
			}
		}
		for _, o := range method("Len")(&Path{st: p.st.clone(), fr: p.fr}) {
			x.oblige(o.st, shortName(funcName(p.fr.fn))+": the sort interface gives the length", "assert", Eq(o.vals.(*Term), sl.Len), c.pos, x.unit.SafetyProps())
		}
		return x.sortSlice(p, sl, func(p *Path, i, j *Term) []Outcome {
			if flip {
				i, j = j, i
			}
			return method("Less", i, j)(p)
		}, func(p *Path, i, j *Term) []Outcome { return method("Swap", i, j)(p) })
	}
	models["sort.Sort"] = sortIface
	models["sort.Stable"] = sortIface
	sortFn := func(x *X, p *Path, c *callCtx) []Outcome {
		iv := c.args[0].(*IfaceV)
		sl, ok := iv.Dyn.(*SliceV)
		if !ok {
			fail("sorting a %v", iv.DynT)
		}
		f := c.args[1].(*FuncV)
		sig := under(c.sig.Params().At(1).Type()).(*types.Signature)
		return x.sortSlice(p, sl, func(p *Path, i, j *Term) []Outcome {
			return x.callFuncV(p, f, []Value{i, j}, sig, c.pos, c.in)
		}, nil)
	}
	models["sort.Slice"] = sortFn
	models["sort.SliceStable"] = sortFn
	models["sort.Reverse"] = func(x *X, p *Path, c *callCtx) []Outcome {
		x.eng.prog.ensureBuilt(c.fn)
		if c.fn.Blocks == nil {
			fail("sort.Reverse without a body")
		}
		return x.callFn(c.fn, c.args, nil, p.st, p.fr)
	}
	// rand: any number in the range
	models["math/rand.Int63n"] = func(x *X, p *Path, c *callCtx) []Outcome {
		n := c.args[0].(*Term)
		x.safety(p, "argument of rand.Int63n is positive", Slt(C64(0), n), c.pos)
		r := Var(freshName("rand"), U64S)
		p.st.assume(Ult(r, n))
		return one(p, r)
	}
	models["math/rand.Intn"] = models["math/rand.Int63n"]
	models["math/rand.Seed"] = func(x *X, p *Path, c *callCtx) []Outcome { return one(p) }
}
