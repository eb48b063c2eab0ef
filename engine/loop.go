package main

// Loops: unrolled when decided, otherwise cut at the header with invariants
// that are proved inductive (candidates are pruned until a fixpoint).

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

func (e *Engine) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	e.loopMu.Lock()
	defer e.loopMu.Unlock()
	ls, ok := e.loops[fn]
	if !ok {
		ls = map[*ssa.BasicBlock]*Loop{}
		for _, b := range fn.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) { // back edge b -> s
					L := ls[s]
					if L == nil {
						L = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
						ls[s] = L
					}
					stack := []*ssa.BasicBlock{b}
					for len(stack) > 0 {
						n := stack[len(stack)-1]
						stack = stack[:len(stack)-1]
						if L.blocks[n] {
							continue
						}
						L.blocks[n] = true
						stack = append(stack, n.Preds...)
					}
				}
			}
		}
		e.loops[fn] = ls
	}
	return ls[b]
}

// headerPure: the header can be evaluated without side effects.
func headerPure(b *ssa.BasicBlock) (*ssa.If, bool) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.Extract, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType:
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
				continue
			}
			return nil, false
		case *ssa.If:
			return in, true
		default:
			return nil, false
		}
	}
	return nil, false
}

// evalHeader evaluates a pure header on a copy of p (phis already set).
func (x *X) evalHeader(p *Path) (q *Path, ok bool) {
	if _, pure := headerPure(p.blk); !pure {
		return nil, false
	}
	q = p.clone()
	x.quiet++
	defer func() {
		x.quiet--
		if r := recover(); r != nil {
			if _, is := r.(EngineErr); is {
				q, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	for _, in := range q.blk.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			return q, true
		case *ssa.Call:
			os := x.call(q, &in.Call, in.Pos(), in)
			if len(os) != 1 {
				return nil, false
			}
			q.st = os[0].st
			q.fr.env[in] = os[0].vals
		default:
			x.step(q, in)
		}
	}
	return nil, false
}

func (x *X) tryUnroll(p *Path, L *Loop) bool {
	fi, pure := headerPure(L.header)
	if !pure {
		return false
	}
	n := p.unroll[L.header]
	if n >= maxUnroll {
		return false
	}
	c := p.clone()
	x.doPhis(c)
	q, ok := x.evalHeader(c)
	if !ok {
		return false
	}
	cond := x.val(q, fi.Cond).(*Term)
	if cond != TTrue && cond != TFalse {
		if p.st.pcSet[cond] {
			cond = TTrue
		} else if p.st.pcSet[Not(cond)] {
			cond = TFalse
		} else {
			return false
		}
	}
	if n == 0 && cond == TTrue {
		if bo, ok := fi.Cond.(*ssa.BinOp); ok {
			a, ok1 := x.val(q, bo.X).(*Term)
			b, ok2 := x.val(q, bo.Y).(*Term)
			if ok1 && ok2 && a.IsConst() && b.IsConst() {
				d := Sub(b, a)
				if u, ok := d.U64(); !ok || u > maxUnroll {
					return false
				}
			}
		}
	}
	// leaving through the exit resets the counter so that a later visit may unroll again
	p.unroll[L.header] = n + 1
	if !L.blocks[L.header.Succs[0]] && cond == TTrue || !L.blocks[L.header.Succs[1]] && cond == TFalse {
		p.unroll[L.header] = 0
	}
	return true
}

type loopMemo struct {
	mods    map[string]bool
	dropped map[string]bool
	failed  []string
	ok      map[string]bool
}

type Cand struct {
	label string
	user  bool
	f     func(p *Path) *Term
}

func (x *X) memo(key string) *loopMemo {
	m := x.loopMemo[key]
	if m == nil {
		m = &loopMemo{mods: map[string]bool{}, dropped: map[string]bool{}, ok: map[string]bool{}}
		x.loopMemo[key] = m
	}
	return m
}

// While an outer loop's invariants are being looked for, an invariant of an
// inner loop that was proved before is taken for granted.  The final run
// proves it again; if that fails, everything is done anew without trust.
func (x *X) trusts(m *loopMemo, c *Cand) bool {
	return x.quiet > 0 && !x.noTrust && m.ok[c.label] && !m.dropped[c.label]
}

type lostTrust struct{}

func (x *X) lost(m *loopMemo, c *Cand) {
	if !x.noTrust && x.quiet == 0 && m.ok[c.label] {
		dbg("%s lost in the final run", c.label)
		m.dropped[c.label] = true
		panic(lostTrust{})
	}
}

// safeEval evaluates a candidate; nil if it cannot be evaluated here.
func safeEval(c *Cand, p *Path) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(EngineErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(p)
}

func (x *X) cutLoop(p *Path, L *Loop) (outs []Outcome, exits []*Path) {
	fn := p.fr.fn
	key := fmt.Sprintf("%s@%d", p.fr.stack, L.header.Index)
	memo := x.memo(key)
	entry := p.clone()
	x.doPhis(entry)
	entry.phisDone = true
	S0 := entry.st
	water := S0.alloc
	startID := termCount()
	region := &Region{fn: fn, header: L.header, blocks: L.blocks}

	var phis []*ssa.Phi
	for _, in := range L.header.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			phis = append(phis, ph)
		}
	}
	written := map[string][]*Term{} // memory -> references written
	unknown := map[string]bool{}
	lowered := map[string]bool{} // written at objects made since the function's entry
	cands := x.autoCands(entry, L, phis, water)
	cands = append(cands, x.userCands(entry, L, phis)...)
	// candidates that hold on entry
	var live []*Cand
	{
		type job struct {
			c *Cand
			t *Term
		}
		var jobs []job
		for _, c := range cands {
			if memo.dropped[c.label] {
				continue
			}
			t := safeEval(c, entry)
			if t == nil {
				if c.user {
					dbg("%s: candidate %s not evaluable", key, c.label)
				}
				continue
			}
			jobs = append(jobs, job{c, t})
		}
		res := make([]bool, len(jobs))
		parallel(len(jobs), func(i int) {
			res[i] = x.trusts(memo, jobs[i].c) || x.quickProve(S0, jobs[i].t, jobs[i].c.user)
		})
		for i, j := range jobs {
			if res[i] {
				live = append(live, j.c)
			} else {
				x.lost(memo, j.c)
				memo.dropped[j.c.label] = true
				if j.c.user {
					memo.failed = append(memo.failed, "not established on entry: "+j.c.label)
					dbg("%s: %s not established on entry", key, j.c.label)
				}
			}
		}
	}
	leafCand := map[string]bool{}
	rounds := 0
	if x.eng.verbose {
		dbg("loop %s: %d candidates", key, len(live))
	}
	for {
		rounds++
		if rounds > 60 {
			fail("loop at %s: no fixpoint", key)
		}
		h := entry.clone()
		hs := h.st
		hs.alloc = water + (1 << 20)
		bases := map[string]*Term{}
		for _, name := range sortedKeys(memo.mods) {
			so := memSort(name)
			v := Var(freshName("H:"+name), so)
			bases[name] = v
			if strings.HasPrefix(name, "o:") || strings.HasPrefix(name, "e:") || strings.HasPrefix(name, "m:") {
				if _, ok := refMems.Load(name); ok {
					memBounds.Store(v.Name, hs.alloc)
				}
				if !unknown[name] {
					w := water
					if lowered[name] {
						w = x.entry.alloc
					}
					frames.Store(v.Name, &frameInfo{old: S0.get(name, so), water: w, written: written[name]})
				}
			}
			hs.mem[name] = v
		}
		for _, ph := range phis {
			nv := x.havocValue(ph.Type(), "L:"+ph.Name()+":"+ph.Comment, hs.alloc, h.fr.env[ph])
			h.fr.env[ph] = nv
			hs.wf(nv, ph.Type())
		}
		// iterator counters stay within the map
		var invs []*Term
		for _, c := range live {
			t := safeEval(c, h)
			if t == nil {
				t = TTrue
			}
			invs = append(invs, t)
			hs.assume(t)
		}
		trial := h.clone()
		x.quiet++
		nObl := len(x.obls)
		sub := trial
		_, backs, _ := x.run(sub, region)
		x.obls = x.obls[:nObl]
		x.quiet--
		// modified memory
		changed := false
		for _, b := range backs {
			for _, name := range sortedKeys(b.st.mem) {
				t := b.st.mem[name]
				if bt, ok := hs.mem[name]; ok && bt == t {
					continue
				}
				if _, ok := hs.mem[name]; !ok {
					if t.Op == OVar && t.Name == "M0:"+name {
						continue
					}
				}
				if !memo.mods[name] {
					memo.mods[name] = true
					changed = true
				}
			}
		}
		if changed {
			continue
		}
		for _, name := range sortedKeys(memo.mods) {
			if unknown[name] || !(strings.HasPrefix(name, "o:") || strings.HasPrefix(name, "e:") || strings.HasPrefix(name, "m:")) {
				continue
			}
			for _, b := range backs {
				ws, low, ok := x.writtenRefs(b, b.st.get(name, memSort(name)), bases[name], water, startID, entry, phis)
				if ok && low && !lowered[name] {
					lowered[name] = true
					changed = true
				}
				if !ok {
					dbg("%s: writes to %s not framed", key, name)
					unknown[name] = true
					changed = true
					break
				}
				for _, w := range ws {
					if !containsTerm(written[name], w) {
						written[name] = append(written[name], w)
						changed = true
						// candidate: this leaf keeps its entry value
						if strings.HasPrefix(name, "o:") {
							lab := fmt.Sprintf("auto:unchanged:%s@%d", name, w.ID)
							if !leafCand[lab] && !memo.dropped[lab] {
								leafCand[lab] = true
								nm, ww := name, w
								so := memSort(nm)
								ev := Select(S0.get(nm, so), ww)
								live = append(live, &Cand{label: lab, f: func(p *Path) *Term { return Eq(Select(p.st.get(nm, so), ww), ev) }})
								if _, isRef := refMems.Load(nm); isRef && strings.HasSuffix(nm, ".ref") {
									l2 := lab + ":fresh"
									live = append(live, &Cand{label: l2, f: func(p *Path) *Term {
										cur := Select(p.st.get(nm, so), ww)
										return Or(Eq(cur, ev), Eq(cur, Ref(0)), Ule(Ref(water), cur))
									}})
								}
							}
						}
					}
				}
			}
		}
		if changed {
			continue
		}
		// preservation
		type job struct {
			ci int
			st *State
			t  *Term
		}
		var jobs []job
		for bi, b := range backs {
			if x.inc != nil && b.st.pc != nil && x.inc.check(b.st.conds()) == "unsat" {
				continue
			}
			_ = bi
			nb := b.clone()
			x.doPhis(nb)
			for ci, c := range live {
				if x.trusts(memo, c) {
					continue
				}
				t := safeEval(c, nb)
				if t == nil {
					t = TFalse
				}
				if t == TTrue || nb.st.pcSet[t] {
					continue
				}
				jobs = append(jobs, job{ci, nb.st, t})
			}
		}
		bad := map[int]bool{}
		var mu sync.Mutex
		parallel(len(jobs), func(i int) {
			mu.Lock()
			skip := bad[jobs[i].ci]
			mu.Unlock()
			if skip {
				return
			}
			t0 := time.Now()
			c := live[jobs[i].ci]
			okP := c.user && len(live) > 1 && x.proveAlone(jobs[i].st, jobs[i].t, invs, jobs[i].ci) || x.quickProve(jobs[i].st, jobs[i].t, c.user)
			if d := time.Since(t0); d > 3*time.Second {
				dbg("%s: %s %v: %.1f s", key, live[jobs[i].ci].label, okP, d.Seconds())
			}
			if !okP {
				mu.Lock()
				bad[jobs[i].ci] = true
				mu.Unlock()
			}
		})
		dbg("%s: %d jobs, %d candidates, %d dropped", key, len(jobs), len(live), len(bad))
		if len(bad) > 0 {
			var keep []*Cand
			for ci, c := range live {
				if !bad[ci] {
					keep = append(keep, c)
				} else {
					x.lost(memo, c)
					memo.dropped[c.label] = true
					if c.user {
						memo.failed = append(memo.failed, "not preserved: "+c.label)
						dbg("%s: %s not preserved", key, c.label)
					}
				}
			}
			live = keep
			continue
		}
		for _, c := range live {
			memo.ok[c.label] = true
		}
		if x.quiet == 0 {
			x.eng.countInv(x.unit, len(live), len(jobs))
		}
		if dbgOn {
			for _, c := range live {
				if c.user {
					dbg("%s: keeps %s", key, c.label)
				}
			}
		}
		dbg("%s: final run", key)
		// final run with obligations
		fin := h.clone()
		outs2, backs2, exits2 := x.run(fin, region)
		outs = outs2
		exits = exits2
		if x.unit != nil && x.unit.Terminates && x.quiet == 0 {
			x.checkMeasure(h, backs2, L, phis)
		}
		for _, e := range exits {
			delete(e.unroll, L.header)
		}
		return
	}
}

func termCount() int {
	termMu.Lock()
	defer termMu.Unlock()
	return termN
}

func containsTerm(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func memSort(name string) *Sort {
	s, ok := memSorts.Load(name)
	if !ok {
		fail("sort of memory %s", name)
	}
	return s.(*Sort)
}

// havocValue: unknown value of type t; closures keep their identity.
func (x *X) havocValue(t types.Type, name string, hi uint64, old Value) Value {
	switch o := old.(type) {
	case *FuncV:
		return &FuncV{Sym: Var(freshName(name), RefS)}
	case *PtrV:
		if o.Elem || len(o.Path) > 0 {
			fail("pointer to an element changes in a loop")
		}
	case *IterV:
		return o
	}
	return symbolic(t, freshName(name), hi)
}

// writtenRefs lists the references (below water) at which cur differs from base.
func (x *X) writtenRefs(b *Path, cur, base *Term, water uint64, startID int, entry *Path, phis []*ssa.Phi) ([]*Term, bool, bool) {
	var out []*Term
	ok, low := true, false
	seen := map[*Term]bool{}
	var entryRefs []*Term
	for _, ph := range phis {
		if sl, is := entry.fr.env[ph].(*SliceV); is {
			entryRefs = append(entryRefs, sl.Ref)
		}
	}
	addRef := func(i *Term) {
		lo, hi, known := refBound(i)
		if known && lo >= water {
			return
		}
		_ = hi
		if !dependsAfter(i, startID) {
			out = append(out, i)
			return
		}
		// semantic: fresh or one of the entry references
		cs := []*Term{Ule(Ref(water), i)}
		for _, e := range entryRefs {
			cs = append(cs, Eq(i, e))
		}
		goal := Or(cs...)
		if x.inc != nil && x.inc.check(append(b.st.conds(), Not(goal))) == "unsat" {
			for _, e := range entryRefs {
				if !e.IsZero() {
					out = append(out, e)
				}
			}
			return
		}
		if x.entry != nil && x.inc != nil && x.inc.check(append(b.st.conds(), Not(Eq(i, Ref(0))), Ult(i, Ref(x.entry.alloc)))) == "unsat" {
			low = true
			return
		}
		ok = false
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == base || seen[t] || !ok {
			return
		}
		seen[t] = true
		switch t.Op {
		case OStore:
			addRef(t.Args[1])
			walk(t.Args[0])
		case OIte:
			walk(t.Args[1])
			walk(t.Args[2])
		case OVar:
			f, has := frames.Load(t.Name)
			if !has {
				ok = false
				return
			}
			fr := f.(*frameInfo)
			if fr.water < water {
				if x.entry == nil || fr.water < x.entry.alloc {
					ok = false
					return
				}
				low = true
			}
			for _, w := range fr.written {
				addRef(w)
			}
			walk(fr.old)
		default:
			ok = false
		}
	}
	walk(cur)
	return out, low, ok
}

var depCache sync.Map

// dependsAfter: t mentions a variable created after term number id.
func dependsAfter(t *Term, id int) bool {
	r := false
	collect([]*Term{t}, func(s *Term) {
		if s.Op == OVar && s.ID > id && !strings.HasPrefix(s.Name, "M0:") && !strings.HasPrefix(s.Name, "zero:") {
			r = true
		}
	})
	return r
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		i := i
		go func() { defer wg.Done(); f(i) }()
	}
	wg.Wait()
}

// proveAlone: the invariant is kept without need of the other quantified
// ones, which only distract the solver.
func (x *X) proveAlone(st *State, g *Term, invs []*Term, own int) bool {
	drop := map[*Term]bool{}
	var each func(t *Term, f func(t *Term))
	each = func(t *Term, f func(t *Term)) {
		if t.Op == OAnd {
			for _, a := range t.Args {
				each(a, f)
			}
		}
		if t.HasQ {
			f(t)
		}
	}
	for i, t := range invs {
		if i != own {
			each(t, func(t *Term) { drop[t] = true })
		}
	}
	each(invs[own], func(t *Term) { delete(drop, t) })
	if len(drop) == 0 {
		return false
	}
	var hyp []*Term
	for _, t := range st.conds() {
		if !drop[t] {
			hyp = append(hyp, t)
		}
	}
	goals := []*Term{g}
	if g.Op == OAnd {
		goals = g.Args
	}
	for _, g := range goals {
		if g != TTrue && !st.pcSet[g] && solve(append(hyp[:len(hyp):len(hyp)], Not(g)), nil, 4*time.Second).res != "unsat" {
			return false
		}
	}
	return true
}

// quickProve is used while looking for invariants.
func (x *X) quickProve(st *State, g *Term, user bool) bool {
	if g == TTrue || st.pcSet[g] {
		return true
	}
	if g.Op == OAnd {
		for _, a := range g.Args {
			if !x.quickProve(st, a, user) {
				return false
			}
		}
		return true
	}
	to := 2 * time.Second
	if user {
		to = 40 * time.Second
	}
	if user && !g.HasQ { // most need no quantified hypotheses
		if solve(groundOnly(append(st.conds(), Not(g))), nil, 2*time.Second).res == "unsat" {
			return true
		}
	}
	hyp := append(st.conds(), Not(g))
	if !user { // automatic candidates need no quantified hypotheses
		hyp = groundOnly(hyp)
	}
	r := solve(hyp, nil, to)
	return r.res == "unsat"
}

// ---- automatic candidates

func (x *X) autoCands(entry *Path, L *Loop, phis []*ssa.Phi, water uint64) []*Cand {
	var out []*Cand
	add := func(l string, f func(p *Path) *Term) { out = append(out, &Cand{label: "auto:" + l, f: f}) }
	type iv struct {
		ph  *ssa.Phi
		e   *Term
		sgn bool
	}
	var ints []iv
	for _, ph := range phis {
		ph := ph
		switch e := entry.fr.env[ph].(type) {
		case *Term:
			b, ok := under(ph.Type()).(*types.Basic)
			if ok && b.Info()&types.IsInteger != 0 {
				ints = append(ints, iv{ph, e, signed(ph.Type())})
				add(ph.Name()+">=entry", func(p *Path) *Term { return Sle(e, p.fr.env[ph].(*Term)) })
				add(ph.Name()+">=entry(u)", func(p *Path) *Term { return Ule(e, p.fr.env[ph].(*Term)) })
				add(ph.Name()+"<=entry", func(p *Path) *Term { return Sle(p.fr.env[ph].(*Term), e) })
				add(ph.Name()+"<=entry(u)", func(p *Path) *Term { return Ule(p.fr.env[ph].(*Term), e) })
				if w := e.S.W; w == 64 {
					add(ph.Name()+">=0", func(p *Path) *Term { return Sle(C64(0), p.fr.env[ph].(*Term)) })
					add(ph.Name()+">=-1", func(p *Path) *Term { return Sle(BVi(64, -1), p.fr.env[ph].(*Term)) })
				}
			}
			if e.S == RefS && !ok {
				add(ph.Name()+"==entry", func(p *Path) *Term { return Eq(p.fr.env[ph].(*Term), e) })
			}
		case *SliceV:
			add(ph.Name()+".ref", func(p *Path) *Term {
				r := p.fr.env[ph].(*SliceV).Ref
				return Or(Eq(r, e.Ref), Eq(r, Ref(0)), Ule(Ref(water), r))
			})
			add(ph.Name()+".nilorfresh", func(p *Path) *Term {
				r := p.fr.env[ph].(*SliceV).Ref
				return Or(Eq(r, Ref(0)), Ule(Ref(water), r))
			})
			add(ph.Name()+".off0", func(p *Path) *Term { return Eq(p.fr.env[ph].(*SliceV).Off, C64(0)) })
			add(ph.Name()+".len>=", func(p *Path) *Term { return Ule(e.Len, p.fr.env[ph].(*SliceV).Len) })
			add(ph.Name()+".same", func(p *Path) *Term {
				s := p.fr.env[ph].(*SliceV)
				return And(Eq(s.Ref, e.Ref), Eq(s.Off, e.Off), Eq(s.Len, e.Len), Eq(s.Cap, e.Cap))
			})
		case *PtrV:
			if !e.Elem && len(e.Path) == 0 {
				add(ph.Name()+"==entry", func(p *Path) *Term { return Eq(p.fr.env[ph].(*PtrV).Ref, e.Ref) })
				add(ph.Name()+"!=nil", func(p *Path) *Term { return Not(Eq(p.fr.env[ph].(*PtrV).Ref, Ref(0))) })
			}
		}
	}
	for i := range ints {
		for j := 0; j < i; j++ {
			a, b := ints[i], ints[j]
			if a.e.S == b.e.S {
				d := Sub(a.e, b.e)
				add(a.ph.Name()+"-"+b.ph.Name(), func(p *Path) *Term {
					return Eq(Sub(p.fr.env[a.ph].(*Term), p.fr.env[b.ph].(*Term)), d)
				})
			}
			// a - ea == step * (b - eb)
		}
		a := ints[i]
		for _, sl := range phis {
			sl := sl
			if es, ok := entry.fr.env[sl].(*SliceV); ok && a.e.S.W == 64 {
				d := Sub(es.Len, a.e)
				add("len("+sl.Name()+")-"+a.ph.Name(), func(p *Path) *Term {
					return Eq(Sub(p.fr.env[sl].(*SliceV).Len, p.fr.env[a.ph].(*Term)), d)
				})
				// one element per iteration of a range loop starting at -1
			}
		}
	}
	if fi, pure := headerPure(L.header); pure {
		if bo, ok := fi.Cond.(*ssa.BinOp); ok {
			if q, ok := x.evalHeader(entry); ok {
				for _, ops := range [][2]ssa.Value{{bo.X, bo.Y}, {bo.Y, bo.X}} {
					X, Y := ops[0], ops[1]
					if _, isPhi := Y.(*ssa.Phi); isPhi {
						continue
					}
					ey, ok := x.val(q, Y).(*Term)
					if !ok || ey.S.K != SBV {
						continue
					}
					_ = X
					evalY := func(p *Path) *Term {
						qq, ok := x.evalHeader(p)
						if !ok {
							fail("header")
						}
						return x.val(qq, Y).(*Term)
					}
					for _, v := range ints {
						v := v
						if v.e.S != ey.S {
							continue
						}
						add(v.ph.Name()+"<=bound", func(p *Path) *Term { return Sle(p.fr.env[v.ph].(*Term), evalY(p)) })
						add(v.ph.Name()+"<bound", func(p *Path) *Term { return Slt(p.fr.env[v.ph].(*Term), evalY(p)) })
						add(v.ph.Name()+"<=bound(u)", func(p *Path) *Term { return Ule(p.fr.env[v.ph].(*Term), evalY(p)) })
						add(v.ph.Name()+">=bound", func(p *Path) *Term { return Sle(evalY(p), p.fr.env[v.ph].(*Term)) })
					}
				}
			}
		}
	}
	return out
}

// ---- termination

func (x *X) checkMeasure(h *Path, backs []*Path, L *Loop, phis []*ssa.Phi) {
	name := shortName(funcName(h.fr.fn)) + ": loop terminates"
	var ms []*Cand
	add := func(l string, f func(p *Path) *Term) { ms = append(ms, &Cand{label: l, f: f}) }
	for name := range h.st.mem {
		if strings.HasPrefix(name, "it:") && strings.HasSuffix(name, ":count") {
			nm := name
			var id int
			fmt.Sscanf(nm, "it:%d:count", &id)
			add(nm, func(p *Path) *Term {
				is := p.st.iters[id]
				ln, _ := p.st.mapLen(is.mt)
				return Sub(Select(ln, is.m), p.st.mem[nm])
			})
		}
	}
	if fi, pure := headerPure(L.header); pure {
		if bo, ok := fi.Cond.(*ssa.BinOp); ok {
			f := func(a, b ssa.Value) func(p *Path) *Term {
				return func(p *Path) *Term {
					q, ok := x.evalHeader(p)
					if !ok {
						fail("header")
					}
					A, B := x.val(q, a).(*Term), x.val(q, b).(*Term)
					if A.S.K != SBV {
						fail("measure")
					}
					return Zext(Sub(B, A), 64)
				}
			}
			add("bound-x", f(bo.X, bo.Y))
			add("x-bound", f(bo.Y, bo.X))
		}
	}
	for _, ph := range phis {
		ph := ph
		if t, ok := h.fr.env[ph].(*Term); ok && t.S == U64S {
			add("down:"+ph.Name(), func(p *Path) *Term { return p.fr.env[ph].(*Term) })
			add("up:"+ph.Name(), func(p *Path) *Term { return BNot(p.fr.env[ph].(*Term)) })
		}
	}
	ms = append(ms, x.userMeasures(h, phis)...)
	live := []*Path{}
	for _, b := range backs {
		if x.inc != nil && x.inc.check(b.st.conds()) == "unsat" {
			continue
		}
		nb := b.clone()
		x.doPhis(nb)
		live = append(live, nb)
	}
	for _, m := range ms {
		v0 := safeEval(m, h)
		if v0 == nil {
			continue
		}
		all := true
		for _, b := range live {
			v1 := safeEval(m, b)
			if v1 == nil || !x.quickProve(b.st, Ult(v1, v0), true) {
				all = false
				break
			}
		}
		if all {
			x.eng.countInv(x.unit, 0, len(live))
			x.trivial[name]++
			return
		}
	}
	st := h.st
	if len(live) > 0 {
		st = live[0].st
	}
	o := &Obl{Unit: x.unit.Name, Name: name, Kind: "termination", Props: x.unit.TermProps(), Hyp: st.conds(), Goal: TFalse, Trace: st.trace}
	o.Detail = "no decreasing measure found"
	x.obls = append(x.obls, o)
}

var _ = token.NoPos
