package main

// A quantifier-free weakening of a script: goals are skolemised and universal
// hypotheses replaced by their instances at the index terms that occur.  An
// unsatisfiable weakening means an unsatisfiable original.

import "fmt"

const maxInst = 48

type instantiator struct {
	n     int
	cands map[string][]*Term // key: where the bound variable occurs
	seen  map[string]bool
	memo  map[string]*Term
	skol  map[*Term][]*Term
}

// posKey identifies an index position: the array's sort and root, or the function and argument.
func arrRoot(a *Term) string {
	for {
		switch a.Op {
		case OStore:
			a = a.Args[0]
			continue
		case OIte:
			a = a.Args[1]
			continue
		}
		break
	}
	return a.S.String()
}

func (in *instantiator) addCand(key string, t *Term) {
	if t.HasB || t.HasQ {
		return
	}
	k := fmt.Sprintf("%s#%d", key, t.ID)
	if in.seen[k] {
		return
	}
	in.seen[k] = true
	if len(in.cands[key]) < maxInst {
		in.cands[key] = append(in.cands[key], t)
	}
}

func (in *instantiator) gather(ts []*Term) {
	collect(ts, func(t *Term) {
		switch t.Op {
		case OSelect:
			in.addCand(arrRoot(t.Args[0]), t.Args[1])
		case OStore:
			in.addCand(arrRoot(t), t.Args[1])
		case OApp:
			for i, a := range t.Args {
				if a.S.K == SBV || a.S.K == SU {
					in.addCand(fmt.Sprintf("f:%s:%d", t.Name, i), a)
				}
			}
		}
	})
}

// candidates for the bound variable b of q.
func (in *instantiator) candidates(q, b *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t.S == b.S && !seen[t] && !t.HasB {
			seen[t] = true
			out = append(out, t)
		}
	}
	at := func(key string, idx *Term) {
		fb := map[*Term]bool{}
		freeBound(idx, fb)
		if !fb[b] {
			return
		}
		rest := BV(1, 0)
		if idx.Op == OConcat { // b as a part of the index
			lo := idx.S.W
			for _, a := range idx.Args {
				lo -= a.S.W
				if a == b {
					for _, c := range in.cands[key] {
						if c.S == idx.S {
							add(Extract(c, lo+b.S.W-1, lo))
						}
					}
				}
			}
			return
		}
		if idx != b {
			if idx.S != b.S || b.S.K != SBV {
				return
			}
			rest = Sub(idx, b)
			if rest.HasB {
				return
			}
		}
		for _, c := range in.cands[key] {
			if c.S != idx.S {
				continue
			}
			if idx == b {
				add(c)
			} else {
				add(Sub(c, rest))
			}
		}
	}
	collect([]*Term{q.Args[0]}, func(t *Term) {
		switch t.Op {
		case OSelect:
			at(arrRoot(t.Args[0]), t.Args[1])
		case OApp:
			for i, a := range t.Args {
				at(fmt.Sprintf("f:%s:%d", t.Name, i), a)
			}
		}
	})
	for _, c := range in.cands["sk:"+b.S.String()] {
		add(c)
	}
	if len(out) > maxInst {
		out = out[:maxInst]
	}
	return out
}

func (in *instantiator) skolems(q *Term) []*Term {
	if s, ok := in.skol[q]; ok {
		return s
	}
	var s []*Term
	for _, b := range q.Bound {
		v := Var(fmt.Sprintf("sk!%d!%d", q.ID, len(s)), b.S)
		s = append(s, v)
		in.addCand("sk:"+b.S.String(), v)
	}
	in.skol[q] = s
	return s
}

// weaken: pol=true for an asserted formula, false for a negated one.
func (in *instantiator) weaken(t *Term, pol, inst bool) *Term {
	if !t.HasQ {
		return t
	}
	switch t.Op {
	case ONot:
		return Not(in.weaken(t.Args[0], !pol, inst))
	case OAnd, OOr:
		var as []*Term
		for _, a := range t.Args {
			as = append(as, in.weaken(a, pol, inst))
		}
		if t.Op == OAnd {
			return And(as...)
		}
		return Or(as...)
	case OIte:
		c, a, b := t.Args[0], t.Args[1], t.Args[2]
		if !c.HasQ {
			return Ite(c, in.weaken(a, pol, inst), in.weaken(b, pol, inst))
		}
		return And(Or(in.weaken(c, !pol, inst).not(), in.weaken(a, pol, inst)), Or(in.weaken(c, pol, inst), in.weaken(b, pol, inst)))
	case OEq:
		if a, b := t.Args[0], t.Args[1]; a.S == BoolS {
			return And(Or(in.weaken(a, !pol, inst).not(), in.weaken(b, pol, inst)), Or(in.weaken(b, !pol, inst).not(), in.weaken(a, pol, inst)))
		}
	case OForall, OExists:
		if t.HasB {
			return Bool(pol)
		}
		if (t.Op == OForall) != pol { // goal: skolemise
			s := in.skolems(t)
			m := map[*Term]*Term{}
			for i, b := range t.Bound {
				m[b] = s[i]
			}
			return in.weaken(Subst(t.Args[0], m), pol, inst)
		}
		if !inst {
			return Bool(pol)
		}
		combos := []map[*Term]*Term{{}}
		for _, b := range t.Bound {
			cs := in.candidates(t, b)
			var next []map[*Term]*Term
			for _, m := range combos {
				for _, c := range cs {
					if len(next) >= 2*maxInst {
						break
					}
					n := map[*Term]*Term{b: c}
					for k, v := range m {
						n[k] = v
					}
					next = append(next, n)
				}
			}
			combos = next
		}
		var as []*Term
		for _, m := range combos {
			as = append(as, in.weaken(Subst(t.Args[0], m), pol, inst))
		}
		if pol {
			return And(as...)
		}
		return Or(as...)
	}
	return Bool(pol)
}

// instantiateAll returns the weakened assertions (ok=false: nothing to do).
func instantiateAll(ts []*Term) ([]*Term, bool) {
	any := false
	for _, t := range ts {
		any = any || t.HasQ
	}
	if !any {
		return nil, false
	}
	in := &instantiator{cands: map[string][]*Term{}, seen: map[string]bool{}, skol: map[*Term][]*Term{}}
	var cur []*Term
	for _, t := range ts {
		cur = append(cur, in.weaken(t, true, false))
	}
	for r := 0; r < 2; r++ {
		in.gather(cur)
		var next []*Term
		for _, t := range ts {
			next = append(next, in.weaken(t, true, true))
		}
		cur = next
	}
	size := 0
	collect(cur, func(*Term) { size++ })
	if size > 60000 {
		return nil, false
	}
	return cur, true
}

func (t *Term) not() *Term { return Not(t) }
