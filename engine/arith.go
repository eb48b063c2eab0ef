package main

// Division by constants: an uninterpreted quotient with its defining facts.

import (
	"fmt"
	"math/big"
	"strings"
)

func isDiv(t *Term, p string) bool {
	return t.Op == OApp && len(t.Args) == 2 && strings.HasPrefix(t.Name, p) && t.Args[1].Op == OConst && t.Name == fmt.Sprintf("%s%d", p, t.S.W)
}

// divFacts: q is the quotient of x by the constant c.
func divFacts(t *Term) *Term {
	x, c := t.Args[0], t.Args[1]
	w := t.S.W
	if strings.HasPrefix(t.Name, "udiv") {
		max := new(big.Int).Div(mask(w), c.V)
		r := Sub(x, Mul(t, c))
		return And(Ule(t, BVBig(w, max)), Ule(Mul(t, c), x), Ult(r, c))
	}
	half := new(big.Int).Lsh(big.NewInt(1), uint(w-1))
	max := new(big.Int).Div(half, c.V)
	r := Sub(x, Mul(t, c))
	zero := BV(w, 0)
	lo := BVBig(w, new(big.Int).Neg(max))
	pos := And(Sle(zero, t), Sle(t, BVBig(w, max)), Sle(zero, r), Slt(r, c), Sle(Mul(t, c), x), Sle(zero, Mul(t, c)))
	neg := And(Sle(lo, t), Sle(t, zero), Sle(r, zero), Slt(Neg(c), r))
	return Ite(Sle(zero, x), pos, neg)
}

func divAxioms(ts []*Term) []*Term {
	var out []*Term
	seen := map[string]bool{}
	collect(ts, func(t *Term) {
		if !isDiv(t, "udiv") && !isDiv(t, "sdiv") {
			return
		}
		if !t.HasB {
			out = append(out, divFacts(t))
			return
		}
		k := t.Name + t.Args[1].String()
		if !seen[k] {
			seen[k] = true
			b := BVar("dv!x", t.S)
			q := App(t.Name, t.S, b, t.Args[1])
			out = append(out, Forall([]*Term{b}, [][]*Term{{q}}, divFacts(q)))
		}
	})
	return out
}

func init() { axiomHooks = append(axiomHooks, divAxioms) }

// monoAxioms: multiplication by a positive constant is monotone while it does
// not overflow, for the products that occur.
func monoAxioms(ts []*Term) []*Term {
	groups := map[string][]*Term{}
	consts := map[string]*big.Int{}
	var keys []string
	seen := map[string]bool{}
	add := func(x *Term, c *big.Int) {
		if x.HasB || x.Op == OConst {
			return
		}
		k := fmt.Sprintf("%d:%s", x.S.W, c)
		kk := fmt.Sprintf("%s:%d", k, x.ID)
		if seen[kk] {
			return
		}
		seen[kk] = true
		if consts[k] == nil {
			consts[k] = c
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], x)
	}
	collect(ts, func(t *Term) {
		if t.Op != OMul || t.HasB || len(t.Args) != 2 {
			return
		}
		c, x := t.Args[0], t.Args[1]
		if c.Op != OConst {
			c, x = x, c
		}
		if c.Op != OConst {
			return
		}
		v := c.Signed()
		v = new(big.Int).Abs(v)
		if v.Sign() == 0 || v.BitLen() > 40 || log2(v) >= 0 {
			return
		}
		add(x, v)
	})
	var out []*Term
	for _, k := range keys {
		g, c := groups[k], consts[k]
		if len(g) > 10 {
			g = g[:10]
		}
		w := g[0].S.W
		cc := BVBig(w, c)
		max := BVBig(w, new(big.Int).Div(mask(w), c))
		for _, a := range g {
			for _, b := range g {
				if a != b {
					out = append(out, Implies(And(Ult(a, b), Ule(b, max)), Ule(Add(Mul(cc, a), cc), Mul(cc, b))))
					out = append(out, Implies(And(Ult(a, max), Ult(Add(a, BV(w, 1)), b), Ule(b, max)), Ule(Add(Mul(cc, a), Mul(BV(w, 2), cc)), Mul(cc, b))))
					out = append(out, Implies(Eq(b, Add(a, BV(w, 1))), Eq(Add(Mul(cc, a), cc), Mul(cc, b))))
				}
			}
		}
	}
	return out
}

func init() { axiomHooks = append(axiomHooks, monoAxioms) }

// abstractMul replaces products by constants with uninterpreted functions that
// keep the facts added by the hooks; an unsatisfiable abstraction means an
// unsatisfiable original.
func abstractMul(ts []*Term) ([]*Term, bool) {
	memo := map[*Term]*Term{}
	var prods []*Term
	var v func(t *Term) *Term
	v = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.Op == OForall || t.Op == OExists {
			var pats [][]*Term
			ch := false
			for _, p := range t.Pats {
				var q []*Term
				for _, y := range p {
					z := v(y)
					ch = ch || z != y
					q = append(q, z)
				}
				pats = append(pats, q)
			}
			if b := v(t.Args[0]); ch || b != t.Args[0] {
				r = Quant(t.Op, t.Bound, pats, b)
			}
		} else if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = v(a)
				ch = ch || args[i] != a
			}
			if ch {
				r = Rebuild(t, args)
			}
		}
		if r.Op == OMul && len(r.Args) == 2 {
			c, x := r.Args[0], r.Args[1]
			if c.Op != OConst {
				c, x = x, c
			}
			if r.HasB && c.Op == OConst {
				// products inside quantifiers stay as they are
			} else if c.Op != OConst && r.S.W == 64 {
				if k, l := factorOrder(c), factorOrder(x); k > l || k == l && c.ID > x.ID {
					c, x = x, c
				}
				r = App("mulvv", r.S, c, x)
				if r.HasB {
					memo[t] = r
					return r
				}
				prods = append(prods, r)
				for _, k := range []uint{8, 16, 32, 40} {
					for _, l := range []uint{8, 16, 32, 40} {
						if k+l < 64 {
							prods = append(prods, Implies(And(Ult(c, C64(1<<k)), Ult(x, C64(1<<l))), Ult(r, C64(1<<(k+l)))))
						}
					}
				}
			} else if c.Op == OConst && x.Op != OConst {
				s := c.Signed()
				neg := s.Sign() < 0
				a := new(big.Int).Abs(s)
				if a.BitLen() > 1 && log2(a) < 0 {
					p := App(fmt.Sprintf("mulk:%s:%d", a, r.S.W), r.S, x)
					prods = append(prods, p)
					for _, k := range []uint{8, 16, 24, 32, 36, 40, 48} {
						if int(k)+a.BitLen() < r.S.W {
							lim := new(big.Int).Lsh(big.NewInt(1), k)
							prods = append(prods, Implies(Ult(x, BVBig(r.S.W, lim)), Ule(p, BVBig(r.S.W, new(big.Int).Mul(a, new(big.Int).Sub(lim, big.NewInt(1)))))))
						}
					}
					r2 := p
					if neg {
						r2 = Neg(p)
					}
					r = r2
				}
			}
		}
		memo[t] = r
		return r
	}
	out := make([]*Term, 0, len(ts))
	for _, t := range ts {
		out = append(out, v(t))
	}
	if len(prods) == 0 {
		return ts, false
	}
	for _, p := range prods {
		if p.S == BoolS {
			out = append(out, p)
		}
	}
	return out, true
}

// factorOrder: an order of factors that instantiation does not disturb.
func factorOrder(t *Term) int {
	switch {
	case t.HasB:
		return 0
	case t.Op == OVar && strings.HasPrefix(t.Name, "p:"):
		return 2
	}
	return 1
}

// acopyAxioms: what copied arrays hold, for the copies that occur.
func acopyAxioms(ts []*Term) []*Term {
	var out []*Term
	collect(ts, func(t *Term) {
		if t.Op != OApp || t.Name != "acopy" || t.HasB {
			return
		}
		i := BVar(fmt.Sprintf("ac!%d", t.ID), t.S.Key)
		sel := intern(&Term{Op: OSelect, S: t.S.Val, Args: []*Term{t, i}})
		out = append(out, Forall([]*Term{i}, [][]*Term{{sel}}, Eq(sel, Select(t, i))))
	})
	return out
}

func init() { axiomHooks = append([]func([]*Term) []*Term{acopyAxioms}, axiomHooks...) }

// quotientAxioms: x < d/y means x*y+y <= d, for the products and quotients
// that occur together.
func quotientAxioms(ts []*Term) []*Term {
	var muls, divs []*Term
	collect(ts, func(t *Term) {
		if t.HasB || t.S.K != SBV {
			return
		}
		if t.Op == OUdiv && t.Args[1].Op != OConst {
			divs = append(divs, t)
		}
		if t.Op == OMul && len(t.Args) == 2 && t.Args[0].Op != OConst && t.Args[1].Op != OConst {
			muls = append(muls, t)
		}
	})
	var out []*Term
	for _, d := range divs {
		a, y := d.Args[0], d.Args[1]
		for _, m := range muls {
			x := m.Args[0]
			if x == y {
				x = m.Args[1]
			} else if m.Args[1] != y {
				continue
			}
			out = append(out, Implies(And(Not(Eq(y, BV(y.S.W, 0))), Ult(x, d)), And(Ule(y, a), Ule(m, Sub(a, y)))))
		}
	}
	return out
}

func init() { axiomHooks = append(axiomHooks, quotientAxioms) }
