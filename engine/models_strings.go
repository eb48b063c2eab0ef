package main

import "go/types"

// strings: assumed contracts.

func init() {
	pure := func(n string) {
		models[n] = func(x *X, p *Path, c *callCtx) []Outcome {
			var a []*Term
			for _, v := range c.args {
				a = append(a, v.(*Term))
			}
			so := StrS
			if b, ok := under(c.sig.Results().At(0).Type()).(*types.Basic); ok && b.Kind() == types.Bool {
				so = BoolS
			}
			r := App(n, so, a...)
			if so == StrS {
				p.st.assume(Ule(slenOf(r), C64(maxObjLen)))
			}
			return one(p, r)
		}
	}
	pure("strings.TrimLeft")
	pure("strings.TrimPrefix")

	// strings.Split(s, sep): a new slice of the parts of s, which are named
	// by splitn(s, sep) and splitat(s, sep)[i]; at least one unless sep is empty.
	models["strings.Split"] = func(x *X, p *Path, c *callCtx) []Outcome {
		s, sep := c.args[0].(*Term), c.args[1].(*Term)
		st := p.st
		n := App("splitn", U64S, s, sep)
		st.assume(Ule(n, C64(maxObjLen)))
		st.assume(Or(Eq(slenOf(sep), C64(0)), Ule(C64(1), n)))
		r := st.newRef()
		t := types.Typ[types.String]
		nm, so := elemMem(t, leaf{"", StrS, false})
		arr := App("splitat", so.Val, s, sep)
		st.set(nm, Store(st.get(nm, so), r, arr))
		return one(p, &SliceV{r, C64(0), n, n, t})
	}
}
