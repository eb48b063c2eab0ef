package main

import "go/types"

// The operating system: assumed contracts.  Ghost fsexist[p] says whether a
// path can be found (following symbolic links).

func init() {
	ghostSorts["fsexist"] = ArrS(StrS, BoolS)

	models["os.Stat"] = func(x *X, p *Path, c *callCtx) []Outcome {
		st := p.st
		e := x.anyErr(st, "staterr")
		ex := Select(st.get("g:fsexist", ghostSorts["fsexist"]), c.args[0].(*Term))
		st.assume(Implies(isNilI(e), ex))
		fi := x.freshValue(st, c.sig.Results().At(0).Type(), "fileinfo").(*IfaceV)
		st.assume(Eq(Not(isNilI(fi)), isNilI(e)))
		return one(p, fi, e)
	}

	// os.Exit ends the program; the exit status has to report a failure.
	models["os.Exit"] = func(x *X, p *Path, c *callCtx) []Outcome {
		code := c.args[0].(*Term)
		x.safety(p, "the exit status of a failure is zero", Not(Eq(code, C64(0))), c.pos)
		return []Outcome{{st: p.st, exit: true, code: code}}
	}

	// os.Open opens for reading.  The content of the file named n is
	// fcontent(n), of fsize(n) bytes; it does not change while the program runs.
	models["os.Open"] = func(x *X, p *Path, c *callCtx) []Outcome {
		st := p.st
		pt := c.sig.Results().At(0).Type()
		el := under(pt).(*types.Pointer).Elem()
		r := st.newRef()
		e := x.anyErr(st, "openerr")
		n := c.args[0].(*Term)
		pl, tag := Zext(r, 64), typeTag(pt)
		st.assume(Eq(App("dev", ArrS(U64S, U8S), pl, tag), App("fcontent", ArrS(U64S, U8S), n)))
		sz := App("fsize", U64S, n)
		st.assume(Sle(C64(0), sz))
		st.assume(Eq(App("devlen", U64S, pl, tag), sz))
		st.assume(Eq(App("seekend", U64S, pl), sz))
		return one(p, &PtrV{Ref: Ite(isNilI(e), r, Ref(0)), Root: el, T: el}, e)
	}
	file := func(x *X, p *Path, c *callCtx) (*PtrV, *IfaceV) {
		f := c.args[0].(*PtrV)
		t := types.NewPointer(f.T)
		return f, &IfaceV{Tag: typeTag(t), Pl: Zext(f.Ref, 64), T: t, Dyn: f, DynT: t}
	}
	// methods of *os.File report an error for a nil file
	models["os.(*File).ReadAt"] = func(x *X, p *Path, c *callCtx) []Outcome {
		_, iv := file(x, p, c)
		return readAtModel(x, p, devArr(iv), App("devlen", U64S, iv.Pl, iv.Tag), c.args[1].(*SliceV), c.args[2].(*Term))
	}
	models["os.(*File).Seek"] = func(x *X, p *Path, c *callCtx) []Outcome {
		_, iv := file(x, p, c)
		d := *c
		d.args = append([]Value{iv}, c.args[1:]...)
		return seekModel(x, p, &d)
	}
	models["os.(*File).Close"] = func(x *X, p *Path, c *callCtx) []Outcome {
		return one(p, x.anyErr(p.st, "closeerr"))
	}
}
