package main

// Models of functions outside the module: contracts assumed on dependencies.
// Each one used by a check is listed in its evidence as an assumption.

import (
	"go/types"
)

var byteT = types.Typ[types.Uint8]

func (x *X) nilErr() *IfaceV { return zeroValue(errorT()).(*IfaceV) }

func errorT() types.Type { return types.Universe.Lookup("error").Type() }

// newErr: an error made by errors.New or fmt.Errorf: non-nil and different
// from every other error value.
func (x *X) newErr(st *State) *IfaceV {
	t := errStringType()
	r := st.newRef()
	p := &PtrV{Ref: r, Root: t, T: t}
	return &IfaceV{Tag: typeTag(types.NewPointer(t)), Pl: Zext(r, 64), T: errorT(), Dyn: p, DynT: types.NewPointer(t)}
}

// anyErr: an unknown error value (possibly nil).
func (x *X) anyErr(st *State, n string) *IfaceV {
	return x.freshValue(st, errorT(), n).(*IfaceV)
}

func isNilI(v *IfaceV) *Term { return Eq(v.Tag, BV(32, 0)) }

func hexDigit(c *Term) *Term {
	in := func(lo, hi uint64) *Term { return And(Ule(BV(8, lo), c), Ule(c, BV(8, hi))) }
	return Or(in('0', '9'), in('a', 'f'), in('A', 'F'))
}
func hexVal(c *Term) *Term {
	return Ite(Ule(c, BV(8, '9')), Sub(c, BV(8, '0')), Ite(Ule(c, BV(8, 'F')), Sub(c, BV(8, 55)), Sub(c, BV(8, 87))))
}

// devAt: byte i of the content behind a reader (fixed while the program runs).
func devArr(iv *IfaceV) *Term { return App("dev", ArrS(U64S, U8S), iv.Pl, iv.Tag) }

func init() {
	ghostSorts["seekpos"] = U64S
	ghostSorts["lastread"] = U64S // number of bytes the last ReadAt delivered

	models["errors.New"] = func(x *X, p *Path, c *callCtx) []Outcome { return one(p, x.newErr(p.st)) }
	models["fmt.Errorf"] = func(x *X, p *Path, c *callCtx) []Outcome { return one(p, x.newErr(p.st)) }

	models["strings.Replace"] = func(x *X, p *Path, c *callCtx) []Outcome {
		n := c.args[3].(*Term)
		if n.Op != OConst || n.Signed().Sign() >= 0 {
			return one(p, App("strings.ReplaceN", StrS, c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term), n))
		}
		return one(p, App("strings.Replace", StrS, c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term)))
	}
	models["strings.ReplaceAll"] = func(x *X, p *Path, c *callCtx) []Outcome {
		return one(p, App("strings.Replace", StrS, c.args[0].(*Term), c.args[1].(*Term), c.args[2].(*Term)))
	}

	// hex.DecodeString(s): on success the bytes; otherwise an error and the
	// bytes decoded before it.
	models["encoding/hex.DecodeString"] = func(x *X, p *Path, c *callCtx) []Outcome {
		s := c.args[0].(*Term)
		st := p.st
		sl := slenOf(s)
		st.assume(Ule(sl, C64(maxObjLen)))
		arr := Var(freshName("hexbytes"), ArrS(U64S, U8S))
		n := Lshr(sl, C64(1))
		k := BVar("hx", U64S)
		at := func(i *Term) *Term { return Select(SArr2(s), i) }
		good := Forall([]*Term{k}, [][]*Term{{at(k)}}, Implies(Ult(k, sl), hexDigit(at(k))))
		okS := st.clone()
		okS.assume(Eq(Extract(sl, 0, 0), BV(1, 0)))
		okS.assume(good)
		pair := func(i *Term) *Term {
			d := Shl(i, C64(1))
			return BOr(Shl(hexVal(at(d)), BV(8, 4)), hexVal(at(Add(d, C64(1)))))
		}
		okS.assume(Forall([]*Term{k}, [][]*Term{{Select(arr, k)}}, Implies(Ult(k, n), Eq(Select(arr, k), pair(k)))))
		for i := uint64(0); i < 16; i++ { // instances for identifiers
			okS.assume(Implies(Ult(C64(i), n), And(Eq(Select(arr, C64(i)), pair(C64(i))),
				hexDigit(at(C64(2*i))), hexDigit(at(C64(2*i+1))))))
		}
		okV := okS.newBytes(arr, n)
		badS := st.clone()
		w := Var(freshName("badhex"), U64S)
		badS.assume(Or(Eq(Extract(sl, 0, 0), BV(1, 1)), And(Ult(w, sl), Not(hexDigit(at(w))))))
		bn := Var(freshName("badhexlen"), U64S)
		badS.assume(Ule(bn, n))
		badV := badS.newBytes(Var(freshName("badhexbytes"), ArrS(U64S, U8S)), bn)
		return []Outcome{
			{vals: TupleV{okV, x.nilErr()}, st: okS},
			{vals: TupleV{badV, x.newErr(badS)}, st: badS},
		}
	}

	// (io.Seeker).Seek(off, whence): Seek(0, io.SeekEnd) reports the size.
	models["(io.Seeker).Seek"] = seekModel
	models["(io.ReadSeeker).Seek"] = seekModel

	// (io.ReaderAt).ReadAt(p, off): 0 <= n <= len(p); p[:n] is the content at
	// off; n < len(p) implies an error; the rest of p may be scribbled on.
	models["(io.ReaderAt).ReadAt"] = func(x *X, p *Path, c *callCtx) []Outcome {
		iv := c.args[0].(*IfaceV)
		return readAtModel(x, p, devArr(iv), App("devlen", U64S, iv.Pl, iv.Tag), c.args[1].(*SliceV), c.args[2].(*Term))
	}

	models["bytes.Equal"] = func(x *X, p *Path, c *callCtx) []Outcome {
		return one(p, bytesEq(p.st, c.args[0].(*SliceV), c.args[1].(*SliceV)))
	}
	models["bytes.HasPrefix"] = func(x *X, p *Path, c *callCtx) []Outcome {
		a, b := c.args[0].(*SliceV), c.args[1].(*SliceV)
		a2 := *a
		a2.Len = b.Len
		if n, ok := b.Len.U64(); ok && n <= 64 {
			return one(p, And(Ule(b.Len, a.Len), bytesEq(p.st, &a2, b)))
		}
		return one(p, And(Ule(b.Len, a.Len), Eq(p.st.bytesToString(&a2), p.st.bytesToString(b))))
	}
	models["bytes.Compare"] = func(x *X, p *Path, c *callCtx) []Outcome {
		a, b := c.args[0].(*SliceV), c.args[1].(*SliceV)
		na, ok1 := a.Len.U64()
		nb, ok2 := b.Len.U64()
		if !ok1 || !ok2 || na != nb || na > 64 {
			// same length is needed for the comparison as numbers
			if k := x.constLen(p.st, a, b); k > 0 {
				na = k
			} else {
				fail("bytes.Compare of slices whose lengths are not known to be equal")
			}
		}
		ka, kb := bytesBE(p.st, a, na), bytesBE(p.st, b, na)
		return one(p, Ite(Eq(ka, kb), C64(0), Ite(Ult(ka, kb), BVi(64, -1), C64(1))))
	}

	models["hash/crc32.MakeTable"] = func(x *X, p *Path, c *callCtx) []Outcome {
		t := c.sig.Results().At(0).Type()
		el := under(t).(*types.Pointer).Elem()
		// a table is identified by its polynomial
		poly := c.args[0].(*Term)
		if v, ok := poly.U64(); ok {
			return one(p, &PtrV{Ref: Ref(crcTable(v)), Root: el, T: el})
		}
		fail("crc32.MakeTable of an unknown polynomial")
		return nil
	}
	// crc32.Update(c, tab, b) = ^crcraw(^c, polynomial, b), crcraw being the CRC
	// register after b without inversions.
	models["hash/crc32.Update"] = func(x *X, p *Path, c *callCtx) []Outcome {
		b := c.args[2].(*SliceV)
		tab := c.args[1].(*PtrV)
		return one(p, BNot(App("crcraw", BVS(32), BNot(c.args[0].(*Term)), crcPoly(tab.Ref), p.st.bytesToString(b))))
	}
	models["hash/crc32.Checksum"] = func(x *X, p *Path, c *callCtx) []Outcome {
		b := c.args[0].(*SliceV)
		tab := c.args[1].(*PtrV)
		return one(p, BNot(App("crcraw", BVS(32), BV(32, 0xffffffff), crcPoly(tab.Ref), p.st.bytesToString(b))))
	}
	models["hash/crc32.ChecksumIEEE"] = func(x *X, p *Path, c *callCtx) []Outcome {
		b := c.args[0].(*SliceV)
		return one(p, BNot(App("crcraw", BVS(32), BV(32, 0xffffffff), BV(32, 0xedb88320), p.st.bytesToString(b))))
	}
}

var crcTabs = map[uint64]uint64{}

func crcTable(poly uint64) uint64 {
	tagMu.Lock()
	defer tagMu.Unlock()
	r, ok := crcTabs[poly]
	if !ok {
		r = 512 + uint64(len(crcTabs))
		crcTabs[poly] = r
	}
	return r
}

func seekModel(x *X, p *Path, c *callCtx) []Outcome {
	iv := c.args[0].(*IfaceV)
	st := p.st
	off, wh := c.args[1].(*Term), c.args[2].(*Term)
	st.set("g:seekpos", Var(freshName("g:seekpos"), U64S))
	n := Var(freshName("seek"), U64S)
	e := x.anyErr(st, "seekerr")
	end := And(off.zeroP(), Eq(wh, C64(2)))
	sz := App("seekend", U64S, iv.Pl)
	bad := App("seekfails", BoolS, iv.Pl)
	st.assume(Implies(end, And(Eq(Not(isNilI(e)), bad), Implies(Not(bad), And(Eq(n, sz), Sle(C64(0), sz))))))
	return one(p, n, e)
}

func (t *Term) zeroP() *Term { return Eq(t, BV(t.S.W, 0)) }

func readAtModel(x *X, p *Path, dev, devlen *Term, b *SliceV, off *Term) []Outcome {
	st := p.st
	n := Var(freshName("nread"), U64S)
	arr := Var(freshName("read"), ArrS(U64S, U8S))
	e := x.anyErr(st, "readerr")
	st.assume(Ule(n, b.Len))
	st.assume(Implies(Ult(n, b.Len), Not(isNilI(e))))
	// io.EOF is only reported at the end
	eof := errConst("io.EOF")
	st.assume(Implies(And(Eq(e.Tag, eof.Tag), Eq(e.Pl, eof.Pl), Ult(n, b.Len), Sle(C64(0), off)), Ule(devlen, Add(off, n))))
	nm, so := elemMem(byteT, leaf{"", U8S, false})
	m := st.get(nm, so)
	old := Select(m, b.Ref)
	k := BVar("ra", U64S)
	st.assume(Forall([]*Term{k}, [][]*Term{{Select(arr, k)}}, And(
		Implies(Ult(k, n), Eq(Select(arr, k), Select(dev, Add(off, k)))))))
	st.set("g:lastread", n)
	st.set(nm, Store(m, b.Ref, ACopy(old, b.Off, arr, C64(0), b.Len)))
	return one(p, n, e)
}

// bytesEq: equal length and contents.
func bytesEq(st *State, a, b *SliceV) *Term {
	na, ok1 := a.Len.U64()
	nb, ok2 := b.Len.U64()
	if ok1 && ok2 {
		if na != nb {
			return TFalse
		}
		if na <= 64 {
			if na == 0 {
				return TTrue
			}
			return Eq(bytesBE(st, a, na), bytesBE(st, b, na))
		}
	}
	return Eq(st.bytesToString(a), st.bytesToString(b))
}

// bytesBE: the first n bytes as one big-endian number.
func bytesBE(st *State, s *SliceV, n uint64) *Term {
	arr := st.elemArr(s, leaf{"", U8S, false})
	var ts []*Term
	for i := uint64(0); i < n; i++ {
		ts = append(ts, Select(arr, Add(s.Off, C64(i))))
	}
	return Concat(ts...)
}

// constLen: the common constant length of a and b, 0 if not provable.
func (x *X) constLen(st *State, a, b *SliceV) uint64 {
	for _, s := range []*SliceV{a, b} {
		if k, ok := s.Len.U64(); ok && k <= 64 {
			o := a
			if s == a {
				o = b
			}
			if !x.feasible(st, Not(Eq(o.Len, C64(k)))) {
				return k
			}
		}
	}
	if !x.feasible(st, Not(And(Eq(a.Len, C64(33)), Eq(b.Len, C64(33))))) {
		return 33
	}
	return 0
}

// crcPoly: the polynomial of a table.
func crcPoly(ref *Term) *Term {
	if v, ok := ref.U64(); ok {
		tagMu.Lock()
		defer tagMu.Unlock()
		for p, r := range crcTabs {
			if r == v {
				return BV(32, p)
			}
		}
	}
	return App("crcpoly", BVS(32), ref)
}
