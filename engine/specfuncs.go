package main

// Functions of the contract language.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
)

type specFn func(e *SpecEnv, a []ast.Expr) SV

var specFuncs map[string]specFn

func uintType(n int) types.Type {
	switch n {
	case 1:
		return types.Typ[types.Uint8]
	case 2:
		return types.Typ[types.Uint16]
	case 4:
		return types.Typ[types.Uint32]
	case 8:
		return types.Typ[types.Uint64]
	}
	return nil
}

func (e *SpecEnv) u64(v SV) *Term {
	if v.c != nil {
		return BVBig(64, v.c)
	}
	t := v.term()
	if t.S.W < 64 {
		if v.signed() {
			return Sext(t, 64)
		}
		return Zext(t, 64)
	}
	if t.S.W > 64 {
		return Extract(t, 63, 0)
	}
	return t
}

// byteAt reads byte i of a byte slice or string.
func (e *SpecEnv) byteAt(v SV, i *Term) *Term {
	switch s := v.v.(type) {
	case *SliceV:
		return Select(e.st.elemArr(s, leaf{"", U8S, false}), Add(s.Off, i))
	case *Term:
		if s.S == StrS {
			return StrAt(s, i)
		}
	case *ArrayV:
		return arrayAt(s, i, types.Typ[types.Uint8]).(*Term)
	}
	fail("spec: bytes of %T", v.v)
	return nil
}

func (e *SpecEnv) runPure(name string, args []Value) []Outcome {
	fn := e.x.eng.prog.get(name)
	if fn == nil {
		// external package function or method
		fail("spec: function %s not found", name)
	}
	x := e.x
	x.quiet++
	op := x.pure
	x.pure = true
	defer func() { x.quiet--; x.pure = op }()
	return x.callFn(fn, args, nil, e.st.clone(), nil)
}

func init() {
	specFuncs = map[string]specFn{
		"implies": func(e *SpecEnv, a []ast.Expr) SV {
			c := e.boolExpr(a[0])
			if c == TFalse {
				return SV{v: TTrue}
			}
			return SV{v: Implies(c, e.boolExpr(a[1]))}
		},
		"iff": func(e *SpecEnv, a []ast.Expr) SV { return SV{v: Eq(e.boolExpr(a[0]), e.boolExpr(a[1]))} },
		"ite": func(e *SpecEnv, a []ast.Expr) SV {
			c := e.boolExpr(a[0])
			if c == TTrue {
				return e.eval(a[1])
			}
			if c == TFalse {
				return e.eval(a[2])
			}
			x, y := e.eval(a[1]), e.eval(a[2])
			if x.c != nil && y.c != nil {
				return SV{v: Ite(c, BVBig(64, x.c), BVBig(64, y.c)), t: intT}
			}
			if x.c != nil {
				x = SV{v: x.as(y.term().S), t: y.t}
			}
			if y.c != nil {
				y = SV{v: y.as(x.term().S), t: x.t}
			}
			if x.v == nil {
				x = SV{v: zeroValue(y.t), t: y.t}
			}
			if y.v == nil {
				y = SV{v: zeroValue(x.t), t: x.t}
			}
			t := x.t
			if t == nil {
				t = y.t
			}
			if t == nil {
				return SV{v: Ite(c, x.term(), y.term())}
			}
			return SV{v: valueIte(c, x.v, y.v, t), t: t}
		},
		"old": func(e *SpecEnv, a []ast.Expr) SV {
			n := *e
			n.st = e.old
			return n.eval(a[0])
		},
		"len": func(e *SpecEnv, a []ast.Expr) SV {
			v := e.eval(a[0])
			return SV{v: e.x.lenOf(e.st.clone(), v.v, v.t), t: intT}
		},
		"cap": func(e *SpecEnv, a []ast.Expr) SV { return SV{v: e.eval(a[0]).v.(*SliceV).Cap, t: intT} },
		"off": func(e *SpecEnv, a []ast.Expr) SV { return SV{v: e.eval(a[0]).v.(*SliceV).Off, t: intT} },
		"ref": func(e *SpecEnv, a []ast.Expr) SV {
			switch v := e.eval(a[0]).v.(type) {
			case *SliceV:
				return SV{v: v.Ref}
			case *PtrV:
				return SV{v: v.Ref}
			case *Term:
				return SV{v: v}
			}
			fail("spec: ref")
			return SV{}
		},
		"forall": func(e *SpecEnv, a []ast.Expr) SV { return e.quant(OForall, a) },
		"exists": func(e *SpecEnv, a []ast.Expr) SV { return e.quant(OExists, a) },
		"le":     func(e *SpecEnv, a []ast.Expr) SV { return e.multi(a, true) },
		"be":     func(e *SpecEnv, a []ast.Expr) SV { return e.multi(a, false) },
		"str": func(e *SpecEnv, a []ast.Expr) SV {
			v := e.eval(a[0])
			o, n := C64(0), (*Term)(nil)
			if len(a) > 1 {
				o, n = e.u64(e.eval(a[1])), e.u64(e.eval(a[2]))
			}
			switch s := v.v.(type) {
			case *SliceV:
				if n == nil {
					n = s.Len
				}
				return SV{v: SOf(e.st.elemArr(s, leaf{"", U8S, false}), Add(s.Off, o), n), t: types.Typ[types.String]}
			case *Term:
				if n == nil {
					return v
				}
				if s.S.K == SArr {
					return SV{v: SOf(s, o, n), t: types.Typ[types.String]}
				}
				return SV{v: subStr(s, o, n), t: types.Typ[types.String]}
			}
			fail("spec: str of %T", v.v)
			return SV{}
		},
		"wide": func(e *SpecEnv, a []ast.Expr) SV {
			v := e.eval(a[0])
			if v.c != nil {
				return SV{v: BVBig(128, v.c)}
			}
			if v.signed() {
				return SV{v: Sext(v.term(), 128)}
			}
			return SV{v: Zext(v.term(), 128)}
		},
		"extract": func(e *SpecEnv, a []ast.Expr) SV {
			return SV{v: Extract(e.eval(a[0]).term(), int(e.eval(a[1]).c.Int64()), int(e.eval(a[2]).c.Int64()))}
		},
		"concat": func(e *SpecEnv, a []ast.Expr) SV {
			var ts []*Term
			for _, x := range a {
				ts = append(ts, e.eval(x).term())
			}
			return SV{v: Concat(ts...)}
		},
		"raw": func(e *SpecEnv, a []ast.Expr) SV { return SV{v: e.eval(a[0]).term()} },
		"bv": func(e *SpecEnv, a []ast.Expr) SV { // bv(width, value)
			w := int(e.eval(a[0]).c.Int64())
			v := e.eval(a[1])
			if v.c != nil {
				return SV{v: BVBig(w, v.c)}
			}
			if v.term().S.W > w {
				return SV{v: Extract(v.term(), w-1, 0)}
			}
			return SV{v: Zext(v.term(), w)}
		},
		"ones": func(e *SpecEnv, a []ast.Expr) SV {
			w := int(e.eval(a[0]).c.Int64())
			return SV{v: BVBig(w, mask(w))}
		},
		"same": func(e *SpecEnv, a []ast.Expr) SV { // same slice header, capacity aside
			x, y := e.eval(a[0]), e.eval(a[1])
			if sx, ok := x.v.(*SliceV); ok {
				sy := y.v.(*SliceV)
				return SV{v: And(Eq(sx.Ref, sy.Ref), Eq(sx.Off, sy.Off), Eq(sx.Len, sy.Len))}
			}
			return SV{v: identical(x.v, y.v, x.t)}
		},
		"identical": func(e *SpecEnv, a []ast.Expr) SV {
			x, y := e.eval(a[0]), e.eval(a[1])
			return SV{v: identical(x.v, y.v, x.t)}
		},
		"fresh": func(e *SpecEnv, a []ast.Expr) SV {
			v := e.eval(a[0])
			var r *Term
			switch p := v.v.(type) {
			case *SliceV:
				r = p.Ref
			case *PtrV:
				r = p.Ref
			case *Term:
				r = p
			}
			return SV{v: Or(Eq(r, Ref(0)), Ule(Ref(e.old.alloc), r))}
		},
		"older": func(e *SpecEnv, a []ast.Expr) SV { // an object that exists already: below every later allocation
			v := e.eval(a[0]).v
			var r *Term
			switch p := v.(type) {
			case *PtrV:
				r = p.Ref
			case *SliceV:
				r = p.Ref
			case *Term:
				r = p
			}
			return SV{v: Ult(r, Ref(e.st.alloc))}
		},
		"isnil": func(e *SpecEnv, a []ast.Expr) SV { return SV{v: isNil(e.eval(a[0]).v)} },
		"has": func(e *SpecEnv, a []ast.Expr) SV {
			m := e.eval(a[0])
			mt := under(m.t).(*types.Map)
			k := e.coerce(e.eval(a[1]), mt.Key())
			_, in := e.rawMapGet(m.v.(*Term), mt, mapKeyTerm(k.v, mt.Key()))
			return SV{v: in}
		},
		"haskey": func(e *SpecEnv, a []ast.Expr) SV { // raw key term
			m := e.eval(a[0])
			mt := under(m.t).(*types.Map)
			_, in := e.rawMapGet(m.v.(*Term), mt, e.eval(a[1]).term())
			return SV{v: in}
		},
		"atkey": func(e *SpecEnv, a []ast.Expr) SV {
			m := e.eval(a[0])
			mt := under(m.t).(*types.Map)
			v, _ := e.rawMapGet(m.v.(*Term), mt, e.eval(a[1]).term())
			return SV{v: v, t: mt.Elem()}
		},
		"visited": func(e *SpecEnv, a []ast.Expr) SV { // keys visited by the innermost range over a map
			id := -1
			for k := range e.st.iters {
				if k > id {
					id = k
				}
			}
			if id < 0 {
				fail("spec: no range over a map")
			}
			m := e.st.mem[fmt.Sprintf("it:%d:visited", id)]
			return SV{v: Select(m, e.eval(a[0]).as(m.S.Key))}
		},
		"visits": func(e *SpecEnv, a []ast.Expr) SV { // their number
			id := -1
			for k := range e.st.iters {
				if k > id {
					id = k
				}
			}
			if id < 0 {
				fail("spec: no range over a map")
			}
			return SV{v: e.st.mem[fmt.Sprintf("it:%d:count", id)], t: types.Typ[types.Uint64]}
		},
		"keyraw": func(e *SpecEnv, a []ast.Expr) SV { // the raw key term of a Go value
			v := e.eval(a[0])
			return SV{v: mapKeyTerm(v.v, v.t)}
		},
		"sel": func(e *SpecEnv, a []ast.Expr) SV {
			m := e.eval(a[0]).term()
			return SV{v: Select(m, e.eval(a[1]).as(m.S.Key))}
		},
		"upd": func(e *SpecEnv, a []ast.Expr) SV {
			m := e.eval(a[0]).term()
			return SV{v: Store(m, e.eval(a[1]).as(m.S.Key), e.eval(a[2]).as(m.S.Val))}
		},
		"ghost": func(e *SpecEnv, a []ast.Expr) SV {
			n := exprName(a[0])
			so, ok := ghostSorts[n]
			if !ok {
				s, ok := e.x.eng.specs.ghosts[n]
				if !ok {
					fail("spec: ghost %s", n)
				}
				so = specSort(s)
				ghostSorts[n] = so
			}
			return SV{v: e.st.get("g:"+n, so)}
		},
		"app": func(e *SpecEnv, a []ast.Expr) SV { // app("name", sort, args...)
			s, _ := strconv.Unquote(a[0].(*ast.BasicLit).Value)
			var ts []*Term
			for _, x := range a[2:] {
				ts = append(ts, e.eval(x).term())
			}
			n := exprName(a[1])
			if t := e.x.eng.specType(n); t != nil {
				ls := leavesOf(t)
				if len(ls) == 1 {
					return SV{v: App(s, ls[0].s, ts...), t: t}
				}
				return SV{v: unflatten(t, func(l leaf) *Term { return App(s+l.path, l.s, ts...) }), t: t}
			}
			return SV{v: App(s, specSort(n), ts...)}
		},
		"run": func(e *SpecEnv, a []ast.Expr) SV { // run(pkg.F, args...): the code's own pure function
			n := e.x.eng.specs.resolve(exprName(a[0]))
			if b, ok := a[0].(*ast.BasicLit); ok {
				s, _ := strconv.Unquote(b.Value)
				n = e.x.eng.specs.resolve(s)
			}
			fn := e.x.eng.prog.lookup(n)
			if fn == nil {
				fail("spec: function %s not found", n)
			}
			var args []Value
			for i, x := range a[1:] {
				v := e.eval(x)
				args = append(args, e.coerce(v, fn.Params[i].Type()).v)
			}
			x := e.x
			x.quiet++
			op := x.pure
			x.pure = true
			defer func() { x.quiet--; x.pure = op }()
			outs := x.callFn(fn, args, nil, e.st.clone(), nil)
			rt := fn.Signature.Results().At(0).Type()
			var r Value
			base := len(e.st.conds())
			for i := len(outs) - 1; i >= 0; i-- {
				o := outs[i]
				if o.exit || o.st.dead {
					continue
				}
				v := o.vals
				if fn.Signature.Results().Len() > 1 {
					v = v.(TupleV)[0]
				}
				if r == nil {
					r = v
				} else {
					cs := o.st.conds()
					r = valueIte(And(cs[min(base, len(cs)):]...), v, r, rt)
				}
			}
			return SV{v: r, t: rt}
		},
		"result": func(e *SpecEnv, a []ast.Expr) SV { // result(pkg.F, args...): what F's contract says it returns
			n := e.x.eng.specs.resolve(exprName(a[0]))
			if b, ok := a[0].(*ast.BasicLit); ok {
				s, _ := strconv.Unquote(b.Value)
				n = e.x.eng.specs.resolve(s)
			}
			fn := e.x.eng.prog.lookup(n)
			c := e.x.eng.specs.byFn[n]
			if fn == nil || c == nil {
				fail("spec: function %s or its contract not found", n)
			}
			var args []Value
			for i, x := range a[1:] {
				v := e.eval(x)
				args = append(args, e.coerce(v, fn.Params[i].Type()).v)
			}
			x := e.x
			x.quiet++
			defer func() { x.quiet-- }()
			p := &Path{st: e.st, fr: &Frame{fn: fn}}
			outs := x.applyContract(p, c, &callCtx{fn: fn, name: n, args: args, sig: fn.Signature})
			rt := fn.Signature.Results().At(0).Type()
			v := outs[0].vals
			if fn.Signature.Results().Len() > 1 {
				v = v.(TupleV)[0]
			}
			return SV{v: v, t: rt}
		},
		"gfield": func(e *SpecEnv, a []ast.Expr) SV { // gfield(p, name): ghost field of an opaque object
			pv := e.eval(a[0]).v.(*PtrV)
			return SV{v: gget(e.st, typeKey(pv.Root), exprName(a[1]), pv.Ref)}
		},
		"mk": func(e *SpecEnv, a []ast.Expr) SV { // mk(Type, fields...)
			t := e.x.eng.specType(exprName(a[0]))
			switch st := under(t).(type) {
			case *types.Struct:
				r := &StructV{T: t}
				for i := 0; i < st.NumFields(); i++ {
					r.F = append(r.F, e.coerce(e.eval(a[1+i]), st.Field(i).Type()).v)
				}
				return SV{v: r, t: t}
			case *types.Array:
				r := &ArrayV{T: t}
				for i := int64(0); i < st.Len(); i++ {
					r.E = append(r.E, e.coerce(e.eval(a[1+i]), st.Elem()).v)
				}
				return SV{v: r, t: t}
			}
			fail("spec: mk")
			return SV{}
		},
		"uuidat": func(e *SpecEnv, a []ast.Expr) SV { // byte array value of n bytes at s[off:]
			t := e.x.eng.specType(exprName(a[0]))
			v := e.eval(a[1])
			o := e.u64(e.eval(a[2]))
			r := &ArrayV{T: t}
			for i := int64(0); i < under(t).(*types.Array).Len(); i++ {
				r.E = append(r.E, e.byteAt(v, Add(o, C64(uint64(i)))))
			}
			return SV{v: r, t: t}
		},
		"eqbytes": func(e *SpecEnv, a []ast.Expr) SV { // eqbytes(x, xoff, y, yoff, n)
			x, y := e.eval(a[0]), e.eval(a[2])
			xo, yo, n := e.u64(e.eval(a[1])), e.u64(e.eval(a[3])), e.u64(e.eval(a[4]))
			if k, ok := n.U64(); ok && k <= 64 {
				var cs []*Term
				for i := uint64(0); i < k; i++ {
					cs = append(cs, Eq(e.byteAt(x, Add(xo, C64(i))), e.byteAt(y, Add(yo, C64(i)))))
				}
				return SV{v: And(cs...)}
			}
			i := BVar("eb!"+strconv.Itoa(e.depth), U64S)
			bx := e.byteAt(x, Add(xo, i))
			var pats [][]*Term
			if bx.Op == OSelect {
				pats = [][]*Term{{bx}}
			}
			return SV{v: Forall([]*Term{i}, pats, Implies(Ult(i, n), Eq(bx, e.byteAt(y, Add(yo, i)))))}
		},
		"unchanged": func(e *SpecEnv, a []ast.Expr) SV { // slice contents as at entry
			v := e.eval(a[0])
			s := v.v.(*SliceV)
			var cs []*Term
			for _, l := range leavesOf(s.Elem) {
				cs = append(cs, Eq(e.st.elemArr(s, l), e.old.elemArr(s, l)))
			}
			return SV{v: And(cs...)}
		},
		"bytearr": func(e *SpecEnv, a []ast.Expr) SV { // the backing array of a byte slice
			s := e.eval(a[0]).v.(*SliceV)
			return SV{v: e.st.elemArr(s, leaf{"", U8S, false})}
		},
		"iserr": func(e *SpecEnv, a []ast.Expr) SV { // iserr(err, "io.EOF")
			v := e.eval(a[0]).v.(*IfaceV)
			s, _ := strconv.Unquote(a[1].(*ast.BasicLit).Value)
			k := errConst(s)
			return SV{v: And(Eq(v.Tag, k.Tag), Eq(v.Pl, k.Pl))}
		},
		"typed": func(e *SpecEnv, a []ast.Expr) SV { // typed(T, v): view v at type T
			t := e.x.eng.specType(exprName(a[0]))
			return SV{v: retype(e.eval(a[1]).v, t), t: t}
		},
		"tagof": func(e *SpecEnv, a []ast.Expr) SV { return SV{v: e.eval(a[0]).v.(*IfaceV).Tag} },
		"plof":  func(e *SpecEnv, a []ast.Expr) SV { return SV{v: e.eval(a[0]).v.(*IfaceV).Pl} },
		"dyn": func(e *SpecEnv, a []ast.Expr) SV { // dyn(T, iface): the dynamic value
			t := e.x.eng.specType(exprName(a[0]))
			iv := e.eval(a[1]).v.(*IfaceV)
			if iv.DynT != nil {
				if types.Identical(iv.DynT, t) {
					return SV{v: iv.Dyn, t: t}
				}
				fail("spec: dynamic type is %s", iv.DynT)
			}
			return SV{v: unbox(iv.Pl, t), t: t}
		},
		"isdyn": func(e *SpecEnv, a []ast.Expr) SV {
			t := e.x.eng.specType(exprName(a[0]))
			return SV{v: Eq(e.eval(a[1]).v.(*IfaceV).Tag, typeTag(t))}
		},
		"ptr": func(e *SpecEnv, a []ast.Expr) SV { // ptr(*T, refterm)
			t := e.x.eng.specType(exprName(a[0]))
			el := under(t).(*types.Pointer).Elem()
			return SV{v: &PtrV{Ref: e.eval(a[1]).term(), Root: el, T: el}, t: t}
		},
		"mkslice": func(e *SpecEnv, a []ast.Expr) SV { // mkslice([]T, ref, off, len)
			t := e.x.eng.specType(exprName(a[0]))
			n := e.u64(e.eval(a[3]))
			return SV{v: &SliceV{e.eval(a[1]).as(RefS), e.u64(e.eval(a[2])), n, n, under(t).(*types.Slice).Elem()}, t: t}
		},
	}
}

func (e *SpecEnv) multi(a []ast.Expr, little bool) SV {
	v := e.eval(a[0])
	o := e.u64(e.eval(a[1]))
	n := int(e.eval(a[2]).c.Int64())
	var bs []*Term
	for i := 0; i < n; i++ {
		k := i
		if little {
			k = n - 1 - i
		}
		bs = append(bs, e.byteAt(v, Add(o, C64(uint64(k)))))
	}
	return SV{v: Concat(bs...), t: uintType(n)}
}

// quant: forall(i, T, body) or forall(i, lo, hi, body).
func (e *SpecEnv) quant(op Op, a []ast.Expr) SV {
	n := a[0].(*ast.Ident).Name
	if len(a) == 4 {
		b := BVar(n+"!"+strconv.Itoa(len(e.vars)), U64S)
		lo, hi := e.u64(e.eval(a[1])), e.u64(e.eval(a[2]))
		ne := e.bind(n, SV{v: b, t: intT})
		g := And(Sle(lo, b), Slt(b, hi))
		body := ne.boolExpr(a[3])
		if op == OForall {
			return SV{v: Quant(op, []*Term{b}, nil, Implies(g, body))}
		}
		return SV{v: Quant(op, []*Term{b}, nil, And(g, body))}
	}
	tn := exprName(a[1])
	var sv SV
	var b *Term
	if t := e.x.eng.specType(tn); t != nil {
		ls := leavesOf(t)
		if len(ls) != 1 {
			fail("spec: quantification over %s", tn)
		}
		b = BVar(n+"!"+strconv.Itoa(len(e.vars)), ls[0].s)
		sv = SV{v: b, t: t}
	} else {
		b = BVar(n+"!"+strconv.Itoa(len(e.vars)), specSort(tn))
		sv = SV{v: b}
	}
	return SV{v: Quant(op, []*Term{b}, nil, e.bind(n, sv).boolExpr(a[2]))}
}

var _ = token.ADD
