package main

// go.etcd.io/bbolt: assumed contracts.  One database is open at a time and its
// bucket "index" is an ordered map from 33-byte keys to values, held in ghosts:
//   ixbucket          the bucket exists
//   ixin[k]           key k is stored
//   ixval[k], ixlen[k] its value's bytes and length
// A key is the 264-bit number its bytes spell in big-endian order.

import (
	"go/types"
	"strings"
)

const ixKeyBits = 264

var (
	ixKeyS = BVS(ixKeyBits)
	ixInS  = ArrS(ixKeyS, BoolS)
	ixValS = ArrS(ixKeyS, ArrS(U64S, U8S))
	ixLenS = ArrS(ixKeyS, U64S)
)

const bb = "go.etcd.io/bbolt."

// opaqueLeaves: the ghost state of types whose fields the code cannot see.
var opaqueLeaves = map[string][]leaf{
	bb + "Cursor": {{".key", ixKeyS, false}, {".mode", BVS(8), false}},
	bb + "Tx":     {{".writable", BoolS, false}, {".open", BoolS, false}, {".db", RefS, false}},
	bb + "Bucket": {{".writable", BoolS, false}},
	bb + "DB":     {{".readonly", BoolS, false}, {".open", BoolS, false}, {".writer", BoolS, false}, {".reader", BoolS, false}},
}

// gget and gset access a ghost field of an opaque object.
func gget(st *State, t, f string, ref *Term) *Term {
	for _, l := range opaqueLeaves[t] {
		if l.path == "."+f {
			return Select(st.get("o:"+t+l.path, ArrS(RefS, l.s)), ref)
		}
	}
	fail("ghost field %s of %s", f, t)
	return nil
}
func gset(st *State, t, f string, ref, v *Term) {
	for _, l := range opaqueLeaves[t] {
		if l.path == "."+f {
			n := "o:" + t + l.path
			st.set(n, Store(st.get(n, ArrS(RefS, l.s)), ref, v))
			return
		}
	}
	fail("ghost field %s of %s", f, t)
}

func ixIn(st *State) *Term     { return st.get("g:ixin", ixInS) }
func ixVal(st *State) *Term    { return st.get("g:ixval", ixValS) }
func ixLen(st *State) *Term    { return st.get("g:ixlen", ixLenS) }
func ixBucket(st *State) *Term { return st.get("g:ixbucket", BoolS) }

// keyTerm: the number spelled by a 33-byte key slice.
func (x *X) keyTerm(st *State, s *SliceV) *Term {
	n, ok := s.Len.U64()
	if !ok {
		if x.feasible(st, Not(Eq(s.Len, C64(33)))) {
			fail("a key whose length is not known to be 33")
		}
		n = 33
	}
	if n != 33 {
		fail("a key of %d bytes", n)
	}
	return bytesBE(st, s, 33)
}

func (x *X) keySlice(st *State, k *Term) *SliceV {
	arr := ConstArr(ArrS(U64S, U8S), BV(8, 0))
	for i := 0; i < 33; i++ {
		hi := ixKeyBits - 1 - 8*i
		arr = Store(arr, C64(uint64(i)), Extract(k, hi, hi-7))
	}
	return st.newBytes(arr, C64(33))
}

// ixValue: the value stored at key k (which is present).  Every value btrfscue
// stores has at least the 25 bytes of an item header.
func (x *X) ixValue(st *State, k *Term) *SliceV {
	n := Select(ixLen(st), k)
	st.assume(And(Ule(C64(25), n), Ult(n, C64(1<<31-1))))
	return st.newBytes(Select(ixVal(st), k), n)
}

func nilBytes() *SliceV { return zeroValue(types.NewSlice(byteT)).(*SliceV) }

// cursorMove: the two results of a cursor operation: found(k) holds of the key
// found, none if nothing is.
func (x *X) cursorMove(p *Path, c *PtrV, found func(k *Term) *Term, none *Term, noneMode func(st *State)) []Outcome {
	var outs []Outcome
	a := p.st.clone()
	k := Var(freshName("ixkey"), ixKeyS)
	a.assume(Select(ixIn(a), k))
	a.assume(found(k))
	if x.feasible(a, TTrue) {
		ks := x.keySlice(a, k)
		v := x.ixValue(a, k)
		gset(a, bb+"Cursor", "key", c.Ref, k)
		gset(a, bb+"Cursor", "mode", c.Ref, BV(8, 1))
		outs = append(outs, Outcome{vals: TupleV{ks, v}, st: a})
	}
	b := p.st.clone()
	b.assume(none)
	if x.feasible(b, TTrue) {
		noneMode(b)
		outs = append(outs, Outcome{vals: TupleV{nilBytes(), nilBytes()}, st: b})
	}
	if len(outs) == 0 {
		p.st.dead = true
	}
	return outs
}

// allKeys: every stored key satisfies f.
func allKeys(st *State, f func(q *Term) *Term) *Term {
	q := BVar("ixq", ixKeyS)
	in := Select(ixIn(st), q)
	return Forall([]*Term{q}, [][]*Term{{in}}, Implies(in, f(q)))
}

func init() {
	ghostSorts["ixin"], ghostSorts["ixval"], ghostSorts["ixlen"], ghostSorts["ixbucket"] = ixInS, ixValS, ixLenS, BoolS
	ghostSorts["ixcin"], ghostSorts["ixcval"], ghostSorts["ixclen"], ghostSorts["ixcbucket"] = ixInS, ixValS, ixLenS, BoolS

	recv := func(c *callCtx) *PtrV { return c.args[0].(*PtrV) }
	m := func(n string, f modelFn) { models[n] = f }

	m("go.etcd.io/bbolt.(*Bucket).Cursor", func(x *X, p *Path, c *callCtx) []Outcome {
		x.safety(p, "cursor of a nil bucket", Not(ptrNil(recv(c))), c.pos)
		t := under(c.sig.Results().At(0).Type()).(*types.Pointer).Elem()
		r := p.st.newRef()
		gset(p.st, bb+"Cursor", "mode", r, BV(8, 0))
		return one(p, &PtrV{Ref: r, Root: t, T: t})
	})
	m("go.etcd.io/bbolt.(*Cursor).Seek", func(x *X, p *Path, c *callCtx) []Outcome {
		cu := recv(c)
		x.safety(p, "nil cursor", Not(ptrNil(cu)), c.pos)
		k := x.keyTerm(p.st, c.args[1].(*SliceV))
		return x.cursorMove(p, cu, func(f *Term) *Term {
			return And(Ule(k, f), allKeys(p.st, func(q *Term) *Term { return Or(Ult(q, k), Ule(f, q)) }))
		}, allKeys(p.st, func(q *Term) *Term { return Ult(q, k) }),
			func(st *State) { gset(st, bb+"Cursor", "mode", cu.Ref, BV(8, 2)) })
	})
	m("go.etcd.io/bbolt.(*Cursor).First", func(x *X, p *Path, c *callCtx) []Outcome {
		cu := recv(c)
		x.safety(p, "nil cursor", Not(ptrNil(cu)), c.pos)
		return x.cursorMove(p, cu, func(f *Term) *Term {
			return allKeys(p.st, func(q *Term) *Term { return Ule(f, q) })
		}, allKeys(p.st, func(q *Term) *Term { return TFalse }),
			func(st *State) { gset(st, bb+"Cursor", "mode", cu.Ref, BV(8, 0)) })
	})
	m("go.etcd.io/bbolt.(*Cursor).Last", func(x *X, p *Path, c *callCtx) []Outcome {
		cu := recv(c)
		x.safety(p, "nil cursor", Not(ptrNil(cu)), c.pos)
		return x.cursorMove(p, cu, func(f *Term) *Term {
			return allKeys(p.st, func(q *Term) *Term { return Ule(q, f) })
		}, allKeys(p.st, func(q *Term) *Term { return TFalse }),
			func(st *State) { gset(st, bb+"Cursor", "mode", cu.Ref, BV(8, 0)) })
	})
	// Next at a key: the least greater one; at the end it stays where it is.
	m("go.etcd.io/bbolt.(*Cursor).Next", func(x *X, p *Path, c *callCtx) []Outcome {
		cu := recv(c)
		x.safety(p, "nil cursor", Not(ptrNil(cu)), c.pos)
		at := gget(p.st, bb+"Cursor", "key", cu.Ref)
		mode := gget(p.st, bb+"Cursor", "mode", cu.Ref)
		pos := Eq(mode, BV(8, 1))
		return x.cursorMove(p, cu, func(f *Term) *Term {
			return And(pos, Ult(at, f), allKeys(p.st, func(q *Term) *Term { return Or(Ule(q, at), Ule(f, q)) }))
		}, Or(Not(pos), allKeys(p.st, func(q *Term) *Term { return Ule(q, at) })), func(st *State) {})
	})
	// Prev at a key: the greatest smaller one; after a Seek past the end: the
	// greatest key; otherwise nothing.
	m("go.etcd.io/bbolt.(*Cursor).Prev", func(x *X, p *Path, c *callCtx) []Outcome {
		cu := recv(c)
		x.safety(p, "nil cursor", Not(ptrNil(cu)), c.pos)
		at := gget(p.st, bb+"Cursor", "key", cu.Ref)
		mode := gget(p.st, bb+"Cursor", "mode", cu.Ref)
		pos, end := Eq(mode, BV(8, 1)), Eq(mode, BV(8, 2))
		return x.cursorMove(p, cu, func(f *Term) *Term {
			return And(Or(And(pos, Ult(f, at), allKeys(p.st, func(q *Term) *Term { return Or(Ule(at, q), Ule(q, f)) })),
				And(end, allKeys(p.st, func(q *Term) *Term { return Ule(q, f) }))))
		}, Or(And(pos, allKeys(p.st, func(q *Term) *Term { return Ule(at, q) })),
			And(end, allKeys(p.st, func(q *Term) *Term { return TFalse })), Not(Or(pos, end))),
			func(st *State) { gset(st, bb+"Cursor", "mode", cu.Ref, BV(8, 0)) })
	})

	m("go.etcd.io/bbolt.(*Bucket).Get", func(x *X, p *Path, c *callCtx) []Outcome {
		x.safety(p, "nil bucket", Not(ptrNil(recv(c))), c.pos)
		k := x.keyTerm(p.st, c.args[1].(*SliceV))
		in := Select(ixIn(p.st), k)
		var outs []Outcome
		if x.feasible(p.st, in) {
			a := p.st.clone()
			a.assume(in)
			outs = append(outs, Outcome{vals: x.ixValue(a, k), st: a})
		}
		if x.feasible(p.st, Not(in)) {
			b := p.st.clone()
			b.assume(Not(in))
			outs = append(outs, Outcome{vals: nilBytes(), st: b})
		}
		return outs
	})
	// Put stores the value or reports an error and stores nothing.
	m("go.etcd.io/bbolt.(*Bucket).Put", func(x *X, p *Path, c *callCtx) []Outcome {
		b := recv(c)
		x.safety(p, "nil bucket", Not(ptrNil(b)), c.pos)
		st := p.st
		k := x.keyTerm(st, c.args[1].(*SliceV))
		v := c.args[2].(*SliceV)
		// bbolt keeps the value itself until the transaction ends
		x.safety(p, "the stored value may be changed by the caller later", Or(Eq(v.Ref, Ref(0)), Ule(Ref(x.entry.alloc), v.Ref)), c.pos)
		e := x.anyErr(st, "puterr")
		ok := isNilI(e)
		st.assume(Implies(ok, gget(st, bb+"Bucket", "writable", b.Ref)))
		st.assume(Implies(ok, Ule(v.Len, C64(1<<31-2))))
		src := st.elemArr(v, leaf{"", U8S, false})
		arr := ACopy(ConstArr(ArrS(U64S, U8S), BV(8, 0)), C64(0), src, v.Off, v.Len)
		in, val, ln := ixIn(st), ixVal(st), ixLen(st)
		st.set("g:ixin", Ite(ok, Store(in, k, TTrue), in))
		st.set("g:ixval", Ite(ok, Store(val, k, arr), val))
		st.set("g:ixlen", Ite(ok, Store(ln, k, v.Len), ln))
		return one(p, e)
	})

	m("go.etcd.io/bbolt.(*Tx).Writable", func(x *X, p *Path, c *callCtx) []Outcome {
		x.safety(p, "nil transaction", Not(ptrNil(recv(c))), c.pos)
		return one(p, gget(p.st, bb+"Tx", "writable", recv(c).Ref))
	})
	bucketOf := func(x *X, p *Path, tx *PtrV, sig *types.Signature) *PtrV {
		t := under(sig.Results().At(0).Type()).(*types.Pointer).Elem()
		r := p.st.newRef()
		gset(p.st, bb+"Bucket", "writable", r, gget(p.st, bb+"Tx", "writable", tx.Ref))
		return &PtrV{Ref: r, Root: t, T: t}
	}
	isIndex := func(x *X, p *Path, s *SliceV) {
		if Eq(p.st.bytesToString(s), StrLit("index")) != TTrue {
			n := "index"
			ok := Eq(s.Len, C64(5))
			for i := 0; i < 5; i++ {
				ok = And(ok, Eq(Select(p.st.elemArr(s, leaf{"", U8S, false}), Add(s.Off, C64(uint64(i)))), BV(8, uint64(n[i]))))
			}
			if x.feasible(p.st, Not(ok)) {
				fail("a bucket other than \"index\"")
			}
		}
	}
	m("go.etcd.io/bbolt.(*Tx).Bucket", func(x *X, p *Path, c *callCtx) []Outcome {
		tx := recv(c)
		x.safety(p, "nil transaction", Not(ptrNil(tx)), c.pos)
		isIndex(x, p, c.args[1].(*SliceV))
		has := ixBucket(p.st)
		q := &Path{st: p.st.clone(), fr: p.fr}
		var outs []Outcome
		if x.feasible(p.st, has) {
			q.st.assume(has)
			outs = append(outs, Outcome{vals: bucketOf(x, q, tx, c.sig), st: q.st})
		}
		if x.feasible(p.st, Not(has)) {
			b := p.st.clone()
			b.assume(Not(has))
			outs = append(outs, Outcome{vals: zeroValue(c.sig.Results().At(0).Type()), st: b})
		}
		return outs
	})
	m("go.etcd.io/bbolt.(*Tx).CreateBucket", func(x *X, p *Path, c *callCtx) []Outcome {
		tx := recv(c)
		x.safety(p, "nil transaction", Not(ptrNil(tx)), c.pos)
		isIndex(x, p, c.args[1].(*SliceV))
		w := gget(p.st, bb+"Tx", "writable", tx.Ref)
		q := &Path{st: p.st.clone(), fr: p.fr}
		var outs []Outcome
		ok := And(w, Not(ixBucket(p.st)))
		if x.feasible(p.st, ok) {
			q.st.assume(ok)
			q.st.set("g:ixbucket", TTrue)
			q.st.set("g:ixin", ConstArr(ixInS, TFalse)) // a new bucket is empty
			outs = append(outs, Outcome{vals: TupleV{bucketOf(x, q, tx, c.sig), x.nilErr()}, st: q.st})
		}
		b := p.st.clone()
		e := x.anyErr(b, "createerr")
		b.assume(Not(isNilI(e)))
		outs = append(outs, Outcome{vals: TupleV{zeroValue(c.sig.Results().At(0).Type()), e}, st: b})
		return outs
	})
	// Begin takes the committed content as the transaction's view.  A second
	// writable transaction would wait for the first for ever.
	begin := func(x *X, p *Path, db *PtrV, w *Term, txT types.Type, pos func() (s string)) (*PtrV, *IfaceV) {
		st := p.st
		el := under(txT).(*types.Pointer).Elem()
		r := st.newRef()
		e := x.anyErr(st, "beginerr")
		ok := isNilI(e)
		st.assume(Implies(And(w, gget(st, bb+"DB", "readonly", db.Ref)), Not(ok)))
		st.assume(Implies(ok, gget(st, bb+"DB", "open", db.Ref)))
		gset(st, bb+"DB", "reader", db.Ref, Or(gget(st, bb+"DB", "reader", db.Ref), And(ok, Not(w))))
		gset(st, bb+"Tx", "writable", r, w)
		gset(st, bb+"Tx", "open", r, ok)
		gset(st, bb+"Tx", "db", r, db.Ref)
		ref := Ite(ok, r, Ref(0))
		gset(st, bb+"DB", "writer", db.Ref, Or(gget(st, bb+"DB", "writer", db.Ref), And(ok, w)))
		return &PtrV{Ref: ref, Root: el, T: el}, e
	}
	m("go.etcd.io/bbolt.(*DB).Begin", func(x *X, p *Path, c *callCtx) []Outcome {
		db := recv(c)
		x.safety(p, "nil database", Not(ptrNil(db)), c.pos)
		w := c.args[1].(*Term)
		x.safety(p, "a second writable transaction would wait for ever", Not(And(w, gget(p.st, bb+"DB", "writer", db.Ref))), c.pos)
		t, e := begin(x, p, db, w, c.sig.Results().At(0).Type(), nil)
		return one(p, t, e)
	})
	m("go.etcd.io/bbolt.(*DB).IsReadOnly", func(x *X, p *Path, c *callCtx) []Outcome {
		x.safety(p, "nil database", Not(ptrNil(recv(c))), c.pos)
		return one(p, gget(p.st, bb+"DB", "readonly", recv(c).Ref))
	})
	// Close waits for open transactions.
	m("go.etcd.io/bbolt.(*DB).Close", func(x *X, p *Path, c *callCtx) []Outcome {
		x.safety(p, "nil database", Not(ptrNil(recv(c))), c.pos)
		x.safety(p, "closing a database waits for ever for an open transaction",
			Not(Or(gget(p.st, bb+"DB", "writer", recv(c).Ref), gget(p.st, bb+"DB", "reader", recv(c).Ref))), c.pos)
		gset(p.st, bb+"DB", "open", recv(c).Ref, TFalse)
		p.st.set("g:dbopen", TFalse) // one database is open at a time
		return one(p, x.anyErr(p.st, "closeerr"))
	})
	// Commit makes the transaction's content the committed one, or fails and
	// leaves an unknown content behind.  A read-only transaction stays open.
	m("go.etcd.io/bbolt.(*Tx).Commit", func(x *X, p *Path, c *callCtx) []Outcome {
		tx := recv(c)
		st := p.st
		x.safety(p, "nil transaction", Not(ptrNil(tx)), c.pos)
		w := gget(st, bb+"Tx", "writable", tx.Ref)
		op := gget(st, bb+"Tx", "open", tx.Ref)
		e := x.anyErr(st, "commiterr")
		ok := isNilI(e)
		st.assume(Implies(ok, And(w, op)))
		gset(st, bb+"Tx", "open", tx.Ref, And(op, Not(w)))
		for _, g := range []struct {
			n string
			s *Sort
		}{{"g:ixin", ixInS}, {"g:ixval", ixValS}, {"g:ixlen", ixLenS}} {
			cur := st.get(g.n, g.s)
			st.set(g.n, Ite(Or(ok, Not(w)), cur, Var(freshName("rolledback"), g.s)))
		}
		x.release(st, "writer", tx.Ref, And(op, w))
		return one(p, e)
	})
	m("go.etcd.io/bbolt.(*Tx).Rollback", func(x *X, p *Path, c *callCtx) []Outcome {
		tx := recv(c)
		st := p.st
		x.safety(p, "nil transaction", Not(ptrNil(tx)), c.pos)
		w := gget(st, bb+"Tx", "writable", tx.Ref)
		op := gget(st, bb+"Tx", "open", tx.Ref)
		gset(st, bb+"Tx", "open", tx.Ref, TFalse)
		for _, g := range []struct {
			n string
			s *Sort
		}{{"g:ixin", ixInS}, {"g:ixval", ixValS}, {"g:ixlen", ixLenS}} {
			cur := st.get(g.n, g.s)
			st.set(g.n, Ite(w, Var(freshName("rolledback"), g.s), cur))
		}
		x.release(st, "writer", tx.Ref, And(op, w))
		x.release(st, "reader", tx.Ref, And(op, Not(w)))
		e := x.anyErr(st, "rollbackerr")
		st.assume(Implies(op, isNilI(e)))
		return one(p, e)
	})
	// Update and View run fn with a transaction; Update keeps what fn stored if
	// fn and the commit succeed, and nothing of it otherwise.
	managed := func(w bool) modelFn {
		return func(x *X, p *Path, c *callCtx) []Outcome {
			db := recv(c)
			x.safety(p, "nil database", Not(ptrNil(db)), c.pos)
			wt := Bool(w)
			if w {
				x.safety(p, "a second writable transaction would wait for ever", Not(gget(p.st, bb+"DB", "writer", db.Ref)), c.pos)
			}
			fnT := under(c.sig.Params().At(c.sig.Params().Len() - 1).Type()).(*types.Signature)
			pre := p.st.clone()
			bad := &Path{st: p.st.clone(), fr: p.fr}
			be := x.anyErr(bad.st, "beginerr")
			bad.st.assume(Not(isNilI(be)))
			outs := []Outcome{{vals: be, st: bad.st}}
			q := &Path{st: p.st.clone(), fr: p.fr}
			if w {
				q.st.assume(Not(gget(q.st, bb+"DB", "readonly", db.Ref)))
				if !x.feasible(q.st, TTrue) {
					return outs
				}
			}
			el := under(fnT.Params().At(0).Type()).(*types.Pointer).Elem()
			r := q.st.newRef()
			gset(q.st, bb+"Tx", "writable", r, wt)
			gset(q.st, bb+"Tx", "open", r, TTrue)
			tx := &PtrV{Ref: r, Root: el, T: el}
			f := c.args[1].(*FuncV)
			for _, o := range x.callFuncV(q, f, []Value{tx}, fnT, c.pos, c.in) {
				if o.st.dead || o.exit {
					outs = append(outs, o)
					continue
				}
				e := o.vals.(*IfaceV)
				gset(o.st, bb+"Tx", "open", r, TFalse)
				restore := func(st *State) {
					for _, g := range []string{"g:ixin", "g:ixval", "g:ixlen", "g:ixbucket"} {
						st.set(g, pre.get(g, ghostSorts[g[2:]]))
					}
				}
				// fn failed
				if x.feasible(o.st, Not(isNilI(e))) {
					s := o.st.clone()
					s.assume(Not(isNilI(e)))
					restore(s)
					outs = append(outs, Outcome{vals: e, st: s})
				}
				if x.feasible(o.st, isNilI(e)) {
					s := o.st.clone()
					s.assume(isNilI(e))
					outs = append(outs, Outcome{vals: e, st: s})
					if w { // the commit can fail
						s := o.st.clone()
						s.assume(isNilI(e))
						restore(s)
						ce := x.anyErr(s, "commiterr")
						s.assume(Not(isNilI(ce)))
						outs = append(outs, Outcome{vals: ce, st: s})
					}
				}
			}
			return outs
		}
	}
	m("go.etcd.io/bbolt.(*DB).Update", managed(true))
	m("go.etcd.io/bbolt.(*DB).View", managed(false))

	// Open opens the file at the path, for reading only if told so.
	m("go.etcd.io/bbolt.Open", func(x *X, p *Path, c *callCtx) []Outcome {
		st := p.st
		el := under(c.sig.Results().At(0).Type()).(*types.Pointer).Elem()
		op := c.args[2].(*PtrV)
		ro := TFalse
		if !op.Ref.IsZero() {
			o := st.load(op).(*StructV)
			ut := under(o.T).(*types.Struct)
			for i := 0; i < ut.NumFields(); i++ {
				if ut.Field(i).Name() == "ReadOnly" {
					ro = o.F[i].(*Term)
				}
			}
		}
		r := st.newRef()
		e := x.anyErr(st, "openerr")
		ok := isNilI(e)
		gset(st, bb+"DB", "readonly", r, ro)
		gset(st, bb+"DB", "open", r, ok)
		gset(st, bb+"DB", "writer", r, TFalse)
		gset(st, bb+"DB", "reader", r, TFalse)
		x.safety(p, "opening a database that is already open waits for ever", Not(st.get("g:dbopen", BoolS)), c.pos)
		st.set("g:dbopen", Or(st.get("g:dbopen", BoolS), ok))
		// a missing file is created, whatever the mode
		fe := st.get("g:fsexist", ghostSorts["fsexist"])
		st.set("g:fsexist", Store(fe, c.args[0].(*Term), Or(ok, Var(freshName("created"), BoolS), Select(fe, c.args[0].(*Term)))))
		st.set("g:lastopen", c.args[0].(*Term))
		st.set("g:lastopenro", ro)
		return one(p, &PtrV{Ref: Ite(ok, r, Ref(0)), Root: el, T: el}, e)
	})
	ghostSorts["dbopen"] = BoolS
	ghostSorts["lastopen"], ghostSorts["lastopenro"] = StrS, BoolS
}

// release: a transaction of the database tx belongs to ended.
func (x *X) release(st *State, f string, tx, w *Term) {
	db := gget(st, bb+"Tx", "db", tx)
	gset(st, bb+"DB", f, db, And(gget(st, bb+"DB", f, db), Not(w)))
}

// ixhas(in, p): an object with the 200-bit prefix p (owner, type, object id,
// offset) is stored; ixbest(in, p, v): the generation of it seen from view v:
// the greatest not above v, the least if there is none.  These facts define
// the two functions.
func ixAxioms(ts []*Term) []*Term {
	var out []*Term
	seen, done := map[*Term]bool{}, map[*Term]bool{}
	f := BVar("ixf", ixKeyS)
	pf, g := Extract(f, 263, 64), Extract(f, 63, 0)
	collect(ts, func(t *Term) {
		if t.Op != OApp || seen[t] || !strings.HasPrefix(t.Name, "ix") {
			return
		}
		seen[t] = true
		switch t.Name {
		case "ixhas":
			in := t.Args[0]
			if !done[in] && !in.HasB {
				done[in] = true
				at := Select(in, f)
				out = append(out, Forall([]*Term{f}, [][]*Term{{at}}, Implies(at, App("ixhas", BoolS, in, pf))))
				p := BVar("ixp", BVS(200))
				h := App("ixhas", BoolS, in, p)
				out = append(out, Forall([]*Term{p}, [][]*Term{{h}}, Implies(h, Select(in, Concat(p, App("ixsome", U64S, in, p))))))
			}
		case "ixbest":
			if t.HasB {
				return
			}
			in, p, v := t.Args[0], t.Args[1], t.Args[2]
			at := Select(in, f)
			out = append(out, Implies(App("ixhas", BoolS, in, p), Select(in, Concat(p, t))),
				Forall([]*Term{f}, [][]*Term{{at}}, Implies(And(at, Eq(pf, p)), And(
					Implies(Ule(g, v), And(Ule(t, v), Ule(g, t))), Implies(Ult(v, t), Ule(t, g))))))
		}
	})
	return out
}

func init() { axiomHooks = append([]func([]*Term) []*Term{ixAxioms}, axiomHooks...) }
