package main

// Symbolic values and the memory model.

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type SliceV struct {
	Ref, Off, Len, Cap *Term
	Elem               types.Type
}
type StructV struct {
	T types.Type
	F []Value
}
type ArrayV struct {
	T types.Type
	E []Value
}

// PtrV points to (a part of) an object. Elem==false: the object Ref of type
// Root in object memory (arrays live in element memory). Elem==true: element
// Idx of the backing array Ref with element type Root.
type PtrV struct {
	Ref    *Term
	Elem   bool
	Idx    *Term
	Root   types.Type
	Path   []int
	T      types.Type // type pointed to
	ArrIdx *Term      // symbolic index into the array at Path (last step)
}
type IfaceV struct {
	Tag, Pl *Term
	T       types.Type // interface type (may be nil)
	Dyn     Value
	DynT    types.Type
}
type FuncV struct {
	Fn    *ssa.Function
	Bind  []Value
	Recv  Value // bound method of interface
	Model string
	Nil   bool
	Sym   *Term // unknown function
}
type TupleV []Value

// IterV is a map or string iterator.
type IterV struct {
	id    int
	isStr bool
}

type EngineErr struct{ msg string }

func (e EngineErr) Error() string { return e.msg }
func fail(f string, a ...any)     { panic(EngineErr{fmt.Sprintf(f, a...)}) }

// ---- types

func under(t types.Type) types.Type { return t.Underlying() }

var typeKeyCache sync.Map

func typeKey(t types.Type) string {
	if k, ok := typeKeyCache.Load(t); ok {
		return k.(string)
	}
	k := typeKey0(t)
	typeKeyCache.Store(t, k)
	return k
}
func typeKey0(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if k := int(u.Kind()); k > 0 && k < len(types.Typ) {
			return types.Typ[k].Name() // byte and rune are aliases
		}
		return u.Name()
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Pointer:
		return "*" // all pointers share: leaf is a ref
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Interface:
		return "iface"
	case *types.Signature:
		return "func"
	case *types.Chan:
		return "chan"
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	}
	s := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	return s
}

type leaf struct {
	path string
	s    *Sort
	ref  bool
}

var leafCache sync.Map

func basicSort(b *types.Basic) *Sort {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return BoolS
	case types.Int8, types.Uint8:
		return BVS(8)
	case types.Int16, types.Uint16:
		return BVS(16)
	case types.Int32, types.Uint32, types.UntypedRune:
		return BVS(32)
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return BVS(64)
	case types.Float64, types.UntypedFloat:
		return F64S
	case types.Float32:
		return US("F32")
	case types.String, types.UntypedString:
		return StrS
	case types.UnsafePointer:
		return RefS
	case types.Complex128, types.Complex64:
		return US("Cplx")
	}
	fail("basic type %s", b)
	return nil
}

func leavesOf(t types.Type) []leaf {
	if l, ok := leafCache.Load(t); ok {
		return l.([]leaf)
	}
	l := leavesOf0(t)
	leafCache.Store(t, l)
	return l
}
func leavesOf0(t types.Type) []leaf {
	if _, ok := t.(*types.Named); ok {
		if l, ok := opaqueLeaves[typeKey(t)]; ok {
			return l
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		return []leaf{{"", basicSort(u), false}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []leaf{{"", RefS, true}}
	case *types.Signature:
		return []leaf{{"", RefS, false}}
	case *types.Slice:
		return []leaf{{".ref", RefS, true}, {".off", U64S, false}, {".len", U64S, false}, {".cap", U64S, false}}
	case *types.Interface:
		return []leaf{{".tag", BVS(32), false}, {".pl", U64S, false}}
	case *types.Struct:
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leavesOf(u.Field(i).Type()) {
				out = append(out, leaf{fmt.Sprintf(".%d%s", i, l.path), l.s, l.ref})
			}
		}
		return out
	case *types.Array:
		if u.Len() > 64 {
			fail("array of %d elements as a value", u.Len())
		}
		if packed(u) {
			return []leaf{{"", BVS(8 * int(u.Len())), false}}
		}
		var out []leaf
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range leavesOf(u.Elem()) {
				out = append(out, leaf{fmt.Sprintf("[%d]%s", i, l.path), l.s, l.ref})
			}
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leavesOf(u.At(i).Type()) {
				out = append(out, leaf{fmt.Sprintf("#%d%s", i, l.path), l.s, l.ref})
			}
		}
		return out
	}
	fail("leaves of %s", t)
	return nil
}

// ---- function table (closures stored in memory)

var funcTab []*FuncV
var funcMu sync.Mutex

func funcID(f *FuncV) *Term {
	if f.Nil {
		return Ref(0)
	}
	if f.Sym != nil {
		return f.Sym
	}
	funcMu.Lock()
	defer funcMu.Unlock()
	for i, g := range funcTab {
		if g == f || (g.Fn == f.Fn && g.Model == f.Model && len(f.Bind) == 0 && len(g.Bind) == 0 && f.Recv == nil && g.Recv == nil) {
			return Ref(uint64(i + 1))
		}
	}
	funcTab = append(funcTab, f)
	return Ref(uint64(len(funcTab)))
}
func funcOf(t *Term) *FuncV {
	if t.IsZero() {
		return &FuncV{Nil: true}
	}
	if v, ok := t.U64(); ok {
		funcMu.Lock()
		defer funcMu.Unlock()
		if int(v) <= len(funcTab) {
			return funcTab[v-1]
		}
	}
	return &FuncV{Sym: t}
}

// ---- interface type tags and boxes

var tagTab = map[string]uint64{}
var tagTypes = map[uint64]types.Type{}
var tagMu sync.Mutex

func typeTag(t types.Type) *Term {
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	tagMu.Lock()
	defer tagMu.Unlock()
	v, ok := tagTab[k]
	if !ok {
		v = uint64(len(tagTab) + 1)
		tagTab[k] = v
		tagTypes[v] = t
	}
	return BV(32, v)
}
func typeOfTag(t *Term) types.Type {
	if v, ok := t.U64(); ok {
		tagMu.Lock()
		defer tagMu.Unlock()
		return tagTypes[v]
	}
	return nil
}

var boxTab sync.Map // *Term -> Value

func payload(v Value, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		if x.S.K == SBV && x.S.W <= 64 {
			return Zext(x, 64)
		}
		if x.S == BoolS {
			return Ite(x, C64(1), C64(0))
		}
	case *PtrV:
		if !x.Elem && len(x.Path) == 0 && x.ArrIdx == nil {
			b := Zext(x.Ref, 64)
			return b
		}
		b := Var(freshName("boxptr"), U64S)
		boxTab.Store(b, v)
		return b
	case *FuncV:
		return Zext(funcID(x), 64)
	}
	if len(leavesOfSafe(t)) > 70 {
		b := Var(freshName("box"), U64S)
		boxTab.Store(b, v)
		return b
	}
	b := App("box:"+typeKey(t), U64S, flatten(v, t)...)
	boxTab.Store(b, v)
	return b
}
func leavesOfSafe(t types.Type) (l []leaf) {
	defer func() {
		if r := recover(); r != nil {
			l = make([]leaf, 1000)
		}
	}()
	return leavesOf(t)
}

func unbox(pl *Term, t types.Type) Value {
	if v, ok := boxTab.Load(pl); ok {
		return v
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		return &PtrV{Ref: Extract(pl, 31, 0), Root: u.Elem(), T: u.Elem()}
	case *types.Basic:
		s := basicSort(u)
		if s == BoolS {
			return Not(Eq(pl, C64(0)))
		}
		if s.K == SBV {
			return Extract(pl, s.W-1, 0)
		}
	}
	i := 0
	return unflatten(t, func(l leaf) *Term {
		i++
		return App(fmt.Sprintf("unbox:%s:%s", typeKey(t), l.path), l.s, pl)
	})
}

// ---- flatten / unflatten

func flatten(v Value, t types.Type) []*Term {
	switch u := under(t).(type) {
	case *types.Basic:
		return []*Term{v.(*Term)}
	case *types.Map, *types.Chan:
		return []*Term{v.(*Term)}
	case *types.Pointer:
		p := v.(*PtrV)
		if p.Elem || len(p.Path) > 0 || p.ArrIdx != nil {
			if p.Elem && p.Idx != nil {
				fail("storing a pointer to a slice element")
			}
			fail("storing an interior pointer")
		}
		return []*Term{p.Ref}
	case *types.Signature:
		return []*Term{funcID(v.(*FuncV))}
	case *types.Slice:
		s := v.(*SliceV)
		return []*Term{s.Ref, s.Off, s.Len, s.Cap}
	case *types.Interface:
		i := v.(*IfaceV)
		return []*Term{i.Tag, i.Pl}
	case *types.Struct:
		var out []*Term
		s := v.(*StructV)
		for i := range s.F {
			out = append(out, flatten(s.F[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		var out []*Term
		if packed(u) {
			for _, e := range v.(*ArrayV).E {
				out = append(out, e.(*Term))
			}
			return []*Term{Concat(out...)}
		}
		for _, e := range v.(*ArrayV).E {
			out = append(out, flatten(e, u.Elem())...)
		}
		return out
	case *types.Tuple:
		var out []*Term
		for i, e := range v.(TupleV) {
			out = append(out, flatten(e, u.At(i).Type())...)
		}
		return out
	}
	fail("flatten %s", t)
	return nil
}

// packed: a byte array inside a value is one bit vector, first byte on top.
func packed(u *types.Array) bool {
	b, ok := under(u.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Uint8 && u.Len() > 0 && u.Len() <= 64
}

// packedStep: p points to a byte of a packed array; the pointer to the array.
func packedStep(p *PtrV) *PtrV {
	if len(p.Path) == 0 {
		return nil
	}
	if _, ok := under(p.Root).(*types.Array); ok && !p.Elem && len(p.Path) == 1 {
		return nil // element memory
	}
	_, at := pathString(p.Root, p.Path[:len(p.Path)-1])
	u, ok := under(at).(*types.Array)
	if !ok || !packed(u) {
		return nil
	}
	q := *p
	q.Path = p.Path[:len(p.Path)-1]
	q.T = at
	return &q
}

func unflatten(t types.Type, get func(l leaf) *Term) Value {
	return unflat(t, "", get)
}
func unflat(t types.Type, pre string, get func(l leaf) *Term) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		return get(leaf{pre, basicSort(u), false})
	case *types.Map, *types.Chan:
		return get(leaf{pre, RefS, true})
	case *types.Pointer:
		return &PtrV{Ref: get(leaf{pre, RefS, true}), Root: u.Elem(), T: u.Elem()}
	case *types.Signature:
		return funcOf(get(leaf{pre, RefS, false}))
	case *types.Slice:
		return &SliceV{get(leaf{pre + ".ref", RefS, true}), get(leaf{pre + ".off", U64S, false}), get(leaf{pre + ".len", U64S, false}),
			get(leaf{pre + ".cap", U64S, false}), u.Elem()}
	case *types.Interface:
		tag, pl := get(leaf{pre + ".tag", BVS(32), false}), get(leaf{pre + ".pl", U64S, false})
		iv := &IfaceV{Tag: tag, Pl: pl, T: t}
		if dt := typeOfTag(tag); dt != nil {
			iv.DynT = dt
			iv.Dyn = unbox(pl, dt)
		}
		return iv
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, unflat(u.Field(i).Type(), fmt.Sprintf("%s.%d", pre, i), get))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			fail("array of %d elements as a value", u.Len())
		}
		a := &ArrayV{T: t}
		if packed(u) {
			w := 8 * int(u.Len())
			all := get(leaf{pre, BVS(w), false})
			for i := 0; i < w; i += 8 {
				a.E = append(a.E, Extract(all, w-i-1, w-i-8))
			}
			return a
		}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, unflat(u.Elem(), fmt.Sprintf("%s[%d]", pre, i), get))
		}
		return a
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, unflat(u.At(i).Type(), fmt.Sprintf("%s#%d", pre, i), get))
		}
		return tv
	}
	fail("unflatten %s", t)
	return nil
}

func zeroTerm(s *Sort) *Term {
	switch s.K {
	case SBool:
		return TFalse
	case SBV:
		return BV(s.W, 0)
	case SFP:
		return FPOp("(_ +zero 11 53)", F64S)
	case SArr:
		return ConstArr(s, zeroTerm(s.Val))
	}
	if s == StrS {
		return StrLit("")
	}
	return Var("zero:"+s.Name, s)
}
func zeroValue(t types.Type) Value {
	return unflatten(t, func(l leaf) *Term { return zeroTerm(l.s) })
}

// valueIte merges two values of the same type.
func valueIte(c *Term, a, b Value, t types.Type) Value {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if pa, ok := a.(*PtrV); ok {
		pb := b.(*PtrV)
		if pa.Elem == pb.Elem && len(pa.Path) == 0 && len(pb.Path) == 0 && pa.ArrIdx == nil && pb.ArrIdx == nil && types.Identical(pa.Root, pb.Root) {
			r := *pa
			r.Ref = Ite(c, pa.Ref, pb.Ref)
			if pa.Elem {
				r.Idx = Ite(c, pa.Idx, pb.Idx)
			}
			return &r
		}
		fail("merging different pointers")
	}
	fa, fb := flatten(a, t), flatten(b, t)
	i := -1
	return unflatten(t, func(l leaf) *Term { i++; return Ite(c, fa[i], fb[i]) })
}

func valueEq(a, b Value, t types.Type) *Term {
	switch u := under(t).(type) {
	case *types.Pointer:
		pa, pb := a.(*PtrV), b.(*PtrV)
		na, nb := ptrNil(pa), ptrNil(pb)
		if na == TTrue {
			return nb
		}
		if nb == TTrue {
			return na
		}
		if pa.Elem == pb.Elem && fmt.Sprint(pa.Path) == fmt.Sprint(pb.Path) && pa.ArrIdx == nil && pb.ArrIdx == nil {
			r := Eq(pa.Ref, pb.Ref)
			if pa.Elem {
				r = And(r, Eq(pa.Idx, pb.Idx))
			}
			return r
		}
		if pa.Elem != pb.Elem {
			return TFalse
		}
		fail("comparing interior pointers")
	case *types.Slice:
		sa, sb := a.(*SliceV), b.(*SliceV)
		if sb.Ref.IsZero() {
			return Eq(sa.Ref, Ref(0))
		}
		if sa.Ref.IsZero() {
			return Eq(sb.Ref, Ref(0))
		}
		fail("comparing slices")
	case *types.Signature:
		fa, fb := a.(*FuncV), b.(*FuncV)
		return Eq(funcID(fa), funcID(fb))
	case *types.Interface:
		ia, ib := a.(*IfaceV), b.(*IfaceV)
		if ib.Tag.IsZero() {
			return Eq(ia.Tag, ib.Tag)
		}
		if ia.Tag.IsZero() {
			return Eq(ib.Tag, ia.Tag)
		}
		return And(Eq(ia.Tag, ib.Tag), Eq(ia.Pl, ib.Pl))
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, valueEq(a.(*StructV).F[i], b.(*StructV).F[i], u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Array:
		var cs []*Term
		for i := range a.(*ArrayV).E {
			cs = append(cs, valueEq(a.(*ArrayV).E[i], b.(*ArrayV).E[i], u.Elem()))
		}
		return And(cs...)
	case *types.Basic:
		x, y := a.(*Term), b.(*Term)
		if x.S == F64S {
			return FPOp("fp.eq", BoolS, x, y)
		}
		return Eq(x, y)
	}
	x, ok := a.(*Term)
	y, ok2 := b.(*Term)
	if ok && ok2 {
		return Eq(x, y)
	}
	fail("equality on %s", t)
	return nil
}

// Go spec: strict equality of everything, slices by header (for specs).
func identical(a, b Value, t types.Type) *Term {
	fa, fb := flatten(a, t), flatten(b, t)
	var cs []*Term
	for i := range fa {
		cs = append(cs, Eq(fa[i], fb[i]))
	}
	return And(cs...)
}

func ptrNil(p *PtrV) *Term {
	if p.Elem || len(p.Path) > 0 {
		return TFalse
	}
	return Eq(p.Ref, Ref(0))
}

var freshMu sync.Mutex
var freshN = map[string]int{}

func freshName(p string) string {
	freshMu.Lock()
	defer freshMu.Unlock()
	freshN[p]++
	return fmt.Sprintf("%s!%d", p, freshN[p])
}

// ---- state

const firstAlloc = 4096

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type State struct {
	pc    *pcNode
	pcSet map[*Term]bool
	mem   map[string]*Term
	alloc uint64 // next constant reference
	iters map[int]*iterState
	trace []string // readable path (branch decisions)
	dead  bool
}

type iterState struct {
	m       *Term // map ref
	mt      *types.Map
	visited *Term // Array Key Bool
	count   *Term // BV64 number visited
	dom0    *Term
	str     *Term
	pos     *Term
}

func newState() *State {
	return &State{pcSet: map[*Term]bool{}, mem: map[string]*Term{}, alloc: firstAlloc, iters: map[int]*iterState{}}
}
func (s *State) clone() *State {
	n := &State{pc: s.pc, pcSet: make(map[*Term]bool, len(s.pcSet)+4), mem: make(map[string]*Term, len(s.mem)+4), alloc: s.alloc,
		iters: make(map[int]*iterState, len(s.iters)), trace: s.trace[:len(s.trace):len(s.trace)], dead: s.dead}
	for k := range s.pcSet {
		n.pcSet[k] = true
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.iters {
		c := *v
		n.iters[k] = &c
	}
	return n
}
func (s *State) assume(t *Term) {
	if t == TTrue || s.pcSet[t] {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	if t == TFalse || s.pcSet[Not(t)] {
		s.dead = true
	}
	s.pcSet[t] = true
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &pcNode{t, s.pc, n}
}
func (s *State) conds() []*Term {
	var out []*Term
	for p := s.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

var memSorts sync.Map

func (s *State) get(name string, so *Sort) *Term {
	if t, ok := s.mem[name]; ok {
		return t
	}
	memSorts.Store(name, so)
	return Var("M0:"+name, so)
}
func (s *State) set(name string, t *Term) { memSorts.Store(name, t.S); s.mem[name] = t }

func (s *State) newRef() *Term {
	r := Ref(s.alloc)
	s.alloc++
	return r
}

func objMem(root types.Type, l leaf) (string, *Sort) {
	n := "o:" + typeKey(root) + l.path
	if l.ref {
		refMems.Store(n, true)
	}
	return n, ArrS(RefS, l.s)
}
func elemMem(elem types.Type, l leaf) (string, *Sort) {
	n := "e:" + typeKey(elem) + l.path
	if l.ref {
		refMems.Store(n, true)
	}
	return n, ArrS(RefS, ArrS(U64S, l.s))
}

func pathString(root types.Type, path []int) (string, types.Type) {
	t := root
	var sb strings.Builder
	for _, i := range path {
		switch u := under(t).(type) {
		case *types.Struct:
			fmt.Fprintf(&sb, ".%d", i)
			t = u.Field(i).Type()
		case *types.Array:
			fmt.Fprintf(&sb, "[%d]", i)
			t = u.Elem()
		default:
			fail("path through %s", t)
		}
	}
	return sb.String(), t
}

// load reads the value p points to (no nil check).
func (s *State) load(p *PtrV) Value {
	if p.ArrIdx != nil {
		q := *p
		q.ArrIdx = nil
		_, at := pathString(p.Root, p.Path)
		q.T = at
		arr := s.load(&q).(*ArrayV)
		et := under(at).(*types.Array).Elem()
		return arrayAt(arr, p.ArrIdx, et)
	}
	if q := packedStep(p); q != nil {
		return s.load(q).(*ArrayV).E[p.Path[len(p.Path)-1]]
	}
	if at, ok := under(p.Root).(*types.Array); ok && !p.Elem {
		// array object: elements in element memory
		if len(p.Path) == 0 {
			a := &ArrayV{T: p.Root}
			if at.Len() > 64 {
				fail("loading an array of %d elements", at.Len())
			}
			for i := int64(0); i < at.Len(); i++ {
				a.E = append(a.E, s.load(&PtrV{Ref: p.Ref, Elem: true, Idx: C64(uint64(i)), Root: at.Elem(), T: at.Elem()}))
			}
			return a
		}
		return s.load(&PtrV{Ref: p.Ref, Elem: true, Idx: C64(uint64(p.Path[0])), Root: at.Elem(), Path: p.Path[1:], T: p.T})
	}
	pre, t := pathString(p.Root, p.Path)
	v := unflat(t, pre, func(l leaf) *Term {
		if p.Elem {
			n, so := elemMem(p.Root, l)
			return Select(Select(s.get(n, so), p.Ref), p.Idx)
		}
		n, so := objMem(p.Root, l)
		return Select(s.get(n, so), p.Ref)
	})
	s.wf(v, t)
	return v
}

func arrayAt(arr *ArrayV, idx *Term, et types.Type) Value {
	if k, ok := idx.U64(); ok {
		if k < uint64(len(arr.E)) {
			return arr.E[k]
		}
		return zeroValue(et)
	}
	r := arr.E[len(arr.E)-1]
	for i := len(arr.E) - 2; i >= 0; i-- {
		r = valueIte(Eq(idx, C64(uint64(i))), arr.E[i], r, et)
	}
	return r
}

var roCount atomic.Uint64
var roObj sync.Map // references of read-only snapshot objects

func (s *State) store(p *PtrV, v Value) {
	if p.ArrIdx != nil {
		q := *p
		q.ArrIdx = nil
		_, at := pathString(p.Root, p.Path)
		q.T = at
		arr := s.load(&q).(*ArrayV)
		et := under(at).(*types.Array).Elem()
		n := &ArrayV{T: arr.T}
		for i := range arr.E {
			n.E = append(n.E, valueIte(Eq(p.ArrIdx, C64(uint64(i))), v, arr.E[i], et))
		}
		s.store(&q, n)
		return
	}
	if q := packedStep(p); q != nil {
		arr := s.load(q).(*ArrayV)
		n := &ArrayV{T: arr.T, E: append([]Value{}, arr.E...)}
		n.E[p.Path[len(p.Path)-1]] = v
		s.store(q, n)
		return
	}
	if at, ok := under(p.Root).(*types.Array); ok && !p.Elem {
		if len(p.Path) == 0 {
			for i, e := range v.(*ArrayV).E {
				s.store(&PtrV{Ref: p.Ref, Elem: true, Idx: C64(uint64(i)), Root: at.Elem(), T: at.Elem()}, e)
			}
			return
		}
		s.store(&PtrV{Ref: p.Ref, Elem: true, Idx: C64(uint64(p.Path[0])), Root: at.Elem(), Path: p.Path[1:], T: p.T}, v)
		return
	}
	pre, t := pathString(p.Root, p.Path)
	if p.Elem {
		if _, ro := roObj.Load(p.Ref); ro {
			fail("write into a slice of an array field")
		}
	}
	ts := flatten(v, t)
	for i, l := range leavesOf(t) {
		l.path = pre + l.path
		if p.Elem {
			n, so := elemMem(p.Root, l)
			m := s.get(n, so)
			s.set(n, Store(m, p.Ref, Store(Select(m, p.Ref), p.Idx, ts[i])))
		} else {
			n, so := objMem(p.Root, l)
			s.set(n, Store(s.get(n, so), p.Ref, ts[i]))
		}
	}
}

// allocObj creates a zeroed object of type t.
func (s *State) allocObj(t types.Type) *PtrV {
	r := s.newRef()
	if at, ok := under(t).(*types.Array); ok {
		s.zeroElems(r, at.Elem())
		return &PtrV{Ref: r, Root: t, T: t}
	}
	for _, l := range leavesOf(t) {
		n, so := objMem(t, l)
		s.set(n, Store(s.get(n, so), r, zeroTerm(l.s)))
	}
	return &PtrV{Ref: r, Root: t, T: t}
}
func (s *State) zeroElems(r *Term, elem types.Type) {
	for _, l := range leavesOf(elem) {
		n, so := elemMem(elem, l)
		s.set(n, Store(s.get(n, so), r, ConstArr(so.Val, zeroTerm(l.s))))
	}
}

// wf assumes what the language guarantees about a value read from memory or
// received from outside.
func (s *State) wf(v Value, t types.Type) {
	switch u := under(t).(type) {
	case *types.Slice:
		s.assume(wfSlice(v.(*SliceV)))
	case *types.Struct:
		for i, f := range v.(*StructV).F {
			s.wf(f, u.Field(i).Type())
		}
	case *types.Array:
		switch under(u.Elem()).(type) {
		case *types.Slice, *types.Struct, *types.Interface:
			for _, e := range v.(*ArrayV).E {
				s.wf(e, u.Elem())
			}
		}
	case *types.Interface:
		i := v.(*IfaceV)
		if i.DynT == nil {
			s.assume(Implies(Eq(i.Tag, BV(32, 0)), Eq(i.Pl, C64(0))))
		}
	}
}

func wfSlice(v *SliceV) *Term {
	if v.Len.IsConst() && v.Cap.IsConst() {
		return TTrue
	}
	return And(Ule(v.Len, v.Cap), Ule(v.Cap, C64(maxObjLen)), Ule(v.Off, C64(maxObjLen)),
		Implies(Eq(v.Ref, Ref(0)), Eq(v.Cap, C64(0))))
}

// symbolic makes an unknown value of type t. Reference leaves get the bounds
// [0,hi).
func symbolic(t types.Type, name string, hi uint64) Value {
	return unflatten(t, func(l leaf) *Term {
		if l.ref {
			return RefVar(name+l.path, 0, hi)
		}
		return Var(name+l.path, l.s)
	})
}

// ---- maps

func mapKeyTerm(k Value, t types.Type) *Term {
	ts := flatten(k, t)
	if len(ts) == 1 {
		return ts[0]
	}
	for i, x := range ts {
		if x.S == BoolS {
			ts[i] = Ite(x, BV(1, 1), BV(1, 0))
		} else if x.S.K != SBV {
			fail("map key type %s", t)
		}
	}
	return Concat(ts...)
}
func mapKeySort(t types.Type) *Sort {
	ls := leavesOf(t)
	if len(ls) == 1 {
		return ls[0].s
	}
	w := 0
	for _, l := range ls {
		if l.s == BoolS {
			w++
		} else {
			w += l.s.W
		}
	}
	return BVS(w)
}
func mapKeyValue(k *Term, t types.Type) Value {
	ls := leavesOf(t)
	if len(ls) == 1 {
		return unflatten(t, func(leaf) *Term { return k })
	}
	pos := k.S.W
	return unflatten(t, func(l leaf) *Term {
		w := 1
		if l.s != BoolS {
			w = l.s.W
		}
		pos -= w
		x := Extract(k, pos+w-1, pos)
		if l.s == BoolS {
			return Eq(x, BV(1, 1))
		}
		return x
	})
}
func mapName(mt *types.Map) string { return "m:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem()) }
func (s *State) mapDom(mt *types.Map) (*Term, string) {
	n := mapName(mt) + ":dom"
	return s.get(n, ArrS(RefS, ArrS(mapKeySort(mt.Key()), BoolS))), n
}
func (s *State) mapLen(mt *types.Map) (*Term, string) {
	n := mapName(mt) + ":len"
	return s.get(n, ArrS(RefS, U64S)), n
}
func (s *State) mapGet(m *Term, mt *types.Map, k *Term) (Value, *Term) {
	d, _ := s.mapDom(mt)
	in := And(Not(Eq(m, Ref(0))), Select(Select(d, m), k))
	v := unflatten(mt.Elem(), func(l leaf) *Term {
		so := ArrS(RefS, ArrS(mapKeySort(mt.Key()), l.s))
		return Select(Select(s.get(mapName(mt)+":val"+l.path, so), m), k)
	})
	s.wf(v, mt.Elem())
	return v, in
}
func (s *State) mapSet(m *Term, mt *types.Map, k *Term, v Value) {
	d, dn := s.mapDom(mt)
	ln, lnn := s.mapLen(mt)
	in := Select(Select(d, m), k)
	s.set(lnn, Store(ln, m, Ite(in, Select(ln, m), Add(Select(ln, m), C64(1)))))
	s.set(dn, Store(d, m, Store(Select(d, m), k, TTrue)))
	ts := flatten(v, mt.Elem())
	for i, l := range leavesOf(mt.Elem()) {
		n := mapName(mt) + ":val" + l.path
		so := ArrS(RefS, ArrS(mapKeySort(mt.Key()), l.s))
		mm := s.get(n, so)
		s.set(n, Store(mm, m, Store(Select(mm, m), k, ts[i])))
	}
}
func (s *State) mapDelete(m *Term, mt *types.Map, k *Term) {
	d, dn := s.mapDom(mt)
	ln, lnn := s.mapLen(mt)
	in := Select(Select(d, m), k)
	s.set(lnn, Store(ln, m, Ite(in, Sub(Select(ln, m), C64(1)), Select(ln, m))))
	s.set(dn, Store(d, m, Store(Select(d, m), k, TFalse)))
}
func (s *State) newMap(mt *types.Map) *Term {
	r := s.newRef()
	d, dn := s.mapDom(mt)
	s.set(dn, Store(d, r, ConstArr(d.S.Val, TFalse)))
	ln, lnn := s.mapLen(mt)
	s.set(lnn, Store(ln, r, C64(0)))
	for _, l := range leavesOf(mt.Elem()) {
		n := mapName(mt) + ":val" + l.path
		so := ArrS(RefS, ArrS(mapKeySort(mt.Key()), l.s))
		s.set(n, Store(s.get(n, so), r, ConstArr(so.Val, zeroTerm(l.s))))
	}
	return r
}

// ---- slices helpers

func (s *State) elemArr(sl *SliceV, l leaf) *Term {
	n, so := elemMem(sl.Elem, l)
	return Select(s.get(n, so), sl.Ref)
}
func (s *State) elemAt(sl *SliceV, i *Term) Value {
	return s.load(&PtrV{Ref: sl.Ref, Elem: true, Idx: Add(sl.Off, i), Root: sl.Elem, T: sl.Elem})
}
func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}
func (s *State) bytesToString(sl *SliceV) *Term {
	return SOf(s.elemArr(sl, leaf{"", U8S, false}), sl.Off, sl.Len)
}
func (s *State) newBytes(arr, n *Term) *SliceV {
	r := s.newRef()
	nm, so := elemMem(types.Typ[types.Uint8], leaf{"", U8S, false})
	s.set(nm, Store(s.get(nm, so), r, arr))
	return &SliceV{r, C64(0), n, n, types.Typ[types.Uint8]}
}

// copyElems writes n elements of src (arrays given) into dst.
func (s *State) copyElems(dst *SliceV, doff *Term, srcArr func(l leaf) *Term, soff, n *Term) {
	if n.IsZero() {
		return
	}
	if _, ro := roObj.Load(dst.Ref); ro {
		fail("write into a slice of an array field")
	}
	for _, l := range leavesOf(dst.Elem) {
		nm, so := elemMem(dst.Elem, l)
		m := s.get(nm, so)
		s.set(nm, Store(m, dst.Ref, ACopy(Select(m, dst.Ref), doff, srcArr(l), soff, n)))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func bigOf(v int64) *big.Int { return big.NewInt(v) }
