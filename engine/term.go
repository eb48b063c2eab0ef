package main

// Terms of the logic: hash-consed, sorted, simplified on construction.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type SortKind int

const (
	SBool SortKind = iota
	SBV
	SArr
	SU  // uninterpreted
	SFP // Float64
)

type Sort struct {
	K    SortKind
	W    int // BV width
	Key  *Sort
	Val  *Sort
	Name string
}

var (
	sortMu  sync.Mutex
	sortTab = map[string]*Sort{}
	BoolS   = mkSort(&Sort{K: SBool})
	StrS    = mkSort(&Sort{K: SU, Name: "Str"})
	F64S    = mkSort(&Sort{K: SFP})
	RefS    = BVS(32)
	U64S    = BVS(64)
	U8S     = BVS(8)
)

func mkSort(s *Sort) *Sort {
	k := s.String()
	sortMu.Lock()
	defer sortMu.Unlock()
	if t, ok := sortTab[k]; ok {
		return t
	}
	sortTab[k] = s
	return s
}
func BVS(w int) *Sort       { return mkSort(&Sort{K: SBV, W: w}) }
func ArrS(k, v *Sort) *Sort { return mkSort(&Sort{K: SArr, Key: k, Val: v}) }
func US(n string) *Sort     { return mkSort(&Sort{K: SU, Name: n}) }
func (s *Sort) String() string {
	switch s.K {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	case SArr:
		return "(Array " + s.Key.String() + " " + s.Val.String() + ")"
	case SFP:
		return "(_ FloatingPoint 11 53)"
	}
	return s.Name
}

type Op int

const (
	OVar   Op = iota // name
	OBound           // bound variable, name
	OConst           // BV constant
	OTrue
	OFalse
	OApp // uninterpreted function name(args)
	OFP  // interpreted fp operation: name is SMT operator text
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd // n-ary
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OConcat  // n-ary, first = most significant
	OExtract // hi,lo in I,J
	OSext    // to width of sort
	OSelect
	OStore
	OConstArr
	OForall // Args[0]=body ; Bound vars; Pats
	OExists
	OStrLit // name = literal
)

type Term struct {
	Op    Op
	S     *Sort
	Args  []*Term
	Name  string
	V     *big.Int
	I, J  int
	Bound []*Term
	Pats  [][]*Term
	ID    int
	HasB  bool // contains bound variables (free)
	HasQ  bool // contains quantifier
	key   string
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termN   int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s|%d,%d|", t.Op, t.S.String(), t.Name, t.I, t.J)
	if t.V != nil {
		sb.WriteString(t.V.Text(16))
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, "|%d", a.ID)
	}
	if len(t.Bound) > 0 {
		for _, b := range t.Bound {
			fmt.Fprintf(&sb, "|b%d", b.ID)
		}
		for _, p := range t.Pats {
			sb.WriteString("|p")
			for _, x := range p {
				fmt.Fprintf(&sb, ",%d", x.ID)
			}
		}
	}
	k := sb.String()
	termMu.Lock()
	defer termMu.Unlock()
	if o, ok := termTab[k]; ok {
		return o
	}
	termN++
	t.ID = termN
	t.key = k
	switch t.Op {
	case OBound:
		t.HasB = true
	case OForall, OExists:
		t.HasQ = true
		fv := map[*Term]bool{}
		freeBound(t.Args[0], fv)
		for _, b := range t.Bound {
			delete(fv, b)
		}
		t.HasB = len(fv) > 0
	default:
		for _, a := range t.Args {
			t.HasB = t.HasB || a.HasB
			t.HasQ = t.HasQ || a.HasQ
		}
	}
	termTab[k] = t
	return t
}

func freeBound(t *Term, out map[*Term]bool) {
	if !t.HasB {
		return
	}
	if t.Op == OBound {
		out[t] = true
		return
	}
	if t.Op == OForall || t.Op == OExists {
		in := map[*Term]bool{}
		freeBound(t.Args[0], in)
		for _, b := range t.Bound {
			delete(in, b)
		}
		for b := range in {
			out[b] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBound(a, out)
	}
}

var TTrue = intern(&Term{Op: OTrue, S: BoolS})
var TFalse = intern(&Term{Op: OFalse, S: BoolS})

func Var(name string, s *Sort) *Term  { return intern(&Term{Op: OVar, S: s, Name: name}) }
func BVar(name string, s *Sort) *Term { return intern(&Term{Op: OBound, S: s, Name: name}) }
func App(n string, s *Sort, a ...*Term) *Term {
	switch n {
	case "acopy":
		return ACopy(a[0], a[1], a[2], a[3], a[4])
	case "sof":
		return SOf(a[0], a[1], a[2])
	case "sarr":
		return SArr2(a[0])
	}
	if n == "slen" {
		return slenOf(a[0])
	}
	return intern(&Term{Op: OApp, S: s, Name: n, Args: a})
}
func FPOp(n string, s *Sort, a ...*Term) *Term {
	return intern(&Term{Op: OFP, S: s, Name: n, Args: a})
}
func StrLit(s string) *Term { return intern(&Term{Op: OStrLit, S: StrS, Name: s}) }

func slenOf(s *Term) *Term {
	switch {
	case s.Op == OStrLit:
		return C64(uint64(len(s.Name)))
	case s.Op == OApp && s.Name == "sof":
		return s.Args[2]
	case s.Op == OIte:
		return Ite(s.Args[0], slenOf(s.Args[1]), slenOf(s.Args[2]))
	}
	return intern(&Term{Op: OApp, S: U64S, Name: "slen", Args: []*Term{s}})
}

// ACopy: dst with dst[doff..doff+n) replaced by src[soff..soff+n).
func ACopy(dst, doff, src, soff, n *Term) *Term {
	if n.IsZero() {
		return dst
	}
	if k, ok := n.U64(); ok && k <= 40 {
		for i := uint64(0); i < k; i++ {
			dst = Store(dst, Add(doff, C64(i)), Select(src, Add(soff, C64(i))))
		}
		return dst
	}
	return intern(&Term{Op: OApp, S: dst.S, Name: "acopy", Args: []*Term{dst, doff, src, soff, n}})
}

// SOf: the string holding arr[off:off+len].
func SOf(arr, off, l *Term) *Term {
	if l.IsZero() {
		return StrLit("")
	}
	if arr.Op == OApp && arr.Name == "acopy" && arr.Args[1] == off && arr.Args[4] == l {
		return SOf(arr.Args[2], arr.Args[3], l)
	}
	if arr.Op == OApp && arr.Name == "sarr" && off.IsZero() && l == slenOf(arr.Args[0]) {
		return arr.Args[0]
	}
	if n, ok := l.U64(); ok && n <= 64 {
		b := make([]byte, n)
		all := true
		for i := range b {
			x := Select(arr, Add(off, C64(uint64(i))))
			if x.Op != OConst {
				all = false
				break
			}
			b[i] = byte(x.V.Uint64())
		}
		if all {
			return StrLit(string(b))
		}
	}
	return intern(&Term{Op: OApp, S: StrS, Name: "sof", Args: []*Term{arr, off, l}})
}

// StrAt: byte i of s (i within bounds).
func StrAt(s, i *Term) *Term {
	switch {
	case s.Op == OStrLit:
		if i.Op == OConst && i.V.IsUint64() && i.V.Uint64() < uint64(len(s.Name)) {
			return BV(8, uint64(s.Name[i.V.Uint64()]))
		}
		if len(s.Name) > 0 && len(s.Name) <= 256 {
			r := BV(8, uint64(s.Name[len(s.Name)-1]))
			for k := len(s.Name) - 2; k >= 0; k-- {
				r = Ite(Eq(i, C64(uint64(k))), BV(8, uint64(s.Name[k])), r)
			}
			return r
		}
	case s.Op == OApp && s.Name == "sof":
		return Select(s.Args[0], Add(s.Args[1], i))
	}
	return Select(SArr2(s), i)
}

// SArr2: byte array whose first slen(s) entries are s.
func SArr2(s *Term) *Term {
	if s.Op == OStrLit {
		a := ConstArr(ArrS(U64S, U8S), BV(8, 0))
		for k := 0; k < len(s.Name); k++ {
			a = Store(a, C64(uint64(k)), BV(8, uint64(s.Name[k])))
		}
		return a
	}
	if s.Op == OApp && s.Name == "sof" && s.Args[1].IsZero() {
		return s.Args[0]
	}
	return intern(&Term{Op: OApp, S: ArrS(U64S, U8S), Name: "sarr", Args: []*Term{s}})
}

func mask(w int) *big.Int {
	m := big.NewInt(1)
	m.Lsh(m, uint(w))
	return m.Sub(m, big.NewInt(1))
}
func BVBig(w int, v *big.Int) *Term {
	x := new(big.Int).And(v, mask(w))
	return intern(&Term{Op: OConst, S: BVS(w), V: x})
}
func BV(w int, v uint64) *Term { return BVBig(w, new(big.Int).SetUint64(v)) }
func BVi(w int, v int64) *Term { return BVBig(w, big.NewInt(v)) }
func C64(v uint64) *Term       { return BV(64, v) }
func Ref(v uint64) *Term       { return BV(32, v) }
func (t *Term) IsConst() bool  { return t.Op == OConst }
func (t *Term) IsZero() bool   { return t.Op == OConst && t.V.Sign() == 0 }
func (t *Term) U64() (uint64, bool) {
	if t.Op == OConst && t.V.IsUint64() {
		return t.V.Uint64(), true
	}
	return 0, false
}
func (t *Term) Signed() *big.Int {
	v := new(big.Int).Set(t.V)
	if v.Bit(t.S.W-1) == 1 {
		v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.S.W)))
	}
	return v
}
func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

// ---- booleans

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return TFalse
	case OFalse:
		return TTrue
	case ONot:
		return a.Args[0]
	case OUlt:
		return Ule(a.Args[1], a.Args[0])
	case OUle:
		return Ult(a.Args[1], a.Args[0])
	case OSlt:
		return Sle(a.Args[1], a.Args[0])
	case OSle:
		return Slt(a.Args[1], a.Args[0])
	}
	return intern(&Term{Op: ONot, S: BoolS, Args: []*Term{a}})
}

func nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.Op == op {
			for _, a := range x.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if x == nil {
			panic("nil term in nary")
		}
		if x.S != BoolS {
			panic("non-bool in and/or: " + x.String())
		}
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(&Term{Op: op, S: BoolS, Args: out})
}
func And(xs ...*Term) *Term    { return nary(OAnd, TTrue, TFalse, xs) }
func Or(xs ...*Term) *Term     { return nary(OOr, TFalse, TTrue, xs) }
func Implies(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term     { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("ite sorts %s vs %s: %s / %s", a.S, b.S, a, b))
	}
	switch {
	case c == TTrue:
		return a
	case c == TFalse:
		return b
	case a == b:
		return a
	case c.Op == ONot:
		return Ite(c.Args[0], b, a)
	case a.S == BoolS && a == TTrue:
		return Or(c, b)
	case a.S == BoolS && a == TFalse:
		return And(Not(c), b)
	case a.S == BoolS && b == TTrue:
		return Or(Not(c), a)
	case a.S == BoolS && b == TFalse:
		return And(c, a)
	}
	if a.Op == OIte && a.Args[0] == c {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == c {
		b = b.Args[2]
	}
	return intern(&Term{Op: OIte, S: a.S, Args: []*Term{c, a, b}})
}

func Eq(a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("eq sorts %s vs %s: %s = %s", a.S, b.S, a, b))
	}
	if a == b && a.S.K != SFP {
		return TTrue
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.V.Cmp(b.V) == 0)
	}
	if a.S == BoolS {
		switch {
		case a == TTrue:
			return b
		case b == TTrue:
			return a
		case a == TFalse:
			return Not(b)
		case b == TFalse:
			return Not(a)
		}
	}
	if a.Op == OConst || (a.Op == OStrLit && b.Op != OStrLit) {
		a, b = b, a
	}
	if a.S.K == SBV {
		if Distinct(a, b) {
			return TFalse
		}
		if a.Op == OIte && b.Op == OConst && (a.Args[1].Op == OConst || a.Args[2].Op == OConst) {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
		if a.Op == OConcat && b.Op == OConst {
			var cs []*Term
			lo := 0
			for i := len(a.Args) - 1; i >= 0; i-- {
				w := a.Args[i].S.W
				cs = append(cs, Eq(a.Args[i], Extract(b, lo+w-1, lo)))
				lo += w
			}
			return And(cs...)
		}
		if a.Op == OConcat && b.Op == OConcat && len(a.Args) == len(b.Args) {
			ok := true
			for i := range a.Args {
				if a.Args[i].S != b.Args[i].S {
					ok = false
				}
			}
			if ok {
				var cs []*Term
				for i := range a.Args {
					cs = append(cs, Eq(a.Args[i], b.Args[i]))
				}
				return And(cs...)
			}
		}
		// cancel common summands
		if a.Op == OAdd || b.Op == OAdd {
			d := Sub(a, b)
			if d.Op == OConst {
				return Bool(d.V.Sign() == 0)
			}
		}
	}
	if a.S == StrS {
		if r := strEq(a, b); r != nil {
			return r
		}
	}
	if a.ID > b.ID && b.Op != OConst {
		a, b = b, a
	}
	return intern(&Term{Op: OEq, S: BoolS, Args: []*Term{a, b}})
}

func strEq(a, b *Term) *Term {
	if a.Op == OStrLit && b.Op == OStrLit {
		return Bool(a.Name == b.Name)
	}
	if a.Op == OIte && (a.Args[1].Op == OStrLit || a.Args[2].Op == OStrLit) && b.Op == OStrLit {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	la, lb := slenOf(a), slenOf(b)
	var n uint64
	if x, ok := la.U64(); ok {
		n = x
		if y, ok := lb.U64(); ok && x != y {
			return TFalse
		}
	} else if y, ok := lb.U64(); ok {
		n = y
	} else {
		return nil
	}
	if n > 64 {
		return nil
	}
	// Go string equality: equal lengths and equal bytes.
	cs := []*Term{Eq(la, lb)}
	for i := uint64(0); i < n; i++ {
		cs = append(cs, Eq(StrAt(a, C64(i)), StrAt(b, C64(i))))
	}
	return And(cs...)
}

// refRange gives [lo,hi) bounds known for reference terms by construction.
var refBounds sync.Map // name -> [2]uint64

// The bounds are part of the name: they hold for this variable only, not for a
// number of the same name elsewhere.
func RefVar(name string, lo, hi uint64) *Term {
	name += fmt.Sprintf("^%d", hi)
	refBounds.Store(name, [2]uint64{lo, hi})
	return Var(name, RefS)
}
func refBound(t *Term) (lo, hi uint64, ok bool) {
	switch t.Op {
	case OConst:
		v := t.V.Uint64()
		return v, v + 1, true
	case OVar:
		if b, ok := refBounds.Load(t.Name); ok {
			x := b.([2]uint64)
			return x[0], x[1], true
		}
	case OIte:
		l1, h1, k1 := refBound(t.Args[1])
		l2, h2, k2 := refBound(t.Args[2])
		if k1 && k2 {
			return min(l1, l2), max(h1, h2), true
		}
	case OApp:
		if n, ok := appBounds.Load(t.Name); ok {
			x := n.([2]uint64)
			return x[0], x[1], true
		}
	case OSelect:
		b := t.Args[0]
		for b.Op == OSelect {
			b = b.Args[0]
		}
		if b.Op == OVar {
			if strings.HasPrefix(b.Name, "M0:") {
				if _, ok := refMems.Load(b.Name[3:]); ok {
					return 0, 4096, true
				}
			}
			if n, ok := memBounds.Load(b.Name); ok {
				return 0, n.(uint64), true
			}
		}
	}
	return 0, 0, false
}

var appBounds sync.Map

// memBounds: references stored in a havocked memory variable are below this.
var memBounds sync.Map
var refMems sync.Map // memories that hold references

// Distinct: syntactically certain to differ.
func Distinct(a, b *Term) bool {
	if a.Op == OConst && b.Op == OConst {
		return a.V.Cmp(b.V) != 0
	}
	if a.S.K != SBV {
		return false
	}
	if a.S.W == 32 {
		l1, h1, k1 := refBound(a)
		l2, h2, k2 := refBound(b)
		if k1 && k2 && (h1 <= l2 || h2 <= l1) {
			return true
		}
	}
	if a.Op == OAdd || b.Op == OAdd {
		if isSumDiffConst(a, b) {
			return true
		}
	}
	return false
}

// a - b is a non-zero constant
func isSumDiffConst(a, b *Term) bool {
	ma, ca := linear(a)
	mb, cb := linear(b)
	if len(ma) != len(mb) {
		return false
	}
	for t, c := range ma {
		d, ok := mb[t]
		if !ok || d.Cmp(c) != 0 {
			return false
		}
	}
	return ca.Cmp(cb) != 0
}

// ---- bit-vector arithmetic

// linear decomposition modulo 2^w: map term->coefficient, plus constant
func linear(t *Term) (map[*Term]*big.Int, *big.Int) {
	m := map[*Term]*big.Int{}
	c := new(big.Int)
	addLin(t, big.NewInt(1), m, c)
	mk := mask(t.S.W)
	for k, v := range m {
		v.And(v, mk)
		if v.Sign() == 0 {
			delete(m, k)
		}
	}
	c.And(c, mk)
	return m, c
}
func addLin(t *Term, k *big.Int, m map[*Term]*big.Int, c *big.Int) {
	switch {
	case t.Op == OConst:
		c.Add(c, new(big.Int).Mul(k, t.V))
	case t.Op == OAdd:
		for _, a := range t.Args {
			addLin(a, k, m, c)
		}
	case t.Op == OMul && t.Args[0].Op == OConst:
		addLin(t.Args[1], new(big.Int).Mul(k, t.Args[0].V), m, c)
	default:
		if o, ok := m[t]; ok {
			o.Add(o, k)
		} else {
			m[t] = new(big.Int).Set(k)
		}
	}
}
func fromLinear(w int, m map[*Term]*big.Int, c *big.Int) *Term {
	mk := mask(w)
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	var args []*Term
	for _, t := range ts {
		k := new(big.Int).And(m[t], mk)
		if k.Sign() == 0 {
			continue
		}
		if k.Cmp(big.NewInt(1)) == 0 {
			args = append(args, t)
		} else {
			args = append(args, intern(&Term{Op: OMul, S: t.S, Args: []*Term{BVBig(w, k), t}}))
		}
	}
	cc := BVBig(w, c)
	if len(args) == 0 {
		return cc
	}
	if cc.V.Sign() != 0 {
		args = append(args, cc)
	}
	if len(args) == 1 {
		return args[0]
	}
	return intern(&Term{Op: OAdd, S: BVS(w), Args: args})
}
func Add(a, b *Term) *Term {
	chk(a, b)
	m, c := linear(a)
	addLin(b, big.NewInt(1), m, c)
	return fromLinear(a.S.W, m, c)
}
func Sub(a, b *Term) *Term {
	chk(a, b)
	m, c := linear(a)
	addLin(b, big.NewInt(-1), m, c)
	return fromLinear(a.S.W, m, c)
}
func Neg(a *Term) *Term { return Sub(BV(a.S.W, 0), a) }
func chk(a, b *Term) {
	if a.S != b.S || a.S.K != SBV {
		panic(fmt.Sprintf("bv sorts %s vs %s (%s ; %s)", a.S, b.S, a, b))
	}
}
func Mul(a, b *Term) *Term {
	chk(a, b)
	if b.Op == OConst {
		a, b = b, a
	}
	if a.Op == OConst {
		m, c := linear(b)
		for _, v := range m {
			v.Mul(v, a.V)
		}
		c.Mul(c, a.V)
		return fromLinear(a.S.W, m, c)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(&Term{Op: OMul, S: a.S, Args: []*Term{a, b}})
}
func bin(op Op, a, b *Term) *Term {
	chk(a, b)
	return intern(&Term{Op: op, S: a.S, Args: []*Term{a, b}})
}
func Udiv(a, b *Term) *Term {
	chk(a, b)
	if b.Op == OConst && b.V.Sign() > 0 {
		if a.Op == OConst {
			return BVBig(a.S.W, new(big.Int).Div(a.V, b.V))
		}
		if k := log2(b.V); k >= 0 {
			return Lshr(a, BV(a.S.W, uint64(k)))
		}
		return App(fmt.Sprintf("udiv%d", a.S.W), a.S, a, b)
	}
	return bin(OUdiv, a, b)
}
func Urem(a, b *Term) *Term {
	chk(a, b)
	if b.Op == OConst && b.V.Sign() > 0 {
		if a.Op == OConst {
			return BVBig(a.S.W, new(big.Int).Mod(a.V, b.V))
		}
		if k := log2(b.V); k >= 0 {
			if k == 0 {
				return BV(a.S.W, 0)
			}
			return Zext(Extract(a, k-1, 0), a.S.W)
		}
		return Sub(a, Mul(Udiv(a, b), b))
	}
	return bin(OUrem, a, b)
}
func Sdiv(a, b *Term) *Term {
	chk(a, b)
	if a.Op == OConst && b.Op == OConst && b.V.Sign() != 0 {
		return BVBig(a.S.W, new(big.Int).Quo(a.Signed(), b.Signed()))
	}
	if b.Op == OConst && b.Signed().Sign() > 0 {
		if nonNeg(a) {
			return Udiv(a, b)
		}
		if b.V.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		return App(fmt.Sprintf("sdiv%d", a.S.W), a.S, a, b)
	}
	return bin(OSdiv, a, b)
}
func Srem(a, b *Term) *Term {
	chk(a, b)
	if a.Op == OConst && b.Op == OConst && b.V.Sign() != 0 {
		return BVBig(a.S.W, new(big.Int).Rem(a.Signed(), b.Signed()))
	}
	if b.Op == OConst && b.Signed().Sign() > 0 {
		if nonNeg(a) {
			return Urem(a, b)
		}
		return Sub(a, Mul(Sdiv(a, b), b))
	}
	return bin(OSrem, a, b)
}
func log2(v *big.Int) int {
	if v.Sign() <= 0 {
		return -1
	}
	n := v.BitLen() - 1
	if new(big.Int).Lsh(big.NewInt(1), uint(n)).Cmp(v) == 0 {
		return n
	}
	return -1
}

// ---- concat / extract

func Concat(xs ...*Term) *Term {
	var out []*Term
	var push func(x *Term)
	push = func(x *Term) {
		if x.Op == OConcat {
			for _, a := range x.Args {
				push(a)
			}
			return
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.Op == OConst && x.Op == OConst {
				v := new(big.Int).Lsh(p.V, uint(x.S.W))
				v.Or(v, x.V)
				out[len(out)-1] = BVBig(p.S.W+x.S.W, v)
				return
			}
			// adjacent extracts of the same term
			if p.Op == OExtract && x.Op == OExtract && p.Args[0] == x.Args[0] && p.J == x.I+1 {
				out = out[:len(out)-1]
				push(Extract(p.Args[0], p.I, x.J))
				return
			}
			if p.Op == OIte && x.Op == OIte && p.Args[0] == x.Args[0] {
				out = out[:len(out)-1]
				push(Ite(p.Args[0], Concat(p.Args[1], x.Args[1]), Concat(p.Args[2], x.Args[2])))
				return
			}
		}
		out = append(out, x)
	}
	for _, x := range xs {
		push(x)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, o := range out {
		w += o.S.W
	}
	return intern(&Term{Op: OConcat, S: BVS(w), Args: out})
}

func Extract(t *Term, hi, lo int) *Term {
	if t.S.K != SBV || hi < lo || hi >= t.S.W {
		panic(fmt.Sprintf("extract %d %d of %s", hi, lo, t.S))
	}
	if lo == 0 && hi == t.S.W-1 {
		return t
	}
	switch t.Op {
	case OConst:
		return BVBig(hi-lo+1, new(big.Int).Rsh(t.V, uint(lo)))
	case OExtract:
		return Extract(t.Args[0], hi+t.J, lo+t.J)
	case OConcat:
		var parts []*Term
		pos := t.S.W
		for _, a := range t.Args {
			pos -= a.S.W // a covers [pos, pos+w)
			h := min(hi, pos+a.S.W-1)
			l := max(lo, pos)
			if h >= l {
				parts = append(parts, Extract(a, h-pos, l-pos))
			}
		}
		return Concat(parts...)
	case OIte:
		if t.Args[1].Op == OConst || t.Args[2].Op == OConst || t.Args[1].Op == OConcat || t.Args[2].Op == OConcat {
			return Ite(t.Args[0], Extract(t.Args[1], hi, lo), Extract(t.Args[2], hi, lo))
		}
	case OBAnd, OBOr, OBXor:
		f := map[Op]func(a, b *Term) *Term{OBAnd: BAnd, OBOr: BOr, OBXor: BXor}[t.Op]
		return f(Extract(t.Args[0], hi, lo), Extract(t.Args[1], hi, lo))
	case OBNot:
		return BNot(Extract(t.Args[0], hi, lo))
	case OAdd:
		if lo == 0 {
			// low bits of a sum: sum of low bits
			m, c := linear(t)
			r := BVBig(hi+1, c)
			for x, k := range m {
				r = Add(r, Mul(BVBig(hi+1, k), Extract(x, hi, 0)))
			}
			return r
		}
	case OSext:
		if hi < t.Args[0].S.W {
			return Extract(t.Args[0], hi, lo)
		}
	}
	return intern(&Term{Op: OExtract, S: BVS(hi - lo + 1), Args: []*Term{t}, I: hi, J: lo})
}
func Zext(t *Term, w int) *Term {
	if t.S.W == w {
		return t
	}
	return Concat(BV(w-t.S.W, 0), t)
}
func Sext(t *Term, w int) *Term {
	if t.S.W == w {
		return t
	}
	if t.Op == OConst {
		return BVBig(w, t.Signed())
	}
	if t.Op == OConcat && t.Args[0].Op == OConst && t.Args[0].V.Bit(t.Args[0].S.W-1) == 0 {
		return Zext(t, w)
	}
	if t.Op == OSext {
		return Sext(t.Args[0], w)
	}
	return intern(&Term{Op: OSext, S: BVS(w), Args: []*Term{t}})
}

// ---- bitwise

func BNot(a *Term) *Term {
	if a.Op == OConst {
		return BVBig(a.S.W, new(big.Int).Xor(a.V, mask(a.S.W)))
	}
	if a.Op == OBNot {
		return a.Args[0]
	}
	return intern(&Term{Op: OBNot, S: a.S, Args: []*Term{a}})
}

// segments splits t into maximal known pieces (most significant first).
func segments(t *Term) []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	return []*Term{t}
}

// zipSegs applies f on aligned pieces of a and b.
func zipSegs(a, b *Term, f func(x, y *Term) *Term) *Term {
	cuts := map[int]bool{}
	for _, t := range []*Term{a, b} {
		pos := t.S.W
		for _, s := range segments(t) {
			pos -= s.S.W
			cuts[pos] = true
		}
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cs)))
	hi := a.S.W - 1
	var parts []*Term
	for _, c := range cs {
		parts = append(parts, f(Extract(a, hi, c), Extract(b, hi, c)))
		hi = c - 1
	}
	return Concat(parts...)
}
func isOnes(t *Term) bool { return t.Op == OConst && t.V.Cmp(mask(t.S.W)) == 0 }

// splitConst cuts a constant into runs of zeros and ones as a pseudo concat.
func splitRuns(t *Term) []int {
	var cuts []int
	for i := 1; i < t.S.W; i++ {
		if t.V.Bit(i) != t.V.Bit(i-1) {
			cuts = append(cuts, i)
		}
	}
	return cuts
}

func bitop(op Op, a, b *Term) *Term {
	chk(a, b)
	if a.Op == OConst && b.Op == OConst {
		v := new(big.Int)
		switch op {
		case OBAnd:
			v.And(a.V, b.V)
		case OBOr:
			v.Or(a.V, b.V)
		default:
			v.Xor(a.V, b.V)
		}
		return BVBig(a.S.W, v)
	}
	if a.Op == OConst {
		a, b = b, a
	}
	if b.Op == OConst {
		if b.V.Sign() == 0 {
			if op == OBAnd {
				return b
			}
			return a
		}
		if isOnes(b) {
			switch op {
			case OBAnd:
				return a
			case OBOr:
				return b
			default:
				return BNot(a)
			}
		}
		if op != OBXor {
			// cut along runs of the mask
			cuts := splitRuns(b)
			if len(cuts) <= 4 {
				hi := a.S.W - 1
				var parts []*Term
				for i := len(cuts) - 1; i >= -1; i-- {
					lo := 0
					if i >= 0 {
						lo = cuts[i]
					}
					parts = append(parts, bitop(op, Extract(a, hi, lo), Extract(b, hi, lo)))
					hi = lo - 1
				}
				return Concat(parts...)
			}
		}
	}
	if a == b {
		if op == OBXor {
			return BV(a.S.W, 0)
		}
		return a
	}
	if a.Op == OConcat || b.Op == OConcat {
		return zipSegs(a, b, func(x, y *Term) *Term { return bitop1(op, x, y) })
	}
	return bitop1(op, a, b)
}
func bitop1(op Op, a, b *Term) *Term {
	if a.Op == OConst || b.Op == OConst {
		c, o := a, b
		if b.Op == OConst {
			c, o = b, a
		}
		if c.V.Sign() == 0 || isOnes(c) || o.Op == OConst {
			return bitop(op, o, c)
		}
	}
	if a == b {
		return bitop(op, a, b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return intern(&Term{Op: op, S: a.S, Args: []*Term{a, b}})
}
func BAnd(a, b *Term) *Term { return bitop(OBAnd, a, b) }
func BOr(a, b *Term) *Term  { return bitop(OBOr, a, b) }
func BXor(a, b *Term) *Term { return bitop(OBXor, a, b) }

func Shl(a, b *Term) *Term {
	chk(a, b)
	if b.Op == OConst {
		if !b.V.IsInt64() || b.V.Int64() >= int64(a.S.W) {
			return BV(a.S.W, 0)
		}
		n := int(b.V.Int64())
		if n == 0 {
			return a
		}
		return Concat(Extract(a, a.S.W-1-n, 0), BV(n, 0))
	}
	return bin(OShl, a, b)
}
func Lshr(a, b *Term) *Term {
	chk(a, b)
	if b.Op == OConst {
		if !b.V.IsInt64() || b.V.Int64() >= int64(a.S.W) {
			return BV(a.S.W, 0)
		}
		n := int(b.V.Int64())
		if n == 0 {
			return a
		}
		return Zext(Extract(a, a.S.W-1, n), a.S.W)
	}
	return bin(OLshr, a, b)
}
func Ashr(a, b *Term) *Term {
	chk(a, b)
	if b.Op == OConst {
		n := a.S.W - 1
		if b.V.IsInt64() && b.V.Int64() < int64(n) {
			n = int(b.V.Int64())
		}
		if n == 0 {
			return a
		}
		return Sext(Extract(a, a.S.W-1, n), a.S.W)
	}
	return bin(OAshr, a, b)
}

// ---- comparisons

func Ult(a, b *Term) *Term {
	chk(a, b)
	if a == b || b.IsZero() {
		return TFalse
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.V.Cmp(b.V) < 0)
	}
	if a.S.W == 32 {
		l1, h1, k1 := refBound(a)
		l2, h2, k2 := refBound(b)
		if k1 && k2 {
			if h1 <= l2 {
				return TTrue
			}
			if l1+1 >= h2 {
				return TFalse
			}
		}
	}
	if h := upperBound(a); h != nil && b.Op == OConst && h.Cmp(b.V) < 0 {
		return TTrue
	}
	if h := upperBound(b); h != nil && a.Op == OConst && h.Cmp(a.V) <= 0 {
		return TFalse
	}
	if a2, b2, ok := stripCommonHigh(a, b); ok {
		return Ult(a2, b2)
	}
	return intern(&Term{Op: OUlt, S: BoolS, Args: []*Term{a, b}})
}
func stripCommonHigh(a, b *Term) (*Term, *Term, bool) {
	sa, sb := segments(a), segments(b)
	if a.Op != OConcat && b.Op != OConcat {
		return nil, nil, false
	}
	if sa[0] == sb[0] && sa[0].S.W < a.S.W {
		return Concat(sa[1:]...), Concat(sb[1:]...), true
	}
	// leading zero constants of different widths
	za, zb := leadZero(a), leadZero(b)
	n := min(za, zb)
	if n > 0 && n < a.S.W {
		return Extract(a, a.S.W-1-n, 0), Extract(b, b.S.W-1-n, 0), true
	}
	return nil, nil, false
}
func leadZero(t *Term) int {
	s := segments(t)[0]
	if s.Op == OConst {
		return s.S.W - s.V.BitLen()
	}
	return 0
}

// upperBound: syntactic inclusive unsigned upper bound or nil
func upperBound(t *Term) *big.Int {
	switch t.Op {
	case OConst:
		return t.V
	case OConcat:
		s := t.Args[0]
		if s.Op == OConst && s.V.BitLen() < s.S.W {
			rest := t.S.W - s.S.W
			v := new(big.Int).Lsh(s.V, uint(rest))
			return v.Add(v, mask(rest))
		}
	case OApp:
		if isDiv(t, "udiv") {
			m := mask(t.S.W)
			if h := upperBound(t.Args[0]); h != nil {
				m = h
			}
			return new(big.Int).Div(m, t.Args[1].V)
		}
	case OIte:
		a, b := upperBound(t.Args[1]), upperBound(t.Args[2])
		if a != nil && b != nil {
			if a.Cmp(b) > 0 {
				return a
			}
			return b
		}
	}
	return nil
}
func Ule(a, b *Term) *Term {
	chk(a, b)
	if a == b || a.IsZero() {
		return TTrue
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.V.Cmp(b.V) <= 0)
	}
	if a.S.W == 32 {
		l1, h1, k1 := refBound(a)
		l2, h2, k2 := refBound(b)
		if k1 && k2 {
			if h1 <= l2+1 {
				return TTrue
			}
			if l1 >= h2 {
				return TFalse
			}
		}
	}
	if isOnes(b) {
		return TTrue
	}
	if h := upperBound(a); h != nil && b.Op == OConst && h.Cmp(b.V) <= 0 {
		return TTrue
	}
	if h := upperBound(b); h != nil && a.Op == OConst && h.Cmp(a.V) < 0 {
		return TFalse
	}
	if a2, b2, ok := stripCommonHigh(a, b); ok {
		return Ule(a2, b2)
	}
	return intern(&Term{Op: OUle, S: BoolS, Args: []*Term{a, b}})
}
func nonNeg(t *Term) bool {
	if t.Op == OConst {
		return t.V.Bit(t.S.W-1) == 0
	}
	h := upperBound(t)
	return h != nil && h.Bit(t.S.W-1) == 0
}
func Slt(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return TFalse
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.Signed().Cmp(b.Signed()) < 0)
	}
	if nonNeg(a) && nonNeg(b) {
		return Ult(a, b)
	}
	return intern(&Term{Op: OSlt, S: BoolS, Args: []*Term{a, b}})
}
func Sle(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return TTrue
	}
	if a.Op == OConst && b.Op == OConst {
		return Bool(a.Signed().Cmp(b.Signed()) <= 0)
	}
	if nonNeg(a) && nonNeg(b) {
		return Ule(a, b)
	}
	return intern(&Term{Op: OSle, S: BoolS, Args: []*Term{a, b}})
}

// ---- arrays

func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{Op: OConstArr, S: s, Args: []*Term{v}})
}
func Select(a, i *Term) *Term {
	if a.S.K != SArr || a.S.Key != i.S {
		panic(fmt.Sprintf("select %s [%s]", a.S, i.S))
	}
	for {
		switch a.Op {
		case OConstArr:
			return a.Args[0]
		case OStore:
			if a.Args[1] == i {
				return a.Args[2]
			}
			if Distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
			// nested arrays or few stores: keep
		case OIte:
			x, y := Select(a.Args[1], i), Select(a.Args[2], i)
			return Ite(a.Args[0], x, y)
		case OApp:
			if a.Name == "acopy" {
				d := Sub(i, a.Args[1])
				return Ite(Ult(d, a.Args[4]), Select(a.Args[2], Add(a.Args[3], d)), Select(a.Args[0], i))
			}
		case OVar:
			// loop-havoc frame: reads of untouched older objects see the old memory
			if f, ok := frames.Load(a.Name); ok {
				fr := f.(*frameInfo)
				if fr.untouched(i) {
					a = fr.old
					continue
				}
			}
		}
		break
	}
	return intern(&Term{Op: OSelect, S: a.S.Val, Args: []*Term{a, i}})
}

type frameInfo struct {
	old     *Term
	water   uint64  // refs >= water may differ
	written []*Term // refs that may differ
}

func (f *frameInfo) untouched(i *Term) bool {
	_, hi, ok := refBound(i)
	if !ok || hi > f.water {
		return false
	}
	for _, w := range f.written {
		if !Distinct(w, i) {
			return false
		}
	}
	return true
}

var frames sync.Map

func Store(a, i, v *Term) *Term {
	if a.S.K != SArr || a.S.Key != i.S || a.S.Val != v.S {
		panic(fmt.Sprintf("store %s [%s]=%s", a.S, i.S, v.S))
	}
	if v.Op == OSelect && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if a.Op == OStore {
		if a.Args[1] == i {
			return Store(a.Args[0], i, v)
		}
		// push past distinct constant index that is larger, to canonicalise and overwrite
		if Distinct(a.Args[1], i) && i.Op == OConst && a.Args[1].Op == OConst && a.Args[1].V.Cmp(i.V) > 0 {
			return Store(Store(a.Args[0], i, v), a.Args[1], a.Args[2])
		}
	}
	return intern(&Term{Op: OStore, S: a.S, Args: []*Term{a, i, v}})
}

// ---- quantifiers

func Quant(op Op, bound []*Term, pats [][]*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	fv := map[*Term]bool{}
	freeBound(body, fv)
	var bs []*Term
	for _, b := range bound {
		if fv[b] {
			bs = append(bs, b)
		}
	}
	if len(bs) == 0 {
		return body
	}
	if len(bs) != len(bound) {
		pats = nil
	}
	return intern(&Term{Op: op, S: BoolS, Args: []*Term{body}, Bound: bs, Pats: pats})
}
func Forall(bound []*Term, pats [][]*Term, body *Term) *Term {
	return Quant(OForall, bound, pats, body)
}

// Subst replaces (bound) variables.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			if t.Op == OForall || t.Op == OExists {
				var ps [][]*Term
				for _, p := range t.Pats {
					var q []*Term
					for _, x := range p {
						q = append(q, f(x))
					}
					ps = append(ps, q)
				}
				r = Quant(t.Op, t.Bound, ps, args[0])
			} else {
				r = Rebuild(t, args)
			}
		}
		cache[t] = r
		return r
	}
	return f(t)
}

// Rebuild applies the simplifying constructor of t to new arguments.
func Rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case OApp:
		return App(t.Name, t.S, a...)
	case OFP:
		return FPOp(t.Name, t.S, a...)
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case OEq:
		return Eq(a[0], a[1])
	case OAdd:
		r := a[0]
		for _, x := range a[1:] {
			r = Add(r, x)
		}
		return r
	case OMul:
		return Mul(a[0], a[1])
	case OUdiv:
		return Udiv(a[0], a[1])
	case OUrem:
		return Urem(a[0], a[1])
	case OSdiv:
		return Sdiv(a[0], a[1])
	case OSrem:
		return Srem(a[0], a[1])
	case OBAnd:
		return BAnd(a[0], a[1])
	case OBOr:
		return BOr(a[0], a[1])
	case OBXor:
		return BXor(a[0], a[1])
	case OBNot:
		return BNot(a[0])
	case OShl:
		return Shl(a[0], a[1])
	case OLshr:
		return Lshr(a[0], a[1])
	case OAshr:
		return Ashr(a[0], a[1])
	case OUlt:
		return Ult(a[0], a[1])
	case OUle:
		return Ule(a[0], a[1])
	case OSlt:
		return Slt(a[0], a[1])
	case OSle:
		return Sle(a[0], a[1])
	case OConcat:
		return Concat(a...)
	case OExtract:
		return Extract(a[0], t.I, t.J)
	case OSext:
		return Sext(a[0], t.S.W)
	case OSelect:
		return Select(a[0], a[1])
	case OStore:
		return Store(a[0], a[1], a[2])
	case OConstArr:
		return ConstArr(t.S, a[0])
	}
	panic("rebuild")
}

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OMul: "bvmul",
	OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt",
	OSle: "bvsle", OConcat: "concat", OSelect: "select", OStore: "store"}

// String prints an SMT-LIB expression (tree form; for diagnostics).
func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
