package main

// The contract language: parsing and evaluation.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Label string
	Props []string
	Expr  ast.Expr
	Src   string
	Vars  [][2]string // template variables of invariants: name, type
}

func (c *Clause) props(k *Contract) []string {
	if len(c.Props) > 0 {
		return c.Props
	}
	return k.Props
}

type Let struct {
	Name string
	Expr ast.Expr
}

type Contract struct {
	Fn          string
	Pkg         string
	Params      []string
	Results     []string
	Props       []string
	SafetyProps []string
	Requires    []Clause
	Ensures     []Clause
	OnExit      []Clause
	Covers      []Clause
	Lets        []Let
	PostLets    []Let
	Modifies    []ast.Expr
	GhostMods   []string
	ModifiesAny bool
	Fresh       []string
	Invariants  []Clause
	Decreases   []Clause
	Inline      bool
	InlineCalls []string
	NoReturn    bool
	Terminates  bool
	AllowGo     bool
	ElemPtr     bool
	MaxAlloc    uint64
	Lemma       bool
	LemmaTypes  []string
	FreeVals    []string
	File        string
	FrameProps  []string
	usable      map[string]bool
	Trusted     string // assumed, not verified: the reason
}

func (c *Contract) frameProps() []string {
	if len(c.FrameProps) > 0 {
		return c.FrameProps
	}
	return c.Props
}
func (c *Contract) isFresh(n string) bool {
	for _, f := range c.Fresh {
		if f == n {
			return true
		}
	}
	return false
}
func (c *Contract) ghostAllowed(mem string) bool {
	for _, g := range c.GhostMods {
		if "g:"+g == mem {
			return true
		}
	}
	return false
}
func (c *Contract) inlines(fn string) bool {
	for _, n := range c.InlineCalls {
		if fn == n {
			return true
		}
	}
	return false
}

type Macro struct {
	Params []string
	Body   ast.Expr
}

// LogicFn: an uninterpreted function of the contract language and the facts
// that define it (over its parameters and "result").
type LogicFn struct {
	Name   string
	Params []string
	Sorts  []string
	Res    string
	Axioms []Clause
}

type SpecFile struct {
	fns    map[string]*LogicFn
	list   []*Contract
	byFn   map[string]*Contract
	macros map[string]*Macro
	pkgs   map[string]string
	ghosts map[string]string
}

var labelRe = regexp.MustCompile(`^([A-Za-z0-9_.+/-]+)(?:\[([A-Z0-9, ]+)\])?(?:\s+var\(([^)]*)\))?:\s+(.*)$`)

func loadSpecs(dir string) (*SpecFile, error) {
	sf := &SpecFile{fns: map[string]*LogicFn{}, byFn: map[string]*Contract{}, macros: map[string]*Macro{}, pkgs: map[string]string{}, ghosts: map[string]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sf.parse(string(b), f); err != nil {
			return nil, err
		}
	}
	return sf, nil
}

func splitProps(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == ' ' })
}

func (sf *SpecFile) expr(s, where string) (ast.Expr, error) {
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil, fmt.Errorf("%s: %v in %q", where, err, s)
	}
	return e, nil
}

func (sf *SpecFile) resolve(n string) string {
	i := strings.Index(n, ".")
	if i < 0 {
		return n
	}
	if p, ok := sf.pkgs[n[:i]]; ok {
		return p + n[i:]
	}
	return n
}

func (sf *SpecFile) parse(src, file string) error {
	var lines []string
	var nums []int
	for i, l := range strings.Split(src, "\n") {
		if j := strings.Index(l, "//"); j >= 0 && (j == 0 || strings.TrimSpace(l[:j]) == "" || strings.HasPrefix(l[j:], "// ")) {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		ind := len(l) - len(strings.TrimLeft(l, " "))
		if ind >= 4 && len(lines) > 0 {
			lines[len(lines)-1] += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, l)
		nums = append(nums, i+1)
	}
	var cur *Contract
	var curFn *LogicFn
	for i, l := range lines {
		where := fmt.Sprintf("%s:%d", file, nums[i])
		t := strings.TrimSpace(l)
		kw, rest := t, ""
		if j := strings.IndexAny(t, " \t"); j >= 0 {
			kw, rest = t[:j], strings.TrimSpace(t[j+1:])
		}
		if !strings.HasPrefix(l, " ") {
			switch kw {
			case "package":
				f := strings.Fields(rest)
				if len(f) != 3 || f[1] != "as" {
					return fmt.Errorf("%s: package PATH as NAME", where)
				}
				sf.pkgs[f[2]] = f[0]
			case "define":
				j := strings.Index(rest, "=")
				head, body := strings.TrimSpace(rest[:j]), strings.TrimSpace(rest[j+1:])
				m := &Macro{}
				name := head
				if k := strings.Index(head, "("); k >= 0 {
					name = head[:k]
					for _, p := range strings.Split(strings.TrimSuffix(head[k+1:], ")"), ",") {
						if p = strings.TrimSpace(p); p != "" {
							m.Params = append(m.Params, p)
						}
					}
				}
				e, err := sf.expr(body, where)
				if err != nil {
					return err
				}
				m.Body = e
				if sf.macros[name] != nil {
					return fmt.Errorf("%s: %s is defined twice", where, name)
				}
				sf.macros[name] = m
			case "ghost":
				f := strings.Fields(rest)
				sf.ghosts[f[0]] = strings.Join(f[1:], " ")
			case "function": // function name(p sort, ...) sort
				lf := &LogicFn{}
				a, b := strings.Index(rest, "("), strings.LastIndex(rest, ")")
				if a < 0 || b < a {
					return fmt.Errorf("%s: function NAME(PARAMETERS) SORT", where)
				}
				lf.Name, lf.Res = strings.TrimSpace(rest[:a]), strings.TrimSpace(rest[b+1:])
				for _, p := range strings.Split(rest[a+1:b], ",") {
					if f := strings.Fields(p); len(f) == 2 {
						lf.Params = append(lf.Params, f[0])
						lf.Sorts = append(lf.Sorts, f[1])
					}
				}
				sf.fns[lf.Name] = lf
				curFn, cur = lf, nil
			case "func", "lemma":
				curFn = nil
				cur = &Contract{File: filepath.Base(file)}
				head, res := rest, ""
				// name(params) (results)
				depth := 0
				end := -1
				start := -1
				// find the parameter list: the last balanced group, or the one before the results
				groups := [][2]int{}
				for j, ch := range rest {
					if ch == '(' {
						if depth == 0 {
							start = j
						}
						depth++
					}
					if ch == ')' {
						depth--
						if depth == 0 {
							groups = append(groups, [2]int{start, j})
						}
					}
				}
				_ = end
				if len(groups) == 0 {
					return fmt.Errorf("%s: no parameter list", where)
				}
				pg := groups[len(groups)-1]
				if len(groups) >= 2 {
					prev := groups[len(groups)-2]
					if strings.TrimSpace(rest[prev[1]+1:pg[0]]) == "" {
						res = rest[pg[0]+1 : pg[1]]
						pg = prev
					}
				}
				head = strings.TrimSpace(rest[:pg[0]])
				cur.Fn = sf.resolve(head)
				cur.Pkg = cur.Fn
				if j := strings.LastIndex(head, "."); j >= 0 {
					k := strings.Index(head, ".")
					cur.Pkg = sf.resolve(head[:k] + ".")
					cur.Pkg = strings.TrimSuffix(cur.Pkg, ".")
				}
				cur.Lemma = kw == "lemma"
				for _, p := range strings.Split(rest[pg[0]+1:pg[1]], ",") {
					if p = strings.TrimSpace(p); p == "" {
						continue
					}
					f := strings.Fields(p)
					cur.Params = append(cur.Params, f[0])
					if cur.Lemma {
						cur.LemmaTypes = append(cur.LemmaTypes, f[1])
					}
				}
				for _, p := range strings.Split(res, ",") {
					if p = strings.TrimSpace(p); p != "" {
						cur.Results = append(cur.Results, p)
					}
				}
				if sf.byFn[cur.Fn] != nil {
					return fmt.Errorf("%s: second contract for %s", where, cur.Fn)
				}
				sf.byFn[cur.Fn] = cur
				sf.list = append(sf.list, cur)
			default:
				return fmt.Errorf("%s: unknown keyword %q", where, kw)
			}
			continue
		}
		if cur == nil && curFn != nil && kw == "axiom" {
			m := labelRe.FindStringSubmatch(rest)
			if m == nil {
				return fmt.Errorf("%s: axiom LABEL: EXPR", where)
			}
			e, err := sf.expr(m[4], where)
			if err != nil {
				return err
			}
			curFn.Axioms = append(curFn.Axioms, Clause{Label: m[1], Expr: e, Src: m[4]})
			continue
		}
		if cur == nil {
			return fmt.Errorf("%s: clause outside a contract", where)
		}
		clause := func() (Clause, error) {
			m := labelRe.FindStringSubmatch(rest)
			if m == nil {
				return Clause{}, fmt.Errorf("%s: expected LABEL: EXPR", where)
			}
			e, err := sf.expr(m[4], where)
			c := Clause{Label: m[1], Props: splitProps(m[2]), Expr: e, Src: m[4]}
			for _, v := range strings.Split(m[3], ",") {
				if f := strings.Fields(v); len(f) == 2 {
					c.Vars = append(c.Vars, [2]string{f[0], f[1]})
				}
			}
			return c, err
		}
		var err error
		var c Clause
		switch kw {
		case "props":
			cur.Props = splitProps(rest)
		case "safety":
			cur.SafetyProps = splitProps(rest)
		case "frameprops":
			cur.FrameProps = splitProps(rest)
		case "requires":
			c, err = clause()
			cur.Requires = append(cur.Requires, c)
		case "ensures":
			c, err = clause()
			cur.Ensures = append(cur.Ensures, c)
		case "onexit":
			c, err = clause()
			cur.OnExit = append(cur.OnExit, c)
		case "covers":
			c, err = clause()
			cur.Covers = append(cur.Covers, c)
		case "invariant":
			c, err = clause()
			cur.Invariants = append(cur.Invariants, c)
		case "decreases":
			c, err = clause()
			cur.Decreases = append(cur.Decreases, c)
		case "let", "post":
			j := strings.Index(rest, "=")
			var e ast.Expr
			e, err = sf.expr(strings.TrimSpace(rest[j+1:]), where)
			le := Let{strings.TrimSpace(rest[:j]), e}
			if kw == "let" {
				cur.Lets = append(cur.Lets, le)
			} else {
				cur.PostLets = append(cur.PostLets, le)
			}
		case "modifies":
			if rest == "any" {
				cur.ModifiesAny = true
				break
			}
			for _, m := range splitTop(rest) {
				if strings.HasPrefix(m, "ghost:") {
					cur.GhostMods = append(cur.GhostMods, strings.TrimPrefix(m, "ghost:"))
					continue
				}
				if m == "nothing" {
					continue
				}
				var e ast.Expr
				if e, err = sf.expr(m, where); err != nil {
					return err
				}
				cur.Modifies = append(cur.Modifies, e)
			}
		case "fresh":
			cur.Fresh = append(cur.Fresh, splitProps(rest)...)
		case "captures":
			cur.FreeVals = splitProps(rest)
		case "inline":
			if rest == "" {
				cur.Inline = true
			} else {
				for _, n := range strings.Fields(rest) {
					cur.InlineCalls = append(cur.InlineCalls, sf.resolve(n))
				}
			}
		case "noreturn":
			cur.NoReturn = true
		case "terminates":
			cur.Terminates = true
		case "allowgo":
			cur.AllowGo = true
		case "trusted":
			cur.Trusted = rest
		case "maxalloc":
			v, e := strconv.ParseUint(rest, 0, 64)
			cur.MaxAlloc, err = v, e
		default:
			err = fmt.Errorf("%s: unknown clause %q", where, kw)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ---- evaluation

type SV struct {
	v Value
	t types.Type
	c *big.Int
}

func (s SV) String() string {
	if s.c != nil {
		return s.c.String()
	}
	return fmt.Sprintf("%v:%v", s.v, s.t)
}

type SpecEnv struct {
	x       *X
	st, old *State
	vars    map[string]SV
	c       *Contract
	fn      *ssa.Function
	path    *Path // loop invariants: names of the running frames
	depth   int
}

var ghostSorts = map[string]*Sort{}

func (e *SpecEnv) with(vars map[string]SV) *SpecEnv {
	n := *e
	n.vars = vars
	return &n
}
func (e *SpecEnv) bind(name string, v SV) *SpecEnv {
	m := make(map[string]SV, len(e.vars)+1)
	for k, x := range e.vars {
		m[k] = x
	}
	m[name] = v
	return e.with(m)
}

func (e *SpecEnv) evalLets(ls []Let) {
	for _, l := range ls {
		v := e.eval(l.Expr)
		m := make(map[string]SV, len(e.vars)+1)
		for k, x := range e.vars {
			m[k] = x
		}
		m[l.Name] = v
		e.vars = m
	}
}

func boolOf(v SV) *Term {
	t, ok := v.v.(*Term)
	if !ok || t.S != BoolS {
		fail("spec: not a boolean: %v", v)
	}
	return t
}
func (e *SpecEnv) boolExpr(x ast.Expr) *Term { return boolOf(e.eval(x)) }

func (v SV) signed() bool {
	if v.t != nil {
		return signed(v.t)
	}
	if t, ok := v.v.(*Term); ok && t.S.K == SBV && t.S.W == 128 {
		return true
	}
	return false
}

func (v SV) term() *Term {
	if v.c != nil {
		return BVBig(64, v.c)
	}
	t, ok := v.v.(*Term)
	if !ok {
		fail("spec: not a scalar: %T", v.v)
	}
	return t
}

// as converts a constant to the given sort.
func (v SV) as(s *Sort) *Term {
	if v.c != nil {
		if s.K != SBV {
			fail("spec: constant as %s", s)
		}
		return BVBig(s.W, v.c)
	}
	t := v.term()
	if t.S != s {
		fail("spec: sort %s expected, got %s", s, t.S)
	}
	return t
}

var intT = types.Typ[types.Int]

func (e *SpecEnv) eval(ex ast.Expr) SV {
	e.depth++
	if e.depth > 4000 {
		fail("spec: too deep")
	}
	defer func() { e.depth-- }()
	switch ex := ex.(type) {
	case *ast.ParenExpr:
		return e.eval(ex.X)
	case *ast.BasicLit:
		switch ex.Kind {
		case token.INT:
			v, ok := new(big.Int).SetString(strings.ReplaceAll(ex.Value, "_", ""), 0)
			if !ok {
				fail("spec: integer %s", ex.Value)
			}
			return SV{c: v}
		case token.STRING:
			s, _ := strconv.Unquote(ex.Value)
			return SV{v: StrLit(s), t: types.Typ[types.String]}
		case token.CHAR:
			s, _, _, _ := strconv.UnquoteChar(ex.Value[1:len(ex.Value)-1], '\'')
			return SV{c: big.NewInt(int64(s))}
		}
	case *ast.Ident:
		return e.ident(ex.Name)
	case *ast.SelectorExpr:
		return e.selector(ex)
	case *ast.UnaryExpr:
		v := e.eval(ex.X)
		switch ex.Op {
		case token.NOT:
			return SV{v: Not(boolOf(v))}
		case token.SUB:
			if v.c != nil {
				return SV{c: new(big.Int).Neg(v.c)}
			}
			return SV{v: Neg(v.term()), t: v.t}
		case token.XOR:
			return SV{v: BNot(v.term()), t: v.t}
		}
	case *ast.StarExpr:
		v := e.eval(ex.X)
		p, ok := v.v.(*PtrV)
		if !ok {
			fail("spec: dereference of %T", v.v)
		}
		return SV{v: e.st.load(p), t: p.T}
	case *ast.BinaryExpr:
		return e.binary(ex)
	case *ast.IndexExpr:
		return e.index(e.eval(ex.X), ex.Index)
	case *ast.SliceExpr:
		v := e.eval(ex.X)
		lo := SV{c: new(big.Int)}
		if ex.Low != nil {
			lo = e.eval(ex.Low)
		}
		switch b := v.v.(type) {
		case *SliceV:
			l := lo.as(U64S)
			h := b.Len
			if ex.High != nil {
				h = e.eval(ex.High).as(U64S)
			}
			return SV{v: &SliceV{b.Ref, Add(b.Off, l), Sub(h, l), Sub(b.Cap, l), b.Elem}, t: v.t}
		case *Term:
			l := lo.as(U64S)
			h := slenOf(b)
			if ex.High != nil {
				h = e.eval(ex.High).as(U64S)
			}
			return SV{v: subStr(b, l, Sub(h, l)), t: v.t}
		}
	case *ast.CallExpr:
		return e.call(ex)
	}
	fail("spec: expression %T", ex)
	return SV{}
}

func (e *SpecEnv) ident(n string) SV {
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true":
		return SV{v: TTrue}
	case "false":
		return SV{v: TFalse}
	case "nil":
		return SV{v: nil}
	}
	if m, ok := e.x.eng.specs.macros[n]; ok && len(m.Params) == 0 {
		return e.with(e.vars).eval(m.Body)
	}
	if e.path != nil {
		if v, ok := e.lookupLocal(n); ok {
			return v
		}
	}
	fail("spec: unknown name %s", n)
	return SV{}
}

// lookupLocal finds a source variable in the running frames.
func (e *SpecEnv) lookupLocal(n string) (SV, bool) {
	for fr := e.path.fr; fr != nil; fr = fr.parent {
		if v, ok := fr.dbg[n]; ok {
			if val, ok := fr.env[v]; ok {
				return SV{v: val, t: v.Type()}, true
			}
			if c, ok := v.(*ssa.Const); ok {
				return SV{v: e.x.constVal(c), t: c.Type()}, true
			}
		}
		if a, ok := fr.dbg["&"+n]; ok {
			if val, ok := fr.env[a]; ok {
				p := val.(*PtrV)
				return SV{v: e.st.load(p), t: p.T}, true
			}
		}
		for _, fv := range fr.fn.FreeVars {
			if fv.Name() == n {
				if p, ok := fr.env[fv].(*PtrV); ok {
					return SV{v: e.st.load(p), t: p.T}, true
				}
			}
		}
	}
	return SV{}, false
}

func (e *SpecEnv) selector(ex *ast.SelectorExpr) SV {
	if id, ok := ex.X.(*ast.Ident); ok {
		if _, isVar := e.vars[id.Name]; !isVar {
			if pp, ok := e.x.eng.specs.pkgs[id.Name]; ok {
				return e.pkgMember(pp, ex.Sel.Name)
			}
		}
	}
	v := e.eval(ex.X)
	return e.field(v, ex.Sel.Name)
}

func (e *SpecEnv) field(v SV, n string) SV {
	if v.t == nil {
		fail("spec: field %s of a logical value", n)
	}
	if p, ok := v.v.(*PtrV); ok {
		return e.field(SV{v: e.st.load(p), t: p.T}, n)
	}
	st, ok := under(v.t).(*types.Struct)
	if !ok {
		fail("spec: field %s of %s", n, v.t)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n {
			return SV{v: v.v.(*StructV).F[i], t: st.Field(i).Type()}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			f := SV{v: v.v.(*StructV).F[i], t: st.Field(i).Type()}
			if has(f.t, n) {
				return e.field(f, n)
			}
		}
	}
	fail("spec: no field %s in %s", n, v.t)
	return SV{}
}
func has(t types.Type, n string) bool {
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := under(t).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == n || (st.Field(i).Embedded() && has(st.Field(i).Type(), n)) {
			return true
		}
	}
	return false
}

func (e *SpecEnv) pkgMember(pp, n string) SV {
	pk := e.x.eng.prog.pkgs[pp]
	if pk == nil {
		fail("spec: package %s", pp)
	}
	switch m := pk.Members[n].(type) {
	case *ssa.NamedConst:
		v := constTerm(m.Value.Value, m.Type())
		if t, ok := v.(*Term); ok && t.S.K == SBV {
			if b, ok := m.Type().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				i, _ := new(big.Int).SetString(m.Value.Value.ExactString(), 10)
				return SV{c: i}
			}
		}
		return SV{v: v, t: m.Type()}
	case *ssa.Global:
		t := m.Type().(*types.Pointer).Elem()
		if v := e.x.eng.globalValue(m); v != nil {
			return SV{v: v, t: t}
		}
		return SV{v: e.st.load(e.x.globalPtr(m)), t: t}
	}
	fail("spec: no constant or variable %s in %s", n, pp)
	return SV{}
}

func (e *SpecEnv) index(b SV, ix ast.Expr) SV {
	i := e.eval(ix)
	switch v := b.v.(type) {
	case *SliceV:
		k := i.c
		var t *Term
		if k != nil {
			t = BVBig(64, k)
		} else {
			t = e.x.idxTerm(i.term(), tOr(i.t))
		}
		if e.noWF(t) {
			return SV{v: e.rawElem(v, t), t: v.Elem}
		}
		return SV{v: e.st.elemAt(v, t), t: v.Elem}
	case *ArrayV:
		et := under(b.t).(*types.Array).Elem()
		if i.c != nil {
			return SV{v: v.E[i.c.Int64()], t: et}
		}
		return SV{v: arrayAt(v, e.x.idxTerm(i.term(), tOr(i.t)), et), t: et}
	case *PtrV:
		return e.index(SV{v: e.st.load(v), t: v.T}, ix)
	case *Term:
		if v.S == StrS {
			var t *Term
			if i.c != nil {
				t = BVBig(64, i.c)
			} else {
				t = e.x.idxTerm(i.term(), tOr(i.t))
			}
			return SV{v: StrAt(v, t), t: types.Typ[types.Uint8]}
		}
		if b.t != nil {
			if mt, ok := under(b.t).(*types.Map); ok {
				k := e.coerce(i, mt.Key())
				val, _ := e.rawMapGet(v, mt, mapKeyTerm(k.v, mt.Key()))
				return SV{v: val, t: mt.Elem()}
			}
		}
		if v.S.K == SArr {
			return SV{v: Select(v, i.as(v.S.Key))}
		}
	}
	fail("spec: index of %T", b.v)
	return SV{}
}

func (e *SpecEnv) noWF(t *Term) bool { return t.HasB }

// rawElem reads an element without assuming well-formedness (under binders).
func (e *SpecEnv) rawElem(s *SliceV, i *Term) Value {
	sc := e.st.clone()
	return sc.elemAt(s, i)
}
func (e *SpecEnv) rawMapGet(m *Term, mt *types.Map, k *Term) (Value, *Term) {
	if k.HasB || m.HasB {
		return e.st.clone().mapGet(m, mt, k)
	}
	return e.st.mapGet(m, mt, k)
}

func tOr(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Uint64]
	}
	return t
}

func (e *SpecEnv) coerce(v SV, t types.Type) SV {
	if v.c != nil {
		return SV{v: BVBig(basicSort(under(t).(*types.Basic)).W, v.c), t: t}
	}
	if v.v == nil {
		return SV{v: zeroValue(t), t: t}
	}
	return SV{v: v.v, t: t}
}

func (e *SpecEnv) binary(ex *ast.BinaryExpr) SV {
	if ex.Op == token.LAND || ex.Op == token.LOR {
		a := e.boolExpr(ex.X)
		if ex.Op == token.LAND {
			if a == TFalse {
				return SV{v: TFalse}
			}
			return SV{v: And(a, e.boolExpr(ex.Y))}
		}
		if a == TTrue {
			return SV{v: TTrue}
		}
		return SV{v: Or(a, e.boolExpr(ex.Y))}
	}
	a, b := e.eval(ex.X), e.eval(ex.Y)
	return e.binSV(ex.Op, a, b)
}

func (e *SpecEnv) binSV(op token.Token, a, b SV) SV {
	if a.c != nil && b.c != nil {
		r := new(big.Int)
		switch op {
		case token.ADD:
			return SV{c: r.Add(a.c, b.c)}
		case token.SUB:
			return SV{c: r.Sub(a.c, b.c)}
		case token.MUL:
			return SV{c: r.Mul(a.c, b.c)}
		case token.QUO:
			return SV{c: r.Quo(a.c, b.c)}
		case token.REM:
			return SV{c: r.Rem(a.c, b.c)}
		case token.SHL:
			return SV{c: r.Lsh(a.c, uint(b.c.Uint64()))}
		case token.SHR:
			return SV{c: r.Rsh(a.c, uint(b.c.Uint64()))}
		case token.AND:
			return SV{c: r.And(a.c, b.c)}
		case token.OR:
			return SV{c: r.Or(a.c, b.c)}
		case token.EQL:
			return SV{v: Bool(a.c.Cmp(b.c) == 0)}
		case token.NEQ:
			return SV{v: Bool(a.c.Cmp(b.c) != 0)}
		case token.LSS:
			return SV{v: Bool(a.c.Cmp(b.c) < 0)}
		case token.LEQ:
			return SV{v: Bool(a.c.Cmp(b.c) <= 0)}
		case token.GTR:
			return SV{v: Bool(a.c.Cmp(b.c) > 0)}
		case token.GEQ:
			return SV{v: Bool(a.c.Cmp(b.c) >= 0)}
		}
		fail("spec: constant operator %s", op)
	}
	if op == token.EQL || op == token.NEQ {
		r := e.equal(a, b)
		if op == token.NEQ {
			r = Not(r)
		}
		return SV{v: r}
	}
	t := a.t
	var x, y *Term
	if a.c != nil {
		y = b.term()
		x = a.as(y.S)
		t = b.t
	} else {
		x = a.term()
		if op == token.SHL || op == token.SHR {
			if b.c != nil {
				y = BVBig(x.S.W, b.c)
			} else {
				y = b.term()
				if y.S.W < x.S.W {
					y = Zext(y, x.S.W)
				} else if y.S.W > x.S.W {
					fail("spec: shift count too wide")
				}
			}
		} else {
			y = b.as(x.S)
			if t == nil {
				t = b.t
			}
		}
	}
	sg := a.signed() || (a.c != nil && b.signed()) || (a.t == nil && b.signed())
	if x.S == StrS && op == token.ADD {
		return SV{v: strConcat(x, y), t: t}
	}
	if x.S.K != SBV {
		fail("spec: operator %s on %s", op, x.S)
	}
	switch op {
	case token.ADD:
		return SV{v: Add(x, y), t: t}
	case token.SUB:
		return SV{v: Sub(x, y), t: t}
	case token.MUL:
		return SV{v: Mul(x, y), t: t}
	case token.QUO:
		if sg {
			return SV{v: Sdiv(x, y), t: t}
		}
		return SV{v: Udiv(x, y), t: t}
	case token.REM:
		if sg {
			return SV{v: Srem(x, y), t: t}
		}
		return SV{v: Urem(x, y), t: t}
	case token.AND:
		return SV{v: BAnd(x, y), t: t}
	case token.OR:
		return SV{v: BOr(x, y), t: t}
	case token.XOR:
		return SV{v: BXor(x, y), t: t}
	case token.SHL:
		return SV{v: Shl(x, y), t: t}
	case token.SHR:
		if sg {
			return SV{v: Ashr(x, y), t: t}
		}
		return SV{v: Lshr(x, y), t: t}
	case token.LSS:
		if sg {
			return SV{v: Slt(x, y)}
		}
		return SV{v: Ult(x, y)}
	case token.LEQ:
		if sg {
			return SV{v: Sle(x, y)}
		}
		return SV{v: Ule(x, y)}
	case token.GTR:
		if sg {
			return SV{v: Slt(y, x)}
		}
		return SV{v: Ult(y, x)}
	case token.GEQ:
		if sg {
			return SV{v: Sle(y, x)}
		}
		return SV{v: Ule(y, x)}
	}
	fail("spec: operator %s", op)
	return SV{}
}

func (e *SpecEnv) equal(a, b SV) *Term {
	if a.c != nil {
		a, b = b, a
	}
	if a.v == nil && a.c == nil {
		a, b = b, a
	}
	if b.c == nil && b.v == nil { // nil
		return isNil(a.v)
	}
	if b.c != nil {
		t := a.term()
		return Eq(t, BVBig(t.S.W, b.c))
	}
	x, ok1 := a.v.(*Term)
	y, ok2 := b.v.(*Term)
	if ok1 && ok2 {
		if x.S != y.S {
			fail("spec: comparing %s with %s", x.S, y.S)
		}
		return Eq(x, y)
	}
	t := a.t
	if t == nil {
		t = b.t
	}
	if t == nil {
		fail("spec: equality of untyped values")
	}
	return valueEq(a.v, b.v, t)
}

func isNil(v Value) *Term {
	switch x := v.(type) {
	case *PtrV:
		return ptrNil(x)
	case *SliceV:
		return Eq(x.Ref, Ref(0))
	case *IfaceV:
		return Eq(x.Tag, BV(32, 0))
	case *Term:
		if x.S == RefS {
			return Eq(x, Ref(0))
		}
	case *FuncV:
		return Eq(funcID(x), Ref(0))
	}
	fail("spec: nil comparison of %T", v)
	return nil
}

func specSort(n string) *Sort {
	switch n {
	case "bool":
		return BoolS
	case "str", "string":
		return StrS
	case "bytes":
		return ArrS(U64S, U8S)
	case "ref":
		return RefS
	}
	if strings.HasPrefix(n, "bv") {
		if w, err := strconv.Atoi(n[2:]); err == nil {
			return BVS(w)
		}
	}
	if strings.HasPrefix(n, "arr_") { // arr_bv264_bool
		f := strings.SplitN(n[4:], "_", 2)
		return ArrS(specSort(f[0]), specSort(f[1]))
	}
	fail("spec: sort %s", n)
	return nil
}

// specType: a Go type by name, nil if it is a sort.
func (e *Engine) specType(n string) types.Type {
	if strings.HasPrefix(n, "[]") {
		if t := e.specType(n[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if strings.HasPrefix(n, "*") {
		if t := e.specType(n[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if n == "byte" {
		return types.Typ[types.Uint8]
	}
	if n == "error" {
		return types.Universe.Lookup("error").Type()
	}
	for _, b := range types.Typ {
		if b.Name() == n && b.Kind() != types.Invalid && b.Kind() < types.UnsafePointer {
			return b
		}
	}
	if i := strings.LastIndex(n, "."); i > 0 {
		pp := n[:i]
		if p, ok := e.specs.pkgs[pp]; ok {
			pp = p
		}
		if pk := e.prog.pkgs[pp]; pk != nil {
			if o := pk.Pkg.Scope().Lookup(n[i+1:]); o != nil {
				return o.Type()
			}
		}
		fail("spec: type %s", n)
	}
	return nil
}

func exprName(x ast.Expr) string {
	switch x := x.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return exprName(x.X) + "." + x.Sel.Name
	case *ast.ArrayType:
		return "[]" + exprName(x.Elt)
	case *ast.StarExpr:
		return "*" + exprName(x.X)
	case *ast.ParenExpr:
		return exprName(x.X)
	}
	return ""
}

func (e *SpecEnv) call(ex *ast.CallExpr) SV {
	n := exprName(ex.Fun)
	arg := func(i int) SV { return e.eval(ex.Args[i]) }
	if f, ok := specFuncs[n]; ok {
		return f(e, ex.Args)
	}
	if m, ok := e.x.eng.specs.macros[n]; ok {
		if len(m.Params) != len(ex.Args) {
			fail("spec: %s takes %d arguments", n, len(m.Params))
		}
		vars := make(map[string]SV, len(e.vars)+len(m.Params))
		for k, v := range e.vars {
			vars[k] = v
		}
		for i, p := range m.Params {
			vars[p] = arg(i)
		}
		return e.with(vars).eval(m.Body)
	}
	if lf, ok := e.x.eng.specs.fns[n]; ok {
		if len(lf.Params) != len(ex.Args) {
			fail("spec: %s takes %d arguments", n, len(lf.Params))
		}
		var ts []*Term
		for i := range ex.Args {
			so, _ := e.x.eng.sortOrType(lf.Sorts[i])
			ts = append(ts, arg(i).as(so))
		}
		so, t := e.x.eng.sortOrType(lf.Res)
		return SV{v: App(n, so, ts...), t: t}
	}
	if t := e.x.eng.specType(n); t != nil && len(ex.Args) == 1 {
		return e.convert(arg(0), t)
	}
	fail("spec: unknown function %s", n)
	return SV{}
}

func (e *SpecEnv) convert(v SV, t types.Type) SV {
	if v.c != nil {
		if b, ok := under(t).(*types.Basic); ok {
			return SV{v: BVBig(basicSort(b).W, v.c), t: t}
		}
		fail("spec: constant as %s", t)
	}
	if b, ok := under(t).(*types.Basic); ok && basicSort(b).K == SBV {
		x := v.term()
		if x.S.K == SBV {
			w := basicSort(b).W
			switch {
			case x.S.W >= w:
				return SV{v: Extract(x, w-1, 0), t: t}
			case v.signed():
				return SV{v: Sext(x, w), t: t}
			default:
				return SV{v: Zext(x, w), t: t}
			}
		}
	}
	return SV{v: retype(v.v, t), t: t}
}

// ---- locations

type modLoc struct {
	matches func(name string) bool
	ref     *Term // nil: any
	havoc   func(st *State)
}

func (e *SpecEnv) modifiedLocs(at *State) []modLoc {
	ev := *e
	ev.st = at
	ev.old = at
	var out []modLoc
	for _, m := range e.c.Modifies {
		out = append(out, ev.modLoc(m)...)
	}
	return out
}

func (e *SpecEnv) modLoc(m ast.Expr) []modLoc {
	c, ok := m.(*ast.CallExpr)
	if !ok {
		fail("spec: modifies %T", m)
	}
	switch exprName(c.Fun) {
	case "obj": // obj(p) or obj(p, field)
		v := e.eval(c.Args[0])
		p, ok := v.v.(*PtrV)
		if !ok {
			fail("spec: obj of %T", v.v)
		}
		if p.Elem || len(p.Path) > 0 {
			fail("spec: obj of an interior pointer")
		}
		if _, isArr := under(p.Root).(*types.Array); isArr {
			return e.elemsLoc(p.Ref, under(p.Root).(*types.Array).Elem())
		}
		pre := "o:" + typeKey(p.Root)
		lt := p.Root
		if len(c.Args) == 2 {
			st := under(p.Root).(*types.Struct)
			f := exprName(c.Args[1])
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == f {
					pre += fmt.Sprintf(".%d", i)
					lt = st.Field(i).Type()
				}
			}
		}
		root := p.Root
		ref := p.Ref
		return []modLoc{{matches: func(n string) bool {
			return n == pre || strings.HasPrefix(n, pre) && (n[len(pre)] == '.' || n[len(pre)] == '[')
		}, ref: ref, havoc: func(st *State) {
			for _, l := range leavesOf(root) {
				n, so := objMem(root, l)
				if n == pre || strings.HasPrefix(n, pre) && (n[len(pre)] == '.' || n[len(pre)] == '[') {
					var nv *Term
					if l.ref {
						nv = RefVar(freshName("mod"), 0, st.alloc)
					} else {
						nv = Var(freshName("mod"), l.s)
					}
					// nothing is modified through a nil pointer
					m := st.get(n, so)
					st.set(n, Store(m, ref, Ite(Eq(ref, Ref(0)), Select(m, ref), nv)))
				}
			}
			_ = lt
		}}}
	case "elems":
		v := e.eval(c.Args[0])
		s, ok := v.v.(*SliceV)
		if !ok {
			fail("spec: elems of %T", v.v)
		}
		return e.elemsLoc(s.Ref, s.Elem)
	case "mapof":
		v := e.eval(c.Args[0])
		mt := under(v.t).(*types.Map)
		m := v.v.(*Term)
		pre := mapName(mt) + ":"
		return []modLoc{{matches: func(n string) bool { return strings.HasPrefix(n, pre) }, ref: m, havoc: func(st *State) {
			d, dn := st.mapDom(mt)
			st.set(dn, Store(d, m, Var(freshName("mod"), d.S.Val)))
			ln, lnn := st.mapLen(mt)
			st.set(lnn, Store(ln, m, Var(freshName("mod"), U64S)))
			for _, l := range leavesOf(mt.Elem()) {
				n := mapName(mt) + ":val" + l.path
				so := ArrS(RefS, ArrS(mapKeySort(mt.Key()), l.s))
				nv := Var(freshName("mod"), so.Val)
				if l.ref {
					memBounds.Store(nv.Name, st.alloc)
				}
				st.set(n, Store(st.get(n, so), m, nv))
			}
		}}}
	}
	fail("spec: modifies %s", exprName(c.Fun))
	return nil
}

func (e *SpecEnv) elemsLoc(ref *Term, elem types.Type) []modLoc {
	pre := "e:" + typeKey(elem)
	return []modLoc{{matches: func(n string) bool {
		return n == pre || strings.HasPrefix(n, pre) && (n[len(pre)] == '.' || n[len(pre)] == '[')
	}, ref: ref, havoc: func(st *State) {
		for _, l := range leavesOf(elem) {
			n, so := elemMem(elem, l)
			nv := Var(freshName("mod"), so.Val)
			if l.ref {
				memBounds.Store(nv.Name, st.alloc)
			}
			st.set(n, Store(st.get(n, so), ref, nv))
		}
	}}}
}

// ---- invariants offered at loops

func (x *X) invClauses(fr *Frame, pick func(c *Contract) []Clause) (out []Clause, envs []*Contract) {
	seen := map[*Contract]bool{}
	add := func(c *Contract) {
		if c == nil || seen[c] {
			return
		}
		seen[c] = true
		for _, cl := range pick(c) {
			out = append(out, cl)
			envs = append(envs, c)
		}
	}
	add(x.unit.C)
	for f := fr; f != nil; f = f.parent {
		if x.eng.specs != nil {
			add(x.eng.specs.byFn[funcName(f.fn)])
		}
	}
	return
}

func (x *X) invEnv(p *Path, c *Contract) *SpecEnv {
	env := &SpecEnv{x: x, st: p.st, old: x.entry, vars: map[string]SV{}, c: c, fn: p.fr.fn, path: p}
	if x.spec != nil && c == x.unit.C {
		env.vars = x.spec.vars
		env.old = x.entry
	} else {
		// an inlined function with a contract: its parameters by position
		for f := p.fr; f != nil; f = f.parent {
			if x.eng.specs.byFn[funcName(f.fn)] == c && len(c.Params) == len(f.fn.Params) {
				for i, n := range c.Params {
					if v, ok := f.env[f.fn.Params[i]]; ok {
						env.vars[n] = SV{v: v, t: f.fn.Params[i].Type()}
					}
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, is := r.(EngineErr); !is {
								panic(r)
							}
						}
					}()
					env.evalLets(c.Lets)
				}()
				break
			}
		}
	}
	return env
}

func (x *X) clauseCands(entry *Path, phis []*ssa.Phi, pick func(c *Contract) []Clause, asBool bool) []*Cand {
	var out []*Cand
	cls, cs := x.invClauses(entry.fr, pick)
	for i := range cls {
		cl, c := cls[i], cs[i]
		ev := func(e *SpecEnv) *Term {
			// wf facts learnt while evaluating go to a scratch copy
			sc := *e
			if asBool {
				return sc.boolExpr(cl.Expr)
			}
			v := sc.eval(cl.Expr)
			t := v.term()
			if t.S.W < 64 {
				t = Zext(t, 64)
			}
			return t
		}
		if len(cl.Vars) == 0 {
			out = append(out, &Cand{label: c.Fn + "/" + cl.Label, user: true, f: func(p *Path) *Term { return ev(x.invEnv(p, c)) }})
			continue
		}
		// template over the loop's variables
		opts := make([][]tmplVar, len(cl.Vars))
		for k, v := range cl.Vars {
			opts[k] = x.templateVars(entry, phis, v[1])
		}
		var rec func(k int, chosen []tmplVar)
		rec = func(k int, chosen []tmplVar) {
			if k == len(opts) {
				ch := append([]tmplVar{}, chosen...)
				lab := c.Fn + "/" + cl.Label
				for _, o := range ch {
					lab += ":" + o.label
				}
				out = append(out, &Cand{label: lab, user: true, f: func(p *Path) *Term {
					e := x.invEnv(p, c)
					for i, o := range ch {
						e = e.bind(cl.Vars[i][0], o.get(x, p))
					}
					return ev(e)
				}})
				return
			}
			for _, o := range opts[k] {
				dup := false
				for _, c := range chosen {
					if c.label == o.label {
						dup = true
					}
				}
				if !dup {
					rec(k+1, append(chosen, o))
				}
			}
		}
		rec(0, nil)
	}
	return out
}

type tmplVar struct {
	label string
	name  string
	get   func(x *X, p *Path) SV
}

// templateVars: loop variables (phis and variables in memory) of a type.
// "type=name" prefers the variables of that name, if there are any.
func (x *X) templateVars(entry *Path, phis []*ssa.Phi, typ string) []tmplVar {
	if i := strings.IndexByte(typ, '='); i >= 0 {
		all := x.templateVars(entry, phis, typ[:i])
		var out []tmplVar
		for _, v := range all {
			if v.name == typ[i+1:] {
				out = append(out, v)
			}
		}
		if len(out) > 0 {
			return out
		}
		return all
	}
	var out []tmplVar
	all := false
	if strings.HasPrefix(typ, "any:") {
		all = true
		typ = typ[4:]
	}
	match := func(t types.Type) bool {
		if want := x.eng.specType(typ); want != nil {
			return types.Identical(t, want)
		}
		return typ == "map" && isMap(t) || typ == "slice" && isSlice(t)
	}
	for _, ph := range phis {
		ph := ph
		if match(ph.Type()) {
			out = append(out, tmplVar{"phi:" + ph.Name(), ph.Comment, func(x *X, p *Path) SV { return SV{v: p.fr.env[ph], t: ph.Type()} }})
		}
	}
	depth := 0
	for fr := entry.fr; fr != nil; fr = fr.parent {
		d := depth
		frameAt := func(p *Path) *Frame {
			f := p.fr
			for i := 0; i < d && f != nil; i++ {
				f = f.parent
			}
			return f
		}
		for _, n := range sortedKeys(fr.dbg) {
			v := fr.dbg[n]
			val, ok := fr.env[v]
			if !ok {
				continue
			}
			if strings.HasPrefix(n, "&") {
				p, ok := val.(*PtrV)
				if ok && match(p.T) {
					out = append(out, tmplVar{fmt.Sprintf("mem%d:%s", d, n), strings.TrimPrefix(n, "&"), func(x *X, q *Path) SV {
						pp := frameAt(q).env[v].(*PtrV)
						return SV{v: q.st.load(pp), t: pp.T}
					}})
				}
				continue
			}
			if ph, isPhi := v.(*ssa.Phi); isPhi && d == 0 {
				own := false
				for _, q := range phis {
					own = own || q == ph
				}
				if own {
					continue
				}
			}
			_, isParam := v.(*ssa.Parameter)
			if match(v.Type()) && (all || d > 0 || isMap(v.Type()) || isSlice(v.Type())) && (!isParam || all || d > 0 || isMap(v.Type())) {
				out = append(out, tmplVar{fmt.Sprintf("val%d:%s", d, n), n, func(x *X, q *Path) SV {
					return SV{v: frameAt(q).env[v], t: v.Type()}
				}})
			}
		}
		depth++
		if depth > 4 {
			break
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return out
}
func isMap(t types.Type) bool   { _, ok := under(t).(*types.Map); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }

func (x *X) userCands(entry *Path, L *Loop, phis []*ssa.Phi) []*Cand {
	return x.clauseCands(entry, phis, func(c *Contract) []Clause { return c.Invariants }, true)
}
func (x *X) userMeasures(h *Path, phis []*ssa.Phi) []*Cand {
	return x.clauseCands(h, phis, func(c *Contract) []Clause { return c.Decreases }, false)
}

// sortOrType: a sort by name, or the sort of a Go type with one leaf.
func (e *Engine) sortOrType(n string) (*Sort, types.Type) {
	switch n {
	case "bool":
		return BoolS, types.Typ[types.Bool]
	case "str", "string":
		return StrS, types.Typ[types.String]
	}
	if t := e.specType(n); t != nil {
		ls := leavesOf(t)
		if len(ls) != 1 {
			fail("spec: %s has several parts", n)
		}
		return ls[0].s, t
	}
	return specSort(n), nil
}

// logicAxioms: the defining facts of the contract language's functions, for
// every use of them.
type logicDef struct {
	params []*Term
	bound  []*Term
	res    *Sort
	axioms []*Term
	rec    bool
}

func (e *Engine) installLogic() {
	defs := map[string]*logicDef{}
	x := e.newX(&Unit{Name: "logic", C: &Contract{}})
	for n, lf := range e.specs.fns {
		if len(lf.Axioms) == 0 {
			continue
		}
		d := &logicDef{}
		vars := map[string]SV{}
		for i, p := range lf.Params {
			so, t := e.sortOrType(lf.Sorts[i])
			v := Var("lf!"+n+"!"+p, so)
			d.params = append(d.params, v)
			d.bound = append(d.bound, BVar("lf!"+n+"!"+p, so))
			vars[p] = SV{v: v, t: t}
		}
		so, t := e.sortOrType(lf.Res)
		d.res = so
		vars["result"] = SV{v: App(n, so, d.params...), t: t}
		st := newState()
		env := &SpecEnv{x: x, st: st, old: st, vars: vars, c: &Contract{}}
		for _, a := range lf.Axioms {
			ax := env.boolExpr(a.Expr)
			// an axiom about the function itself applies to ground uses only
			collect([]*Term{ax}, func(t *Term) {
				if t.Op == OApp && t.Name == n && t.HasB {
					d.rec = true
				}
			})
			d.axioms = append(d.axioms, ax)
		}
		defs[n] = d
	}
	axiomHooks = append(axiomHooks, func(ts []*Term) []*Term {
		var out []*Term
		seen := map[*Term]bool{}
		gen := map[string]bool{}
		collect(ts, func(t *Term) {
			if t.Op != OApp || seen[t] {
				return
			}
			seen[t] = true
			d := defs[t.Name]
			if d == nil {
				return
			}
			m := map[*Term]*Term{}
			args := append([]*Term{}, t.Args...)
			var bound []*Term
			if t.HasB && d.rec {
				return
			}
			if t.HasB { // for all values of the arguments that are bound
				key := t.Name
				for i, a := range args {
					if a.HasB {
						args[i] = d.bound[i]
						bound = append(bound, d.bound[i])
					} else {
						key += fmt.Sprintf(",%d", a.ID)
					}
				}
				if gen[key] {
					return
				}
				gen[key] = true
			}
			for i, p := range d.params {
				m[p] = args[i]
			}
			for _, a := range d.axioms {
				f := Subst(a, m)
				if t.HasB {
					f = Forall(bound, [][]*Term{{App(t.Name, d.res, args...)}}, f)
				}
				out = append(out, f)
			}
		})
		return out
	})
}
