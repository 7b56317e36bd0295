package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed value number. Two occurrences of the same term denote
// the same run-time value on the path under analysis.
type Term struct {
	ID   int
	Op   string
	Args []*Term
	S    string
	Obj  any
	T    types.Type
	P    *Poly // for Op "poly"
}

type Poly struct {
	C  int64
	Ms []Mono // sorted by key
}

type Mono struct {
	K     int64
	Atoms []*Term // sorted by ID, product
}

type Interner struct {
	tab  map[string]*Term
	objs map[any]int
	next int
	uniq int
}

func newInterner() *Interner {
	return &Interner{tab: map[string]*Term{}, objs: map[any]int{}}
}

var IN = newInterner()

func objID(o any) int {
	if o == nil {
		return 0
	}
	if id, ok := IN.objs[o]; ok {
		return id
	}
	id := len(IN.objs) + 1
	IN.objs[o] = id
	return id
}

func mk(op, s string, obj any, t types.Type, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	sb.WriteByte('|')
	fmt.Fprintf(&sb, "%d", objID(obj))
	for _, a := range args {
		if a == nil {
			sb.WriteString("|_")
			continue
		}
		fmt.Fprintf(&sb, "|%d", a.ID)
	}
	switch op {
	case "const", "conv", "tassert", "iface", "zero", "struct":
		if t != nil {
			sb.WriteString("|" + typeStr(t))
		}
	}
	k := sb.String()
	if x, ok := IN.tab[k]; ok {
		return x
	}
	IN.next++
	x := &Term{ID: IN.next, Op: op, Args: args, S: s, Obj: obj, T: t}
	IN.tab[k] = x
	return x
}

func uniqS() string {
	IN.uniq++
	return fmt.Sprintf("#%d", IN.uniq)
}

// ---- constants

func mkConst(v constant.Value, t types.Type) *Term {
	if v == nil {
		return zeroOf(t)
	}
	if isInt(t) {
		if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
			return polyTerm(&Poly{C: i}, t)
		}
	}
	x := mk("const", v.ExactString(), nil, basicOf(t))
	x.Obj = v
	return x
}

func basicOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

var nilTerm *Term

func mkNil() *Term {
	if nilTerm == nil {
		nilTerm = mk("nil", "", nil, types.Typ[types.UntypedNil])
	}
	return nilTerm
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0, t)
		case u.Info()&types.IsBoolean != 0:
			return mkBool(false)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Kind() == types.UntypedNil, u.Kind() == types.UnsafePointer:
			return mkNil()
		}
		return mk("zero", "", nil, t)
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return mkNil()
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk("struct", "", u, t, args...)
	}
	return mk("zero", "", nil, t)
}

func mkInt(i int64, t types.Type) *Term {
	if t == nil {
		t = types.Typ[types.Int]
	}
	return polyTerm(&Poly{C: i}, t)
}

var trueT, falseT *Term

func mkBool(b bool) *Term {
	if trueT == nil {
		trueT = mk("const", "true", nil, types.Typ[types.Bool])
		falseT = mk("const", "false", nil, types.Typ[types.Bool])
		trueT.Obj = constant.MakeBool(true)
		falseT.Obj = constant.MakeBool(false)
	}
	if b {
		return trueT
	}
	return falseT
}

func mkStr(s string) *Term {
	x := mk("const", constant.MakeString(s).ExactString(), nil, types.Typ[types.String])
	x.Obj = constant.MakeString(s)
	return x
}

func (t *Term) isBoolConst() (bool, bool) {
	if t == trueT && t != nil {
		return true, true
	}
	if t == falseT && t != nil {
		return false, true
	}
	return false, false
}

func (t *Term) isIntConst() (int64, bool) {
	if t.Op == "poly" && len(t.P.Ms) == 0 {
		return t.P.C, true
	}
	return 0, false
}

func (t *Term) isStrConst() (string, bool) {
	if t.Op == "const" {
		if v, ok := t.Obj.(constant.Value); ok && v.Kind() == constant.String {
			return constant.StringVal(v), true
		}
	}
	return "", false
}

func (t *Term) isConst() bool {
	return t.Op == "const" || t.Op == "nil" || (t.Op == "poly" && len(t.P.Ms) == 0)
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBoolT(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// ---- polynomials over value numbers (integer terms)

func monoKey(as []*Term) string {
	var sb strings.Builder
	for _, a := range as {
		fmt.Fprintf(&sb, "%d.", a.ID)
	}
	return sb.String()
}

func polyOf(t *Term) *Poly {
	if t.Op == "poly" {
		return t.P
	}
	return &Poly{Ms: []Mono{{1, []*Term{t}}}}
}

func polyTerm(p *Poly, t types.Type) *Term {
	if len(p.Ms) == 1 && p.C == 0 && p.Ms[0].K == 1 && len(p.Ms[0].Atoms) == 1 {
		return p.Ms[0].Atoms[0]
	}
	var args []*Term
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", p.C)
	for _, m := range p.Ms {
		fmt.Fprintf(&sb, "+%d*%s", m.K, monoKey(m.Atoms))
		args = append(args, m.Atoms...)
	}
	x := mk("poly", sb.String(), nil, t, args...)
	if x.P == nil {
		x.P = p
	}
	return x
}

func polyAdd(a, b *Poly, kb int64) *Poly {
	m := map[string]*Mono{}
	var keys []string
	put := func(p *Poly, k int64) {
		for _, x := range p.Ms {
			key := monoKey(x.Atoms)
			if e, ok := m[key]; ok {
				e.K += k * x.K
			} else {
				m[key] = &Mono{k * x.K, x.Atoms}
				keys = append(keys, key)
			}
		}
	}
	put(a, 1)
	put(b, kb)
	sort.Strings(keys)
	r := &Poly{C: a.C + kb*b.C}
	for _, k := range keys {
		if m[k].K != 0 {
			r.Ms = append(r.Ms, *m[k])
		}
	}
	return r
}

func polyMul(a, b *Poly) *Poly {
	r := &Poly{}
	terms := func(p *Poly) []Mono {
		out := append([]Mono{}, p.Ms...)
		if p.C != 0 {
			out = append(out, Mono{p.C, nil})
		}
		return out
	}
	for _, x := range terms(a) {
		for _, y := range terms(b) {
			at := append(append([]*Term{}, x.Atoms...), y.Atoms...)
			sort.Slice(at, func(i, j int) bool { return at[i].ID < at[j].ID })
			if len(at) == 0 {
				r = polyAdd(r, &Poly{C: x.K * y.K}, 1)
			} else {
				r = polyAdd(r, &Poly{Ms: []Mono{{x.K * y.K, at}}}, 1)
			}
		}
	}
	return r
}

func mkAdd(a, b *Term, t types.Type) *Term { return polyTerm(polyAdd(polyOf(a), polyOf(b), 1), t) }
func mkSub(a, b *Term, t types.Type) *Term { return polyTerm(polyAdd(polyOf(a), polyOf(b), -1), t) }
func mkMul(a, b *Term, t types.Type) *Term { return polyTerm(polyMul(polyOf(a), polyOf(b)), t) }

// ---- canonical conditions

// Cond is a canonical atomic condition with a polarity.
type Cond struct {
	T   *Term // canonical boolean term
	Neg bool
}

// condLe0: p <= 0
func condLe0(p *Poly) Cond {
	if len(p.Ms) == 0 {
		return Cond{mkBool(p.C <= 0), false}
	}
	// p<=0  <=>  not (1-p <= 0)
	if p.Ms[0].K < 0 {
		q := polyAdd(&Poly{C: 1}, p, -1)
		return Cond{mk("le0", "", nil, types.Typ[types.Bool], polyTerm(q, types.Typ[types.Int])), true}
	}
	return Cond{mk("le0", "", nil, types.Typ[types.Bool], polyTerm(p, types.Typ[types.Int])), false}
}

func condEq0(p *Poly) Cond {
	if len(p.Ms) == 0 {
		return Cond{mkBool(p.C == 0), false}
	}
	if p.Ms[0].K < 0 {
		p = polyAdd(&Poly{}, p, -1)
	}
	return Cond{mk("eq0", "", nil, types.Typ[types.Bool], polyTerm(p, types.Typ[types.Int])), false}
}

func (c Cond) not() Cond {
	if b, ok := c.T.isBoolConst(); ok {
		return Cond{mkBool(!b), c.Neg}
	}
	return Cond{c.T, !c.Neg}
}

func boolTerm(c Cond) *Term {
	if b, ok := c.T.isBoolConst(); ok {
		return mkBool(b != c.Neg)
	}
	if c.Neg {
		return mk("not", "", nil, types.Typ[types.Bool], c.T)
	}
	return c.T
}

// canon turns a boolean term into a canonical condition.
func canon(t *Term) Cond {
	neg := false
	for t.Op == "not" {
		t = t.Args[0]
		neg = !neg
	}
	if b, ok := t.isBoolConst(); ok {
		return Cond{mkBool(b != neg), false}
	}
	return Cond{t, neg}
}

// mkCompare builds a canonical boolean term for x op y.
func mkCompare(op token.Token, x, y *Term, t types.Type) *Term {
	if isInt(t) {
		px, py := polyOf(x), polyOf(y)
		d := polyAdd(px, py, -1)
		// strings.Compare(a,b) OP 0
		if len(d.Ms) == 1 && len(d.Ms[0].Atoms) == 1 && d.Ms[0].Atoms[0].Op == "cmp3" {
			if r := cmp3Compare(op, d); r != nil {
				return r
			}
		}
		switch op {
		case token.LSS: // x-y+1<=0
			return boolTerm(condLe0(polyAdd(d, &Poly{C: 1}, 1)))
		case token.LEQ:
			return boolTerm(condLe0(d))
		case token.GTR: // y-x+1<=0
			return boolTerm(condLe0(polyAdd(&Poly{C: 1}, d, -1)))
		case token.GEQ:
			return boolTerm(condLe0(polyAdd(&Poly{}, d, -1)))
		case token.EQL:
			return boolTerm(condEq0(d))
		case token.NEQ:
			return boolTerm(condEq0(d).not())
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if isBoolT(t) {
			// b == true etc.
			if v, ok := y.isBoolConst(); ok {
				r = x
				if !v {
					r = boolTerm(canon(x).not())
				}
			} else if v, ok := x.isBoolConst(); ok {
				r = y
				if !v {
					r = boolTerm(canon(y).not())
				}
			}
		}
		if r == nil {
			r = mkEq(x, y)
		}
		if op == token.NEQ {
			return boolTerm(canon(r).not())
		}
		return r
	case token.LSS:
		return mkLt(x, y)
	case token.GTR:
		return mkLt(y, x)
	case token.LEQ:
		return boolTerm(canon(mkLt(y, x)).not())
	case token.GEQ:
		return boolTerm(canon(mkLt(x, y)).not())
	}
	return mk("cmp", op.String(), nil, types.Typ[types.Bool], x, y)
}

func cmp3Compare(op token.Token, d *Poly) *Term {
	// sign*c + C op 0 where c = cmp3(a,b) in {-1,0,1}
	c := d.Ms[0].Atoms[0]
	a, b := c.Args[0], c.Args[1]
	k, off := d.Ms[0].K, d.C
	holds := func(v int64) bool {
		x := k*v + off
		switch op {
		case token.LSS:
			return x < 0
		case token.LEQ:
			return x <= 0
		case token.GTR:
			return x > 0
		case token.GEQ:
			return x >= 0
		case token.EQL:
			return x == 0
		case token.NEQ:
			return x != 0
		}
		return false
	}
	l, e, g := holds(-1), holds(0), holds(1)
	lt, gt, eq := mkLt(a, b), mkLt(b, a), mkEq(a, b)
	not := func(t *Term) *Term { return boolTerm(canon(t).not()) }
	switch {
	case l && e && g:
		return mkBool(true)
	case !l && !e && !g:
		return mkBool(false)
	case l && !e && !g:
		return lt
	case !l && e && g:
		return not(lt)
	case !l && !e && g:
		return gt
	case l && e && !g:
		return not(gt)
	case !l && e && !g:
		return eq
	case l && !e && g:
		return not(eq)
	}
	return nil
}

func mkLt(x, y *Term) *Term {
	if x == y {
		return mkBool(false)
	}
	if a, ok := x.isStrConst(); ok {
		if b, ok := y.isStrConst(); ok {
			return mkBool(a < b)
		}
	}
	if b, ok := y.isStrConst(); ok && b == "" {
		return mkBool(false)
	}
	if a, ok := x.isStrConst(); ok && a == "" && isString(y.T) {
		// "" < y  <=>  y != ""
		return boolTerm(canon(mkEq(y, x)).not())
	}
	return mk("lt", "", nil, types.Typ[types.Bool], x, y)
}

func mkEq(x, y *Term) *Term {
	if x == y {
		return mkBool(true)
	}
	if x.isConst() && y.isConst() {
		if x.Op == "nil" || y.Op == "nil" {
			return mkBool(x.Op == y.Op)
		}
		return mkBool(false) // distinct interned constants of one type
	}
	if y.Op == "nil" && nonNil(x) || x.Op == "nil" && nonNil(y) {
		return mkBool(false)
	}
	if x.Op == "iface" && y.Op == "iface" {
		if !types.Identical(x.T, y.T) {
			return mkBool(false)
		}
		return mkEq(x.Args[0], y.Args[0])
	}
	// distinct fresh objects
	if isFresh(x) && isFresh(y) {
		return mkBool(false)
	}
	if x.Op == "conv" && y.Op == "conv" && x.T == y.T && sameArrays(x.Args[0], y.Args[0]) {
		return mkEq(x.Args[0].Args[0], y.Args[0].Args[0])
	}
	if x.ID > y.ID {
		x, y = y, x
	}
	for _, p := range [][2]*Term{{x, y}, {y, x}} {
		if s, ok := p[0].isStrConst(); ok && s == "" {
			return boolTerm(condEq0(polyOf(mkLen(p[1]))))
		}
	}
	return mk("eq", "", nil, types.Typ[types.Bool], x, y)
}

// sameArrays: the content of arrays of the same type.
func sameArrays(x, y *Term) bool {
	return x.Op == "arr" && y.Op == "arr" && x.Args[0].T != nil && y.Args[0].T != nil && types.Identical(x.Args[0].T, y.Args[0].T)
}

func isFresh(t *Term) bool {
	switch t.Op {
	case "alloc", "mkmap", "mkchan":
		return true
	}
	return false
}

// nonNil reports whether the term can never be nil.
func nonNil(t *Term) bool {
	switch t.Op {
	case "alloc", "faddr", "iaddr", "closure", "func", "iface", "mkmap", "mkchan", "mkslice", "global", "struct", "bound":
		return true
	case "list":
		return len(t.Args) > 0
	case "slice":
		return t.Args[0].Op == "alloc" || nonNil(t.Args[0])
	case "concat":
		return nonNil(t.Args[0]) || nonNil(t.Args[1])
	case "init":
		// package-level error sentinels
		if t.Args[0].Op == "global" {
			if g, ok := t.Args[0].Obj.(*ssa.Global); ok {
				return isErrorType(g.Type().(*types.Pointer).Elem())
			}
		}
	case "app", "call":
		if f, ok := t.Obj.(*types.Func); ok && f.Pkg() != nil {
			switch f.Pkg().Path() + "." + f.Name() {
			case "errors.New", "fmt.Errorf", "bytes.NewReader", "bytes.NewBuffer", "crypto/sha1.New", "io.MultiReader", "io.TeeReader",
				"bufio.NewReader", "bufio.NewReaderSize", "context.Background", "bytes.NewBufferString", "strings.NewReader", "io.LimitReader", "io.MultiWriter":
				return true
			}
		}
	case "param":
		return t.S == "recv"
	}
	return false
}

var errorType = types.Universe.Lookup("error").Type()

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, errorType)
}

// ---- struct helpers

func structType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func mkFaddr(base *Term, f *types.Var) *Term {
	f = originField(f)
	return mk("faddr", f.Name(), f, types.NewPointer(f.Type()), base)
}

func mkFval(x *Term, f *types.Var, idx int) *Term {
	if x.Op == "struct" {
		return x.Args[idx]
	}
	if x.Op == "init" {
		// field of a loaded struct: same as loading the field, same version
		return mk("init", x.S, nil, f.Type(), mkFaddr(x.Args[0], f))
	}
	return mk("fval", f.Name(), originField(f), f.Type(), x)
}

func mkIaddr(base, idx *Term, et types.Type) *Term {
	if base.Op == "slice" {
		lo := base.Args[1]
		if lo == nil {
			return mkIaddr(base.Args[0], idx, et)
		}
		return mkIaddr(base.Args[0], mkAdd(lo, idx, types.Typ[types.Int]), et)
	}
	return mk("iaddr", "", nil, types.NewPointer(et), base, idx)
}

func mkLen(x *Term) *Term {
	it := types.Typ[types.Int]
	switch x.Op {
	case "nil":
		return mkInt(0, it)
	case "const":
		if s, ok := x.isStrConst(); ok {
			return mkInt(int64(len(s)), it)
		}
	case "list":
		return mkInt(int64(len(x.Args)), it)
	case "mkslice":
		return x.Args[0]
	case "concat":
		return mkAdd(mkLen(x.Args[0]), mkLen(x.Args[1]), it)
	case "bin":
		if x.S == "+" {
			return mkAdd(mkLen(x.Args[0]), mkLen(x.Args[1]), it)
		}
	case "slice":
		lo, hi := x.Args[1], x.Args[2]
		if hi == nil {
			hi = lenOfSliced(x.Args[0])
		}
		if lo == nil {
			return hi
		}
		return mkSub(hi, lo, it)
	case "conv":
		a := x.Args[0]
		if isString(x.T) && isByteSlice(a.T) || isByteSlice(x.T) && isString(a.T) {
			return mkLen(a)
		}
	case "struct", "zero", "init", "fval":
	}
	if n, ok := arrayLen(x.T); ok {
		return mkInt(n, it)
	}
	return mk("len", "", nil, it, x)
}

func lenOfSliced(x *Term) *Term {
	if x.T != nil {
		if p, ok := x.T.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return mkInt(a.Len(), types.Typ[types.Int])
			}
		}
	}
	return mkLen(x)
}

func arrayLen(t types.Type) (int64, bool) {
	if t == nil {
		return 0, false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func isByteSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func mkConcat(x, y *Term, t types.Type) *Term {
	if x.Op == "nil" {
		if y.Op == "list" || y.Op == "nil" {
			if y.Op == "nil" {
				return x
			}
			return mk("list", "", nil, t, y.Args...)
		}
		return mk("concat", "", nil, t, mk("list", "", nil, t), y)
	}
	if y.Op == "nil" || y.Op == "list" && len(y.Args) == 0 {
		return x
	}
	if x.Op == "list" && y.Op == "list" {
		return mk("list", "", nil, t, append(append([]*Term{}, x.Args...), y.Args...)...)
	}
	if x.Op == "concat" && x.Args[1].Op == "list" && y.Op == "list" {
		return mkConcat(x.Args[0], mk("list", "", nil, t, append(append([]*Term{}, x.Args[1].Args...), y.Args...)...), t)
	}
	return mk("concat", "", nil, t, x, y)
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 12 {
		return "…"
	}
	as := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.S
	case "nil":
		return "nil"
	case "poly":
		var s []string
		for _, m := range t.P.Ms {
			var f []string
			if m.K != 1 {
				f = append(f, fmt.Sprint(m.K))
			}
			for _, a := range m.Atoms {
				f = append(f, a.str(d+1))
			}
			s = append(s, strings.Join(f, "*"))
		}
		if t.P.C != 0 || len(s) == 0 {
			s = append(s, fmt.Sprint(t.P.C))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "param", "free":
		return t.S
	case "global":
		return t.Obj.(*ssa.Global).Name()
	case "alloc":
		return "new" + t.S
	case "faddr":
		return "&" + t.Args[0].str(d+1) + "." + t.S
	case "iaddr":
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case "init":
		v := ""
		if t.S != "" && t.S != "0" {
			v = "'" + t.S
		}
		return strings.TrimPrefix(t.Args[0].str(d+1), "&") + v
	case "fval":
		return t.Args[0].str(d+1) + "." + t.S
	case "le0":
		return t.Args[0].str(d+1) + "<=0"
	case "eq0":
		return t.Args[0].str(d+1) + "==0"
	case "eq":
		return t.Args[0].str(d+1) + "==" + t.Args[1].str(d+1)
	case "lt":
		return t.Args[0].str(d+1) + "<" + t.Args[1].str(d+1)
	case "not":
		return "!" + t.Args[0].str(d+1)
	case "len":
		return "len(" + as() + ")"
	case "slice":
		f := func(x *Term) string {
			if x == nil {
				return ""
			}
			return x.str(d + 1)
		}
		return t.Args[0].str(d+1) + "[" + f(t.Args[1]) + ":" + f(t.Args[2]) + "]"
	case "bin":
		return "(" + t.Args[0].str(d+1) + t.S + t.Args[1].str(d+1) + ")"
	case "iface":
		return t.Args[0].str(d + 1)
	case "conv":
		return types.TypeString(t.T, func(p *types.Package) string { return p.Name() }) + "(" + as() + ")"
	case "app", "call":
		n := "?"
		switch o := t.Obj.(type) {
		case *types.Func:
			n = o.Name()
			if o.Pkg() != nil {
				n = o.Pkg().Name() + "." + n
			}
		case *ssa.Function:
			n = shortName(o)
		}
		if t.Op == "call" {
			return n + t.S
		}
		return n + t.S + "(" + as() + ")"
	case "closure", "func":
		if f, ok := t.Obj.(*ssa.Function); ok {
			return f.Name()
		}
	case "phi":
		return "phi" + t.S
	case "list":
		return "[" + as() + "]"
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	if len(t.Args) > 0 {
		s += "(" + as() + ")"
	}
	return s
}

// contains reports whether x occurs in t.
func (t *Term) contains(x *Term) bool {
	return t.any(func(y *Term) bool { return y == x })
}

func (t *Term) any(f func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t.ID] {
			return false
		}
		seen[t.ID] = true
		if f(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
