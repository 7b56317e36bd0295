package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts is a persistent list of canonical conditions known on a path.
type Facts struct {
	t    *Term
	val  bool
	prev *Facts
	n    int
}

func (f *Facts) add(t *Term, v bool) *Facts {
	n := 0
	if f != nil {
		n = f.n
	}
	return &Facts{t, v, f, n + 1}
}

// Lock is a held mutex.
type Lock struct {
	Addr  *Term
	Write bool
	At    ssa.Instruction
	prev  *Lock
}

func (l *Lock) find(addr *Term) *Lock {
	for ; l != nil; l = l.prev {
		if l.Addr == addr {
			return l
		}
	}
	return nil
}

func (l *Lock) remove(addr *Term, write bool) *Lock {
	if l == nil {
		return nil
	}
	if l.Addr == addr && l.Write == write {
		return l.prev
	}
	return &Lock{l.Addr, l.Write, l.At, l.prev.remove(addr, write)}
}

func (l *Lock) list() []*Lock {
	var r []*Lock
	for ; l != nil; l = l.prev {
		r = append(r, l)
	}
	return r
}

func (l *Lock) String() string {
	var s []string
	for ; l != nil; l = l.prev {
		m := "R:"
		if l.Write {
			m = "W:"
		}
		s = append(s, m+l.Addr.String())
	}
	return "{" + strings.Join(s, ",") + "}"
}

// Event is one observable step of a path.
type Event struct {
	Kind   string // call enter leave store load mapload mapstore mapdelete lock unlock send recv select spawn return panic branch oblig copy close havoc atomic loopback
	In     ssa.Instruction
	Fn     *ssa.Function
	Depth  int
	Stack  *Ctx
	Callee *types.Func
	SFn    *ssa.Function
	Name   string // qualified callee name, or obligation kind
	Args   []*Term
	Raw    []*Term // arguments before slices of known content were replaced by it
	Res    []*Term
	Addr   *Term
	Val    *Term
	Field  *types.Var
	OK     bool // obligation discharged / branch value / blocking select
	Case   int  // chosen select case
	Defer  bool
	Facts  *Facts
	Locks  *Lock
	Thread int
	Tag    string             // set by rules; part of the history
	Gen    map[*ssa.Phi]*Term // rearrive: values in the iteration that ends
	Next   map[*ssa.Phi]*Term // rearrive: values for the next iteration
	Iter   *Term
	Mem    map[*Term]*Term // rearrive: lists in local memory, for the next iteration
	Entry  *Event          // rearrive: the last event before the loop
	prev   *Event
	n      int
}

func (e *Event) pos(p *Program) string {
	if e.In != nil {
		if ps := e.In.Pos(); ps.IsValid() {
			return p.pos(ps)
		}
		for c := e.Stack; c != nil; c = c.parent {
			if c.call != nil && c.call.Pos().IsValid() {
				return p.pos(c.call.Pos())
			}
		}
	}
	if e.Fn != nil {
		return p.pos(e.Fn.Pos())
	}
	return "?"
}

func (e *Event) arg(i int) *Term {
	if i < len(e.Args) {
		return e.Args[i]
	}
	return nil
}

func (e *Event) String() string {
	var as, rs []string
	for _, a := range e.Args {
		as = append(as, a.String())
	}
	for _, a := range e.Res {
		rs = append(rs, a.String())
	}
	s := strings.Repeat(" ", e.Depth) + e.Kind
	if e.Name != "" {
		s += " " + e.Name
	}
	if e.Kind == "branch" || e.Kind == "oblig" {
		s += fmt.Sprintf(" %v", e.OK)
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	if e.Addr != nil {
		s += " @" + e.Addr.String()
	}
	if e.Val != nil {
		s += " = " + e.Val.String()
	}
	if len(rs) > 0 {
		s += " -> " + strings.Join(rs, ", ")
	}
	if e.Defer {
		s += " [defer]"
	}
	return s
}

// Ctx is an interned call string.
type Ctx struct {
	id     int
	parent *Ctx
	fn     *ssa.Function
	call   ssa.Instruction
}

type deferred struct {
	in   *ssa.Defer
	fn   *Term
	args []*Term
	prev *deferred
}

type loopInfo struct {
	aux      string // rule state at the loop's entry
	count    int    // arrivals
	mem      *Mem   // memory at first arrival
	facts    *Facts // facts at first arrival
	locks    *Lock
	ev       *Event
	forked   bool // an exit test of the loop was undecided
	counted  bool // the test in the header was decided
	generic  bool
	mustEnd  bool
	mustBody bool               // generic state: a full iteration comes first
	phis     map[*ssa.Phi]*Term // values at first arrival
	gphis    map[*ssa.Phi]*Term // generic values
	gmem     map[*Term]*Term    // generic values of lists in local memory
	iter     *Term
	cands    []cand
	cells    map[string]cellCand
}

// cellCand: a memory cell assumed to hold the same value in every iteration.
type cellCand struct {
	a, v *Term
	t    types.Type
}

type cand struct {
	key    string
	p      func(get func(*ssa.Phi) *Term) *Poly // p <= 0
	nonNil *ssa.Phi                             // or: its value is never nil
}

type Frame struct {
	fn      *ssa.Function
	ctx     *Ctx
	b, prev *ssa.BasicBlock
	pc      int
	env     map[ssa.Value]*Term
	defers  *deferred
	visits  map[int]int
	loops   map[int]*loopInfo
	call    ssa.Instruction // instruction in the caller (nil for root)
	retTo   int             // 0 value of call, 1 drop (deferred / callback)
	unwind  bool
	deferOf *ssa.Defer
	bar     *barrier
	joins   *joinRef
	pend    map[*ssa.Phi]*Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.visits = make(map[int]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	if len(f.loops) > 0 {
		n.loops = make(map[int]*loopInfo, len(f.loops))
		for k, v := range f.loops {
			c := *v
			n.loops[k] = &c
		}
	}
	return &n
}

// Mem is the abstract store.
type Mem struct {
	cells  map[*Term]*Term
	ver    map[string]int // class -> version
	havoc  map[*Term]int  // root object -> version
	epoch  int
	maps   map[*Term]*mapState
	shared bool
}

type mapState struct {
	known bool // contents exactly cells (fresh map, no unknown key stored)
	keys  []*Term
	ver   int
}

func newMem() *Mem {
	return &Mem{cells: map[*Term]*Term{}, ver: map[string]int{}, havoc: map[*Term]int{}, maps: map[*Term]*mapState{}}
}

func (m *Mem) clone() *Mem {
	n := &Mem{cells: make(map[*Term]*Term, len(m.cells)+4), ver: make(map[string]int, len(m.ver)), havoc: make(map[*Term]int, len(m.havoc)), maps: make(map[*Term]*mapState, len(m.maps)), epoch: m.epoch}
	for k, v := range m.cells {
		n.cells[k] = v
	}
	for k, v := range m.ver {
		n.ver[k] = v
	}
	for k, v := range m.havoc {
		n.havoc[k] = v
	}
	for k, v := range m.maps {
		c := *v
		n.maps[k] = &c
	}
	return n
}

// Imp is an implication contributed by a call model.
type Imp struct {
	t    *Term
	val  bool
	then []Cond
	prev *Imp
}

type State struct {
	w      *Walker
	frames []*Frame
	mem    *Mem
	facts  *Facts
	ev     *Event
	locks  *Lock
	imps   *Imp
	panics bool
	thread int
	steps  int
	start  *Lock  // locks inherited by a callback
	aux    string // state of the rule's automaton
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.mem = s.mem.clone()
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) emit(e *Event) *Event {
	f := s.top()
	e.Fn = f.fn
	e.Depth = len(s.frames)
	e.Stack = f.ctx
	e.Facts = s.facts
	e.Locks = s.locks
	e.Thread = s.thread
	e.prev = s.ev
	if s.ev != nil {
		e.n = s.ev.n + 1
	}
	if f.deferOf != nil {
		e.Defer = true
	}
	if s.w.opt.OnEvent != nil {
		s.w.opt.OnEvent(s, e)
	}
	if s.w.opt.Keep == nil || s.w.opt.Keep(s, e) {
		s.ev = e
	}
	return e
}

func (s *State) key(f *Frame, in ssa.Instruction) string {
	// index of the instruction in its function keeps names stable
	idx := s.w.instrIdx(in)
	k := fmt.Sprintf("%d.%d", f.ctx.id, idx)
	if b := in.Block(); b != nil {
		if v := f.visits[b.Index]; v > 1 {
			k += fmt.Sprintf("~%d", v)
		}
	}
	if s.thread > 0 {
		k += fmt.Sprintf("t%d", s.thread)
	}
	return k
}

// ---- addresses

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case "faddr", "iaddr", "slice", "maddr":
			a = a.Args[0]
		default:
			return a
		}
	}
}

func isLocalRoot(t *Term) bool {
	switch t.Op {
	case "alloc", "mkslice", "mkmap":
		return true
	}
	return false
}

// classOf names the aliasing class of an address.
func classOf(a *Term) string {
	switch a.Op {
	case "faddr":
		return fmt.Sprintf("f%d", objID(a.Obj))
	case "iaddr":
		if a.T != nil {
			return "e" + typeStr(a.T)
		}
		return "e?"
	case "maddr":
		return "m"
	case "global":
		return fmt.Sprintf("g%d", objID(a.Obj))
	}
	if a.T != nil {
		return "p" + typeStr(a.T)
	}
	return "p?"
}

func (s *State) verOf(a *Term) string {
	m := s.mem
	root := rootOf(a)
	if h, ok := m.havoc[root]; ok {
		return fmt.Sprintf("h%d.%d", h, m.ver[classOf(a)])
	}
	if a.Op == "faddr" {
		if v, ok := a.Obj.(*types.Var); ok && s.w.p.immutable[v] {
			return ""
		}
	}
	if v := m.ver[classOf(a)]; v > 0 {
		return fmt.Sprint(v)
	}
	return ""
}

func repoStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil || !inRepoPath(n.Obj().Pkg().Path()) {
			return nil
		}
	}
	return st
}

func (s *State) load(a *Term, t types.Type) *Term {
	if v, ok := s.mem.cells[a]; ok {
		return v
	}
	if st := repoStruct(t); st != nil {
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = s.load(mkFaddr(a, st.Field(i)), st.Field(i).Type())
		}
		return mkStruct(st, t, args)
	}
	// element of a known list
	if a.Op == "iaddr" {
		if v := elemOf(a.Args[0], a.Args[1]); v != nil {
			return v
		}
		// element of an array held as one cell
		if b := a.Args[0]; b.T != nil {
			if _, ok := b.T.Underlying().(*types.Pointer); ok {
				if av, ok := s.mem.cells[b]; ok {
					if v := elemOf(av, a.Args[1]); v != nil {
						return v
					}
					return mk("lookup", "idx", nil, t, av, a.Args[1])
				}
			}
		}
	}
	// an array assembled from element cells
	if at, ok := t.Underlying().(*types.Array); ok && at.Len() <= 64 {
		if root := rootOf(a); isLocalRoot(root) && s.mem.havoc[root] == 0 {
			any := false
			args := make([]*Term, at.Len())
			for i := range args {
				ia := mkIaddr(a, mkInt(int64(i), nil), at.Elem())
				if v, ok := s.mem.cells[ia]; ok {
					any = true
					args[i] = v
				} else {
					args[i] = zeroOf(at.Elem())
				}
			}
			if any {
				return mk("list", "array", nil, t, args...)
			}
		}
	}
	root := rootOf(a)
	if isLocalRoot(root) {
		if _, h := s.mem.havoc[root]; !h && s.mem.ver[classOf(a)] == 0 && s.localZero(a) {
			return zeroOf(t)
		}
	}
	return mk("init", s.verOf(a), nil, t, a)
}

// localZero: no store with an unknown index may have touched this cell.
func (s *State) localZero(a *Term) bool {
	if a.Op != "iaddr" {
		return true
	}
	if _, c := a.Args[1].isIntConst(); !c {
		// unknown index into a partly initialised buffer
		for k := range s.mem.cells {
			if k.Op == "iaddr" && k.Args[0] == a.Args[0] {
				return false
			}
		}
	}
	return true
}

func mkStruct(st *types.Struct, t types.Type, args []*Term) *Term {
	// struct read back field by field from one opaque value is that value
	if len(args) > 0 && args[0].Op == "fval" {
		b := args[0].Args[0]
		same := true
		for i, a := range args {
			if a.Op != "fval" || a.Args[0] != b || a.Obj != any(originField(st.Field(i))) {
				same = false
			}
		}
		if same {
			return b
		}
	}
	return mk("struct", "", st, t, args...)
}

func elemOf(list, idx *Term) *Term {
	i, ok := idx.isIntConst()
	if !ok || i < 0 {
		return nil
	}
	switch list.Op {
	case "list":
		if int(i) < len(list.Args) {
			return list.Args[i]
		}
	case "concat":
		if n, ok := mkLen(list.Args[0]).isIntConst(); ok {
			if i < n {
				return elemOf(list.Args[0], idx)
			}
			return elemOf(list.Args[1], mkInt(i-n, nil))
		}
	case "zero":
		if at, ok := list.T.Underlying().(*types.Array); ok {
			return zeroOf(at.Elem())
		}
	}
	return nil
}

// mayAlias reports whether two addresses of one class can be the same cell.
func (s *State) mayAlias(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op == "faddr" && b.Op == "faddr" {
		if a.Obj != b.Obj {
			return false
		}
		return s.mayAliasObj(a.Args[0], b.Args[0])
	}
	if a.Op == "iaddr" && b.Op == "iaddr" {
		if a.Args[0] == b.Args[0] {
			if v, known := s.query(mkCompare(token.EQL, a.Args[1], b.Args[1], types.Typ[types.Int])); known && !v {
				return false
			}
			return true
		}
		ra, rb := rootOf(a), rootOf(b)
		if isLocalRoot(ra) && ra != rb || isLocalRoot(rb) && ra != rb {
			return false
		}
		return true
	}
	if a.Op != b.Op || a.Op == "alloc" {
		return false
	}
	return true
}

func (s *State) mayAliasObj(x, y *Term) bool {
	if x == y {
		return true
	}
	if x.Op == "iaddr" && y.Op == "iaddr" && x.Args[0] == y.Args[0] {
		i, ok := x.Args[1].isIntConst()
		j, ok2 := y.Args[1].isIntConst()
		return !ok || !ok2 || i == j
	}
	rx, ry := rootOf(x), rootOf(y)
	if isLocalRoot(rx) || isLocalRoot(ry) {
		return rx == ry
	}
	return true
}

func (s *State) store(a, v *Term, t types.Type) {
	if st := repoStruct(t); st != nil {
		for i := 0; i < st.NumFields(); i++ {
			s.store(mkFaddr(a, st.Field(i)), mkFval(v, st.Field(i), i), st.Field(i).Type())
		}
		return
	}
	c := classOf(a)
	killed := false
	for k := range s.mem.cells {
		if k != a && classOf(k) == c && s.mayAlias(k, a) {
			delete(s.mem.cells, k)
			killed = true
		}
	}
	// drop element cells under a re-assigned array
	if _, ok := t.Underlying().(*types.Array); ok {
		for k := range s.mem.cells {
			if k.Op == "iaddr" && k.Args[0] == a {
				delete(s.mem.cells, k)
			}
		}
	}
	if !isLocalRoot(rootOf(a)) || killed {
		s.mem.ver[c]++
	}
	s.mem.cells[a] = v
}

// forgetRoot makes everything reachable inside a local object unknown.
func (s *State) forgetRoot(root *Term) {
	for k := range s.mem.cells {
		if rootOf(k) == root {
			delete(s.mem.cells, k)
		}
	}
	s.mem.epoch++
	s.mem.havoc[root] = s.mem.epoch
}

// forgetUnpreserved makes the object unknown, except for the fields that calls
// preserve.
func (s *State) forgetUnpreserved(root *Term) {
	keep := map[*Term]*Term{}
	if pt, ok := root.T.(*types.Pointer); ok {
		if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); s.w.opt.Preserve[f] {
					keep[mkFaddr(root, f)] = fieldLoad(s, root, f)
				}
			}
		}
	}
	s.forgetRoot(root)
	for a, v := range keep {
		s.mem.cells[a] = v
	}
}

// forgetMutable drops everything another goroutine or an opaque call could
// have changed in non-local memory.
func (s *State) forgetMutable(keep func(a *Term) bool) {
	for k := range s.mem.cells {
		if isLocalRoot(rootOf(k)) || keep != nil && keep(k) {
			continue
		}
		if k.Op == "faddr" {
			if v, ok := k.Obj.(*types.Var); ok && (s.w.p.immutable[v] || s.w.opt.Preserve[v]) {
				continue
			}
		}
		delete(s.mem.cells, k)
	}
	s.mem.epoch++
	for _, c := range s.w.classes() {
		s.mem.ver[c]++
	}
	for k, m := range s.mem.maps {
		if !isLocalRoot(rootOf(k)) {
			m.ver++
			m.known = false
		}
	}
	s.mem.ver["m"]++
}

// ---- maps

func mkMaddr(m, k *Term, et types.Type) *Term {
	return mk("maddr", "", nil, types.NewPointer(et), m, k)
}

var absent = mk("absent", "", nil, nil)

func (s *State) mapState(m *Term) *mapState {
	if ms, ok := s.mem.maps[m]; ok {
		return ms
	}
	ms := &mapState{}
	if m.Op == "mkmap" {
		ms.known = true
	}
	s.mem.maps[m] = ms
	return ms
}

// mapLen is the number of entries of a map before the last changes.
func (s *State) mapLen(m *Term, back int) *Term {
	return mk("len", fmt.Sprintf("%d.%d", s.mapState(m).ver-back, s.mem.ver["m"]), nil, types.Typ[types.Int], m)
}

// mapIn says whether the map has the key now.
func (s *State) mapIn(m, k *Term) *Term {
	return mk("inmap", fmt.Sprintf("%d.%d", s.mapState(m).ver, s.mem.ver["m"]), nil, types.Typ[types.Bool], m, k)
}

// mapOld is the value the map had for the key before the last changes.
func (s *State) mapOld(m, k *Term, back int) *Term {
	var et types.Type
	if mt, ok := m.T.Underlying().(*types.Map); ok {
		et = mt.Elem()
	}
	ver := fmt.Sprintf("%d.%d", s.mapState(m).ver-back, s.mem.ver["m"])
	in := mk("inmap", ver, nil, types.Typ[types.Bool], m, k)
	return mk("mget", "", nil, et, mk("mval", ver, nil, et, m, k), in)
}

// mapGet returns the value and presence term of m[k].
func (s *State) mapGet(m, k *Term, et types.Type) (v, ok *Term) {
	if m.Op == "nil" {
		return zeroOf(et), mkBool(false)
	}
	if tab := s.w.p.constMap(m); tab != nil && k.isConst() {
		for _, e := range tab {
			if b, known := mkEq(mkConst(e.k.Value, e.k.Type()), k).isBoolConst(); known && b {
				return mkConst(e.v.Value, e.v.Type()), mkBool(true)
			}
		}
		return zeroOf(et), mkBool(false)
	}
	a := mkMaddr(m, k, et)
	if c, have := s.mem.cells[a]; have {
		if c == absent {
			return zeroOf(et), mkBool(false)
		}
		return c, mkBool(true)
	}
	ms := s.mapState(m)
	if ms.known {
		all := true
		for _, q := range ms.keys {
			if b, known := mkEq(q, k).isBoolConst(); !known || b {
				all = false
			}
		}
		if all {
			return zeroOf(et), mkBool(false)
		}
	}
	ver := fmt.Sprintf("%d.%d", ms.ver, s.mem.ver["m"])
	ok = mk("inmap", ver, nil, types.Typ[types.Bool], m, k)
	if b, known := s.query(ok); known {
		ok = mkBool(b)
		if !b {
			return zeroOf(et), ok
		}
	}
	return mk("mval", ver, nil, et, m, k), ok
}

// maybeAbsent: the value of a map's key that was not found, or was not looked
// for.
func (s *State) maybeAbsent(x *Term, unknown bool) bool {
	switch x.Op {
	case "mget":
		if v, known := s.query(mkEq(x, mkNil())); known && !v {
			return false
		}
		v, known := s.query(x.Args[1])
		return !known || !v
	case "mval":
		v, known := s.query(mk("inmap", x.S, nil, types.Typ[types.Bool], x.Args[0], x.Args[1]))
		return known && !v || !known && unknown
	}
	return false
}

// maybeFailed: a pointer from a call that returns an error as well, which is not
// known to be nil.
func (s *State) maybeFailed(x *Term) bool {
	if x.Op != "call" && x.Op != "app" {
		return false
	}
	i := strings.LastIndexByte(x.S, '#')
	if i < 0 {
		return false
	}
	var sig *types.Signature
	switch o := x.Obj.(type) {
	case *types.Func:
		sig = o.Type().(*types.Signature)
	case *ssa.Function:
		sig = o.Signature
	}
	if sig == nil {
		return false
	}
	n := sig.Results().Len() - 1
	if n < 1 || !isErrorType(sig.Results().At(n).Type()) || x.S[i+1:] == strconv.Itoa(n) {
		return false
	}
	e := mk(x.Op, x.S[:i+1]+strconv.Itoa(n), x.Obj, sig.Results().At(n).Type(), x.Args...)
	v, known := s.query(mkEq(e, mkNil()))
	return !known || !v
}

func (s *State) mapSet(m, k, v *Term, et types.Type) {
	ms := s.mapState(m)
	for c := range s.mem.cells {
		if c.Op == "maddr" && c.Args[1] != k {
			if c.Args[0] == m {
				if b, known := s.query(mkEq(c.Args[1], k)); known && !b {
					continue
				}
				delete(s.mem.cells, c)
			} else if !isLocalRoot(m) && !isLocalRoot(c.Args[0]) && types.Identical(c.T, types.NewPointer(et)) {
				delete(s.mem.cells, c)
			}
		} else if c.Op == "maddr" && c.Args[0] != m && !isLocalRoot(m) && !isLocalRoot(c.Args[0]) && types.Identical(c.T, types.NewPointer(et)) {
			delete(s.mem.cells, c)
		}
	}
	ms.ver++
	if v != absent {
		found := false
		for _, q := range ms.keys {
			if q == k {
				found = true
			}
		}
		if !found {
			ms.keys = append(append([]*Term{}, ms.keys...), k)
		}
		if !k.isConst() {
			// still exact, but enumeration is not concrete
		}
	}
	s.mem.cells[mkMaddr(m, k, et)] = v
}

// ---- conditions

func (s *State) query(t *Term) (val, known bool) { return queryFacts(s.facts, t) }

// hasType: conditions that hold of no nil interface.
func hasType(t *Term) bool {
	return t.Op == "typeis" || t.Op == "app" && strings.HasPrefix(t.S, "errors.As:")
}

func queryFacts(f *Facts, t *Term) (val, known bool) {
	c := canon(t)
	if b, ok := c.T.isBoolConst(); ok {
		return b != c.Neg, true
	}
	for n := f; n != nil; n = n.prev {
		if n.t == c.T {
			return n.val != c.Neg, true
		}
	}
	switch c.T.Op {
	case "le0":
		p := polyOf(c.T.Args[0])
		if entails(f, p) {
			return !c.Neg, true
		}
		if entails(f, polyAdd(&Poly{C: 1}, p, -1)) {
			return c.Neg, true
		}
	case "eq0":
		p := polyOf(c.T.Args[0])
		if !entails(f, p) {
			if entails(f, polyAdd(&Poly{C: 1}, p, -1)) {
				return c.Neg, true
			}
			n := polyAdd(&Poly{}, p, -1)
			if entails(f, polyAdd(&Poly{C: 1}, n, -1)) {
				return c.Neg, true
			}
			return false, false
		}
		n := polyAdd(&Poly{}, p, -1)
		if entails(f, n) {
			return !c.Neg, true
		}
		if entails(f, polyAdd(&Poly{C: 1}, p, -1)) || entails(f, polyAdd(&Poly{C: 1}, n, -1)) {
			return c.Neg, true
		}
	case "eq":
		x, y := c.T.Args[0], c.T.Args[1]
		// x == c1 known and c1 != y
		for n := f; n != nil; n = n.prev {
			if n.val && hasType(n.t) && (n.t.Args[0] == x && y.Op == "nil" || n.t.Args[0] == y && x.Op == "nil") {
				return c.Neg, true
			}
			if n.t.Op != "eq" || !n.val {
				continue
			}
			for _, pr := range [][2]*Term{{x, y}, {y, x}} {
				var o *Term
				if n.t.Args[0] == pr[0] {
					o = n.t.Args[1]
				} else if n.t.Args[1] == pr[0] {
					o = n.t.Args[0]
				}
				if o != nil {
					if b, ok := canon(mkEq(o, pr[1])).T.isBoolConst(); ok {
						return b != c.Neg, true
					}
				}
			}
		}
	case "app":
		if !hasType(c.T) {
			break
		}
		for n := f; n != nil; n = n.prev {
			if n.t.Op == "eq" && n.val && (n.t.Args[0] == c.T.Args[0] && n.t.Args[1].Op == "nil" || n.t.Args[1] == c.T.Args[0] && n.t.Args[0].Op == "nil") {
				return c.Neg, true
			}
		}
	case "typeis":
		for n := f; n != nil; n = n.prev {
			if n.t.Op == "typeis" && n.val && n.t.Args[0] == c.T.Args[0] {
				a, b := n.t.Obj.(typeBox).T, c.T.Obj.(typeBox).T
				if !types.IsInterface(a) && !types.IsInterface(b) && !types.Identical(a, b) {
					return c.Neg, true
				}
			}
			if n.t.Op == "eq" && n.val && (n.t.Args[0] == c.T.Args[0] && n.t.Args[1].Op == "nil" || n.t.Args[1] == c.T.Args[0] && n.t.Args[0].Op == "nil") {
				return c.Neg, true
			}
		}
	case "lt":
		for n := f; n != nil; n = n.prev {
			if n.val && n.t.Op == "lt" && n.t.Args[0] == c.T.Args[1] && n.t.Args[1] == c.T.Args[0] {
				return c.Neg, true
			}
			if n.val && n.t.Op == "eq" && (n.t.Args[0] == c.T.Args[0] && n.t.Args[1] == c.T.Args[1] || n.t.Args[1] == c.T.Args[0] && n.t.Args[0] == c.T.Args[1]) {
				return c.Neg, true
			}
		}
	}
	return false, false
}

type typeBox struct{ T types.Type }

var typeBoxes = map[string]typeBox{}

func mkTypeIs(x *Term, t types.Type) *Term {
	if x.Op == "iface" {
		if types.IsInterface(t) {
			return mkBool(types.Implements(x.T, t.Underlying().(*types.Interface)))
		}
		return mkBool(types.Identical(x.T, t))
	}
	if x.Op == "nil" {
		return mkBool(false)
	}
	k := t.String()
	b, ok := typeBoxes[k]
	if !ok {
		b = typeBox{t}
		typeBoxes[k] = b
	}
	return mk("typeis", k, b, types.Typ[types.Bool], x)
}

// assume adds a condition; false means the path is infeasible.
func (s *State) assume(t *Term, val bool) bool {
	c := canon(t)
	want := val != c.Neg
	if v, known := s.query(c.T); known {
		return v == want
	}
	s.facts = s.facts.add(c.T, want)
	// consequences contributed by call models
	for i := s.imps; i != nil; i = i.prev {
		if i.t == c.T && i.val == want {
			for _, x := range i.then {
				if !s.assume(boolTerm(x), true) {
					return false
				}
			}
		}
	}
	if want && c.T.Op == "eq" {
		// what is nil has no elements
		x, y := c.T.Args[0], c.T.Args[1]
		if x.Op == "nil" {
			x, y = y, x
		}
		if y.Op == "nil" && x.T != nil {
			if _, ok := x.T.Underlying().(*types.Slice); ok {
				if l := mkLen(x); !isZeroConst(l) {
					e := condLe0(polyOf(l))
					return s.assume(e.T, !e.Neg)
				}
			}
		}
	}
	return true
}

func (s *State) imply(t *Term, val bool, then ...Cond) {
	c := canon(t)
	want := val != c.Neg
	if b, ok := c.T.isBoolConst(); ok {
		if b == want {
			for _, x := range then {
				s.assume(boolTerm(x), true)
			}
		}
		return
	}
	s.imps = &Imp{c.T, want, then, s.imps}
}

func (s *State) fact(c Cond) { s.assume(boolTerm(c), true) }

func sortedTerms(m map[*Term]*Term) []*Term {
	var r []*Term
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].ID < r[j].ID })
	return r
}

var typeStrs = map[types.Type]string{}

func typeStr(t types.Type) string {
	if s, ok := typeStrs[t]; ok {
		return s
	}
	s := t.String()
	typeStrs[t] = s
	return s
}
