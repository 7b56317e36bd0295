package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Walker runs the path-partitioned dataflow over one entry point.
type Walker struct {
	p       *Program
	opt     Opts
	root    *ssa.Function
	rootEnv map[ssa.Value]*Term
	ctxs    map[string]*Ctx
	idx     map[ssa.Instruction]int
	work    []workItem
	uniq    int
	pdoms   map[*ssa.Function][]int
	spawned map[string]bool
	steps   int
	Traces  int
	Err     string // non-empty: undecided
	sink    func(*Trace)
	badCand map[string]bool
	newBad  bool
	loopsOf map[*ssa.Function]map[int]map[int]bool // header -> body blocks
	cls     []string
	regions map[*ssa.BasicBlock]*ssa.BasicBlock
	Stat    map[string]int
}

type Opts struct {
	Opaque    func(fn *ssa.Function) bool
	Pure      func(fn *ssa.Function) bool // not entered; same result for same arguments, no effects
	MaxDepth  int
	MaxSteps  int
	MaxTraces int
	OneIter   bool // loops: only the inductive state (no separate first iteration)
	NoSpawn   bool
	Harmless  func(fn *ssa.Function) bool // opaque functions that do not write through their arguments
	Inert     func(fn *ssa.Function) bool // opaque functions that know nothing of the state that is looked at
	Oblig     bool                        // record obligations
	Preserve  map[*types.Var]bool         // fields that opaque calls leave alone
	Loads     bool                        // record field loads and stores of shared structs
	Assume    func(s *State, fr *Frame)
	OnLoad    func(s *State, a, v *Term) // invariants of what is loaded
	NoRegion  bool
	Merge     bool // join states that agree on memory and kept history
	SplitLit  bool // look at each element of a short local array separately
	ZeroNew   bool // remember that the fields of new objects are zero
	MergeMem  bool // ... and let differing memory become unknown
	Keep      func(s *State, e *Event) bool
	OnEvent   func(s *State, e *Event)
	OnReset   func()
}

// Trace is one abstract history of a root.
type Trace struct {
	W     *Walker
	Root  *ssa.Function
	End   string // return panic loop blocked
	Ret   []*Term
	Ev    []*Event
	Final *State
	Start int // index of the first event of this thread
}

func newWalker(p *Program, opt Opts) *Walker {
	if opt.MaxDepth == 0 {
		opt.MaxDepth = 16
	}
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 6000000
	}
	if opt.MaxTraces == 0 {
		opt.MaxTraces = 120000
	}
	w := &Walker{p: p, opt: opt, ctxs: map[string]*Ctx{}, idx: map[ssa.Instruction]int{}, badCand: map[string]bool{}, loopsOf: map[*ssa.Function]map[int]map[int]bool{}, regions: map[*ssa.BasicBlock]*ssa.BasicBlock{}, Stat: map[string]int{}}
	return w
}

func (w *Walker) instrIdx(in ssa.Instruction) int {
	if i, ok := w.idx[in]; ok {
		return i
	}
	fn := in.Parent()
	n := 0
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			w.idx[x] = n
			n++
		}
	}
	return w.idx[in]
}

func (w *Walker) ctx(parent *Ctx, fn *ssa.Function, call ssa.Instruction, visit int) *Ctx {
	pid := 0
	if parent != nil {
		pid = parent.id
	}
	k := fmt.Sprintf("%d|%p|%p|%d", pid, fn, call, visit)
	if c, ok := w.ctxs[k]; ok {
		return c
	}
	c := &Ctx{id: len(w.ctxs) + 1, parent: parent, fn: fn, call: call}
	w.ctxs[k] = c
	return c
}

func (w *Walker) classes() []string {
	if w.cls != nil {
		return w.cls
	}
	set := map[string]bool{}
	for _, pk := range w.p.Pkgs {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := originField(st.Field(i))
				if w.p.immutable[f] || w.opt.Preserve[f] {
					continue
				}
				set[fmt.Sprintf("f%d", objID(f))] = true
				if sl, ok := f.Type().Underlying().(*types.Slice); ok {
					set["e"+types.NewPointer(sl.Elem()).String()] = true
				}
			}
		}
	}
	for k := range set {
		w.cls = append(w.cls, k)
	}
	return w.cls
}

// Run walks fn with symbolic parameters and feeds every history to sink.
func (w *Walker) Run(fn *ssa.Function, sink func(*Trace)) {
	w.root = fn
	w.sink = sink
	for round := 0; round < 12; round++ {
		w.newBad = false
		var buf []*Trace
		w.sink = func(t *Trace) { buf = append(buf, t) }
		w.runOnce(fn)
		if w.Err != "" {
			return
		}
		if !w.newBad {
			for _, t := range buf {
				sink(t)
			}
			return
		}
	}
	w.Err = "loop invariants of " + shortName(fn) + " did not stabilise"
}

func (w *Walker) runOnce(fn *ssa.Function) {
	w.steps, w.Traces = 0, 0
	w.spawned = map[string]bool{}
	s := &State{w: w, mem: newMem()}
	c := w.ctx(nil, fn, nil, 0)
	f := &Frame{fn: fn, ctx: c, b: fn.Blocks[0], env: map[ssa.Value]*Term{}, visits: map[int]int{0: 1}}
	for i, p := range fn.Params {
		n := p.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			f.env[p] = mk("param", "recv", p, p.Type())
			continue
		}
		f.env[p] = mk("param", n, p, p.Type())
	}
	for _, p := range fn.FreeVars {
		f.env[p] = mk("free", p.Name(), p, p.Type())
	}
	s.frames = []*Frame{f}
	w.rootEnv = f.env
	if w.opt.Assume != nil {
		w.opt.Assume(s, f)
	}
	if w.opt.OnReset != nil {
		w.opt.OnReset()
	}
	w.work = []workItem{{s: s}}
	for len(w.work) > 0 {
		it := w.work[len(w.work)-1]
		w.work = w.work[:len(w.work)-1]
		if it.bar != nil {
			w.flush(it.bar)
			continue
		}
		st := it.s
		for st != nil {
			w.steps++
			st.steps++
			if w.steps > w.opt.MaxSteps {
				w.Err = fmt.Sprintf("%s: analysis budget exceeded (%d steps)", shortName(w.root), w.steps)
				return
			}
			if w.Traces > w.opt.MaxTraces {
				w.Err = fmt.Sprintf("%s: too many abstract histories (%d)", shortName(w.root), w.Traces)
				return
			}
			st = w.step(st)
			if w.Err != "" {
				return
			}
		}
	}
}

func (w *Walker) finish(s *State, end string, ret []*Term) {
	w.Traces++
	var evs []*Event
	for e := s.ev; e != nil; e = e.prev {
		evs = append(evs, e)
	}
	for i, j := 0, len(evs)-1; i < j; i, j = i+1, j-1 {
		evs[i], evs[j] = evs[j], evs[i]
	}
	start := 0
	for i, e := range evs {
		if e.Thread == s.thread {
			start = i
			break
		}
		if i == len(evs)-1 {
			start = len(evs)
		}
	}
	w.sink(&Trace{W: w, Root: w.root, End: end, Ret: ret, Ev: evs, Final: s, Start: start})
}

func (s *State) val(v ssa.Value) *Term {
	f := s.top()
	return s.valIn(f, v)
}

func (s *State) valIn(f *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return zeroOf(v.Type())
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Global:
		return mk("global", "", v, v.Type())
	case *ssa.Function:
		return mk("func", "", v, v.Type())
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil, v.Type())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	// value not computed on this abstract path (skipped region)
	return mk("undef", fmt.Sprintf("%d.%s", f.ctx.id, v.Name()), nil, v.Type())
}

// step executes one instruction; returns the state to continue with.
func (w *Walker) step(s *State) *State {
	f := s.top()
	if s.panics && f.unwind {
		if f.defers != nil {
			d := f.defers
			f.defers = d.prev
			return w.runDeferred(s, d)
		}
		s.frames = s.frames[:len(s.frames)-1]
		if len(s.frames) == 0 {
			s.frames = []*Frame{f}
			w.finish(s, "panic", nil)
			return nil
		}
		s.top().unwind = true
		return s
	}
	in := f.b.Instrs[f.pc]
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// evaluated at block entry
	case *ssa.Alloc:
		t := mk("alloc", s.key(f, in), in, in.Type())
		for k := range s.mem.cells {
			if rootOf(k) == t {
				delete(s.mem.cells, k)
			}
		}
		delete(s.mem.havoc, t)
		f.env[in] = t
		if w.opt.ZeroNew {
			if st := repoStruct(in.Type().Underlying().(*types.Pointer).Elem()); st != nil {
				for i := range st.NumFields() {
					if ft := st.Field(i).Type(); repoStruct(ft) == nil && !w.opt.Preserve[st.Field(i)] {
						s.mem.cells[mkFaddr(t, st.Field(i))] = zeroOf(ft)
					}
				}
			}
		}
	case *ssa.UnOp:
		return w.unop(s, f, in)
	case *ssa.BinOp:
		f.env[in] = w.binop(s, in.Op, s.val(in.X), s.val(in.Y), in.X.Type(), in.Type(), in)
	case *ssa.ChangeType:
		f.env[in] = s.val(in.X)
	case *ssa.ChangeInterface:
		f.env[in] = s.val(in.X)
	case *ssa.Convert:
		f.env[in] = s.convert(s.val(in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.env[in] = s.convert(s.val(in.X), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		if at, ok := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
			d := polySub(polyConst(at.Len()), lenPoly(s.val(in.X)))
			ok := entails(s.facts, d)
			w.oblig(s, in, "slice", ok, s.val(in.X), mkInt(at.Len(), nil))
			if !ok {
				s.fact(condLe0(d))
			}
		}
		f.env[in] = mk("toarr", "", nil, in.Type(), s.val(in.X))
	case *ssa.MakeInterface:
		f.env[in] = mk("iface", "", nil, in.X.Type(), s.val(in.X))
	case *ssa.Extract:
		t := s.val(in.Tuple)
		if t.Op == "tuple" {
			f.env[in] = t.Args[in.Index]
		} else {
			f.env[in] = mk("extract", fmt.Sprint(in.Index), nil, in.Type(), t)
		}
	case *ssa.FieldAddr:
		x := s.val(in.X)
		w.nilCheck(s, in, x, in.X)
		f.env[in] = mkFaddr(x, fieldOf(in))
	case *ssa.Field:
		st := in.X.Type().Underlying().(*types.Struct)
		f.env[in] = mkFval(s.val(in.X), st.Field(in.Field), in.Field)
	case *ssa.IndexAddr:
		x, i := s.val(in.X), s.val(in.Index)
		if w.opt.SplitLit {
			one, split := w.splitIndex(s, x, i)
			if split {
				return nil
			}
			i = one
		}
		w.indexCheck(s, in, x, i, in.X.Type())
		f.env[in] = mkIaddr(x, i, elemType(in.X.Type()))
	case *ssa.Index:
		x, i := s.val(in.X), s.val(in.Index)
		w.indexCheck(s, in, x, i, in.X.Type())
		if e := elemOf(x, i); e != nil {
			f.env[in] = e
		} else {
			f.env[in] = mkStrIdx(x, i, in.Type())
		}
	case *ssa.Lookup:
		x, i := s.val(in.X), s.val(in.Index)
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			w.indexCheck(s, in, x, i, in.X.Type())
			f.env[in] = mkStrIdx(x, i, in.Type())
			break
		}
		v, okT := s.mapGet(x, i, mt.Elem())
		s.emit(&Event{Kind: "mapload", In: in, Addr: x, Args: []*Term{i}, Val: v, Res: []*Term{okT}, Field: w.fieldOfVal(in.X)})
		if in.CommaOk {
			f.env[in] = mk("tuple", "", nil, in.Type(), v, okT)
		} else {
			if b, known := okT.isBoolConst(); !known || b {
				if !known {
					v = mk("mget", "", nil, mt.Elem(), v, okT) // zero when absent
				}
			}
			f.env[in] = v
		}
	case *ssa.Slice:
		w.sliceOp(s, f, in)
	case *ssa.MakeSlice:
		l := s.val(in.Len)
		ok := entails(s.facts, polyAdd(&Poly{}, polyOf(l), -1))
		w.oblig(s, in, "makeslice", ok, l)
		if !ok {
			s.fact(condLe0(polyAdd(&Poly{}, polyOf(l), -1)))
		}
		t := mk("mkslice", s.key(f, in), in, in.Type(), l)
		s.emit(&Event{Kind: "mkslice", In: in, Args: []*Term{l, s.val(in.Cap)}, Res: []*Term{t}})
		f.env[in] = t
	case *ssa.MakeMap:
		t := mk("mkmap", s.key(f, in), in, in.Type())
		s.mem.maps[t] = &mapState{known: true}
		f.env[in] = t
	case *ssa.MakeChan:
		f.env[in] = mk("mkchan", s.key(f, in), in, in.Type(), s.val(in.Size))
		s.emit(&Event{Kind: "mkchan", In: in, Args: []*Term{s.val(in.Size)}, Res: []*Term{f.env[in]}})
	case *ssa.MakeClosure:
		args := []*Term{}
		for _, b := range in.Bindings {
			args = append(args, s.val(b))
		}
		f.env[in] = mk("closure", "", in.Fn, in.Type(), args...)
	case *ssa.TypeAssert:
		return w.typeAssert(s, f, in)
	case *ssa.Store:
		a, v := s.val(in.Addr), s.val(in.Val)
		w.nilCheck(s, in, a, in.Addr)
		s.store(a, v, in.Val.Type())
		w.emitStore(s, in, a, v)
	case *ssa.MapUpdate:
		m, k, v := s.val(in.Map), s.val(in.Key), s.val(in.Value)
		mt := in.Map.Type().Underlying().(*types.Map)
		if m.Op == "nil" || s.maybeAbsent(m, true) {
			w.oblig(s, in, "nilmap", false, m)
		}
		_, had := s.mapGet(m, k, mt.Elem())
		s.mapSet(m, k, v, mt.Elem())
		s.emit(&Event{Kind: "mapstore", In: in, Addr: m, Args: []*Term{k}, Val: v, Res: []*Term{had}, Field: w.fieldOfVal(in.Map)})
	case *ssa.Send:
		s.emit(&Event{Kind: "send", In: in, Addr: s.val(in.Chan), Val: s.val(in.X), Field: w.fieldOfVal(in.Chan)})
	case *ssa.Select:
		return w.selectOp(s, f, in)
	case *ssa.Range:
		f.env[in] = mk("range", s.key(f, in), in, in.Type(), s.val(in.X))
		s.emit(&Event{Kind: "range", In: in, Addr: s.val(in.X), Field: w.fieldOfVal(in.X)})
	case *ssa.Next:
		return w.next(s, f, in)
	case *ssa.If:
		return w.ifOp(s, f, in)
	case *ssa.Jump:
		return w.jump(s, f, f.b.Succs[0])
	case *ssa.Return:
		var rs []*Term
		for _, r := range in.Results {
			rs = append(rs, s.val(r))
		}
		return w.ret(s, f, in, rs)
	case *ssa.Panic:
		s.emit(&Event{Kind: "panic", In: in, Args: []*Term{s.val(in.X)}})
		w.oblig(s, in, "panic", false, s.val(in.X))
		s.panics = true
		f.unwind = true
		return s
	case *ssa.Call:
		return w.call(s, f, in, &in.Call, in)
	case *ssa.Defer:
		fnT, args := w.callOperands(s, &in.Call)
		f.defers = &deferred{in: in, fn: fnT, args: args, prev: f.defers}
		s.emit(&Event{Kind: "defer", In: in, Name: w.calleeName(&in.Call, fnT), Callee: calleeObj(&in.Call), Args: args})
	case *ssa.RunDefers:
		if f.defers != nil {
			d := f.defers
			f.defers = d.prev
			return w.runDeferred(s, d) // pc not advanced: comes back here
		}
	case *ssa.Go:
		fnT, args := w.callOperands(s, &in.Call)
		w.spawn(s, f, in, &in.Call, fnT, args, "go")
	default:
		w.Err = fmt.Sprintf("unhandled instruction %T at %s", in, w.p.pos(in.Pos()))
		return nil
	}
	f.pc++
	return s
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Uint8]
}

func mkStrIdx(x, i *Term, t types.Type) *Term {
	if s, ok := x.isStrConst(); ok {
		if n, ok := i.isIntConst(); ok && n >= 0 && int(n) < len(s) {
			return mkInt(int64(s[n]), t)
		}
	}
	if x.Op == "slice" && x.Args[1] != nil {
		return mkStrIdx(x.Args[0], mkAdd(x.Args[1], i, types.Typ[types.Int]), t)
	}
	if x.Op == "slice" {
		return mkStrIdx(x.Args[0], i, t)
	}
	return mk("lookup", "idx", nil, t, x, i)
}

// fieldOfVal: the struct field a value was loaded from, if visible.
func (w *Walker) fieldOfVal(v ssa.Value) *types.Var {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				return fieldOf(fa)
			}
		}
	case *ssa.ChangeType:
		return w.fieldOfVal(v.X)
	}
	return nil
}

func (w *Walker) emitStore(s *State, in ssa.Instruction, a, v *Term) {
	root := rootOf(a)
	e := &Event{Kind: "store", In: in, Addr: a, Val: v}
	if a.Op == "faddr" {
		e.Field, _ = a.Obj.(*types.Var)
	}
	if root.Op == "alloc" && a == root {
		// plain local variable
		if al, ok := root.Obj.(*ssa.Alloc); ok && !al.Heap {
			return
		}
	}
	s.emit(e)
}

// ---- operators

func (w *Walker) unop(s *State, f *Frame, in *ssa.UnOp) *State {
	x := s.val(in.X)
	switch in.Op {
	case token.MUL:
		w.nilCheck(s, in, x, in.X)
		t := s.load(x, in.Type())
		if w.opt.OnLoad != nil {
			w.opt.OnLoad(s, x, t)
		}
		if w.opt.Loads && x.Op == "faddr" && !isLocalRoot(rootOf(x)) {
			e := &Event{Kind: "load", In: in, Addr: x, Val: t}
			e.Field, _ = x.Obj.(*types.Var)
			s.emit(e)
		} else if w.opt.Loads && x.Op == "global" {
			s.emit(&Event{Kind: "load", In: in, Addr: x, Val: t})
		} else if w.opt.Loads && x.Op == "iaddr" && !isLocalRoot(rootOf(x)) {
			s.emit(&Event{Kind: "load", In: in, Addr: x, Val: t})
		}
		f.env[in] = t
	case token.NOT:
		f.env[in] = boolTerm(canon(x).not())
	case token.SUB:
		if isInt(in.Type()) {
			f.env[in] = mkSub(mkInt(0, in.Type()), x, in.Type())
		} else {
			f.env[in] = mk("neg", "", nil, in.Type(), x)
		}
	case token.XOR:
		f.env[in] = mk("bnot", "", nil, in.Type(), x)
	case token.ARROW:
		key := s.key(f, in)
		var v *Term
		if in.CommaOk {
			tt := in.Type().(*types.Tuple)
			a := mk("recv", key, nil, tt.At(0).Type(), x)
			b := mk("recvok", key, nil, types.Typ[types.Bool], x)
			v = mk("tuple", "", nil, in.Type(), a, b)
			s.emit(&Event{Kind: "recv", In: in, Addr: x, Val: a, Field: w.fieldOfVal(in.X)})
		} else {
			v = mk("recv", key, nil, in.Type(), x)
			s.emit(&Event{Kind: "recv", In: in, Addr: x, Val: v, Field: w.fieldOfVal(in.X)})
		}
		f.env[in] = v
	default:
		f.env[in] = mk("un", in.Op.String(), nil, in.Type(), x)
	}
	f.pc++
	return s
}

func intRange(t types.Type) (lo, hi int64, bounded bool) {
	b, ok := underBasic(t)
	if !ok {
		return 0, 0, false
	}
	n := sizeOf(b)
	if b.Info()&types.IsUnsigned != 0 {
		if n == 64 {
			return 0, -1, true // only the lower bound matters
		}
		return 0, int64(1)<<n - 1, true
	}
	if n == 64 {
		return 0, 0, false
	}
	return -(int64(1) << (n - 1)), int64(1)<<(n-1) - 1, true
}

// inRange: the exact result r of an operation fits type t.
func (s *State) inRange(r *Term, t types.Type) bool {
	lo, hi, bounded := intRange(t)
	if !bounded {
		return true
	}
	p := polyOf(r)
	if !entails(s.facts, polyAdd(&Poly{C: lo}, p, -1)) {
		return false
	}
	if hi == -1 {
		return true
	}
	return entails(s.facts, polyAdd(p, &Poly{C: -hi}, 1))
}

func (w *Walker) binop(s *State, op token.Token, x, y *Term, xt, t types.Type, in ssa.Instruction) *Term {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.EQL || op == token.NEQ {
			// arrays and structs compare by value
			if st := repoStruct(xt); st != nil && x.Op == "struct" && y.Op == "struct" {
				c := mkBool(true)
				for i := range x.Args {
					c = mkAnd2(c, mkCompare(token.EQL, x.Args[i], y.Args[i], st.Field(i).Type()))
				}
				if op == token.NEQ {
					return boolTerm(canon(c).not())
				}
				return c
			}
		}
		return mkCompare(op, x, y, xt)
	}
	if isInt(t) {
		var r *Term
		switch op {
		case token.ADD:
			r = mkAdd(x, y, t)
		case token.SUB:
			r = mkSub(x, y, t)
		case token.MUL:
			r = mkMul(x, y, t)
		case token.QUO, token.REM:
			c, isc := y.isIntConst()
			if !isc {
				v, known := s.query(mkCompare(token.EQL, y, mkInt(0, t), t))
				w.oblig(s, in, "divzero", known && !v, y)
				if !known {
					s.assume(mkCompare(token.EQL, y, mkInt(0, t), t), false)
				}
			}
			if a, ok := x.isIntConst(); ok && isc && c != 0 {
				if op == token.QUO {
					return mkInt(a/c, t)
				}
				return mkInt(a%c, t)
			}
			if isc && c == 1 {
				if op == token.QUO {
					return x
				}
				return mkInt(0, t)
			}
			n := "quo"
			if op == token.REM {
				n = "rem"
			}
			return mk(n, "", nil, t, x, y)
		case token.SHL:
			if c, ok := y.isIntConst(); ok && c >= 0 && c < 62 {
				r = mkMul(x, mkInt(int64(1)<<c, t), t)
				break
			}
			w.shiftCheck(s, in, y, t)
			return mk("shl", "", nil, t, x, y)
		case token.SHR:
			if c, ok := y.isIntConst(); ok && c >= 0 && c < 62 {
				if entails(s.facts, polyAdd(&Poly{}, polyOf(x), -1)) {
					return w.binop(s, token.QUO, x, mkInt(int64(1)<<c, t), xt, t, in)
				}
			}
			w.shiftCheck(s, in, y, t)
			return mk("shr", "", nil, t, x, y)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			a, aok := x.isIntConst()
			b, bok := y.isIntConst()
			if aok && bok {
				switch op {
				case token.AND:
					return mkInt(a&b, t)
				case token.OR:
					return mkInt(a|b, t)
				case token.XOR:
					return mkInt(a^b, t)
				case token.AND_NOT:
					return mkInt(a&^b, t)
				}
			}
			if op == token.AND {
				if aok {
					x, y = y, x
					b, bok = a, true
				}
				// x & (2^k-1) on a non-negative x is x % 2^k
				if bok && b > 0 && (b&(b+1)) == 0 && entails(s.facts, polyAdd(&Poly{}, polyOf(x), -1)) {
					return w.binop(s, token.REM, x, mkInt(b+1, t), xt, t, in)
				}
				if !bok && x.ID > y.ID {
					x, y = y, x
				}
				r := mk("and", "", nil, t, x, y)
				if bok && b > 0 && (b&(b+1)) == 0 && isInt(t) {
					m := w.binop(s, token.REM, x, mkInt(b+1, t), xt, t, in)
					s.imply(boolTerm(condLe0(polyAdd(&Poly{}, polyOf(x), -1))), true, condEq0(polyAdd(polyOf(r), polyOf(m), -1)))
				}
				return r
			}
			if op != token.AND_NOT && x.ID > y.ID {
				x, y = y, x
			}
			return mk("bin", op.String(), nil, t, x, y)
		}
		if r != nil {
			if s.inRange(r, t) {
				return r
			}
			if op == token.ADD || op == token.MUL {
				if x.ID > y.ID {
					x, y = y, x
				}
			}
			return mk("bin", op.String(), nil, t, x, y)
		}
	}
	if isString(t) && op == token.ADD {
		a, aok := x.isStrConst()
		b, bok := y.isStrConst()
		if aok && bok {
			return mkStr(a + b)
		}
		if aok && a == "" {
			return y
		}
		if bok && b == "" {
			return x
		}
		// right-nested normal form
		if x.Op == "bin" && x.S == "+" {
			return mk("bin", "+", nil, t, x.Args[0], w.binop(s, op, x.Args[1], y, xt, t, in))
		}
		return mk("bin", "+", nil, t, x, y)
	}
	return mk("bin", op.String(), nil, t, x, y)
}

func mkAnd2(a, b *Term) *Term {
	if v, ok := a.isBoolConst(); ok {
		if v {
			return b
		}
		return a
	}
	if v, ok := b.isBoolConst(); ok {
		if v {
			return a
		}
		return b
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("andb", "", nil, types.Typ[types.Bool], a, b)
}

func (w *Walker) shiftCheck(s *State, in ssa.Instruction, y *Term, t types.Type) {
	if nonNegAtom(y) {
		return
	}
	ok := entails(s.facts, polyAdd(&Poly{}, polyOf(y), -1))
	w.oblig(s, in, "shift", ok, y)
}

func (s *State) convert(x *Term, from, to types.Type) *Term {
	if isInt(from) && isInt(to) {
		if c, ok := x.isIntConst(); ok {
			lo, hi, b := intRange(to)
			if !b || c >= lo && (hi == -1 || c <= hi) {
				return mkInt(c, to)
			}
		}
		fb, _ := underBasic(from)
		tb, _ := underBasic(to)
		fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
		fs, ts := sizeOf(fb), sizeOf(tb)
		if fu == tu && fs <= ts || fu && !tu && fs < ts {
			return x
		}
		if s.inRange(x, to) {
			if _, _, b := intRange(to); b {
				return x
			}
			// uint64 -> int
			if entails(s.facts, polyAdd(polyOf(x), &Poly{C: -(int64(1)<<62 - 1)}, 1)) {
				return x
			}
		}
		return mk("conv", "", nil, to, x)
	}
	if x.Op == "conv" && x.Args[0].T != nil && types.Identical(x.Args[0].T.Underlying(), to.Underlying()) && !isInt(to) {
		return x.Args[0]
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return x
	}
	if isString(from) && isString(to) {
		return x
	}
	if isString(to) && isByteSlice(from) || isByteSlice(to) && isString(from) {
		if x.Op == "nil" {
			return mkStr("")
		}
		if x.Op == "list" && isString(to) {
			b := []byte{}
			for _, a := range x.Args {
				c, ok := a.isIntConst()
				if !ok {
					b = nil
					break
				}
				b = append(b, byte(c))
			}
			if b != nil && len(b) == len(x.Args) {
				return mkStr(string(b))
			}
		}
		y := x
		if isByteSlice(from) {
			y = s.resolve(x)
		}
		return mk("conv", "", nil, to, y)
	}
	return mk("conv", "", nil, to, x)
}

func (w *Walker) sliceOp(s *State, f *Frame, in *ssa.Slice) {
	x := s.val(in.X)
	var lo, hi *Term
	if in.Low != nil {
		lo = s.val(in.Low)
		if c, ok := lo.isIntConst(); ok && c == 0 {
			lo = nil
		}
	}
	if in.High != nil {
		hi = s.val(in.High)
	}
	L := lenOfSliced(x)
	_, isStr := in.X.Type().Underlying().(*types.Basic)
	limit := L
	if !isStr {
		// up to the capacity; known for arrays and fresh slices only
		if x.Op == "mkslice" {
			limit = L
		}
	}
	zero := mkInt(0, nil)
	l := lo
	if l == nil {
		l = zero
	}
	h := hi
	if h == nil {
		h = L
	}
	if lo != nil || hi != nil {
		ok := entails(s.facts, polyAdd(&Poly{}, polyOf(l), -1)) &&
			entails(s.facts, polyAdd(polyOf(l), polyOf(h), -1)) &&
			entails(s.facts, polyAdd(polyOf(h), polyOf(limit), -1))
		w.oblig(s, in, "slice", ok, x, l, h)
		if !ok {
			s.fact(condLe0(polyAdd(&Poly{}, polyOf(l), -1)))
			s.fact(condLe0(polyAdd(polyOf(l), polyOf(h), -1)))
			if isStr {
				s.fact(condLe0(polyAdd(polyOf(h), polyOf(limit), -1)))
			}
		}
	}
	if hi == L {
		hi = nil
	}
	if lo == nil && hi == nil {
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr {
			f.env[in] = x
			return
		}
	}
	if c, ok := x.isStrConst(); ok {
		if a, ok := l.isIntConst(); ok {
			if b, ok := h.isIntConst(); ok && a >= 0 && a <= b && int(b) <= len(c) {
				f.env[in] = mkStr(c[a:b])
				return
			}
		}
	}
	if x.Op == "list" {
		if a, ok := l.isIntConst(); ok {
			if b, ok := h.isIntConst(); ok && a >= 0 && a <= b && int(b) <= len(x.Args) {
				f.env[in] = mk("list", "", nil, in.Type(), x.Args[a:b]...)
				return
			}
		}
	}
	f.env[in] = mkSlice(x, lo, hi, in.Type())
}

func mkSlice(x, lo, hi *Term, t types.Type) *Term {
	if x.Op == "slice" {
		it := types.Typ[types.Int]
		l1, h1 := x.Args[1], x.Args[2]
		nlo, nhi := lo, hi
		if l1 != nil {
			if lo == nil {
				nlo = l1
			} else {
				nlo = mkAdd(l1, lo, it)
			}
			if hi != nil {
				nhi = mkAdd(l1, hi, it)
			}
		}
		if hi == nil {
			nhi = h1
		}
		return mk("slice", "", nil, t, x.Args[0], nlo, nhi)
	}
	return mk("slice", "", nil, t, x, lo, hi)
}

// resolve turns a slice over known local storage into its content.
func (s *State) resolve(x *Term) *Term {
	if x.Op == "slice" && x.Args[0].Op == "alloc" {
		n, ok := arrayLen(x.Args[0].T)
		if !ok || n > 64 {
			return x
		}
		lo, hi := int64(0), n
		if x.Args[1] != nil {
			if lo, ok = x.Args[1].isIntConst(); !ok {
				return x
			}
		}
		if x.Args[2] != nil {
			if hi, ok = x.Args[2].isIntConst(); !ok {
				return x
			}
		}
		et := elemType(x.Args[0].T)
		if v, ok := s.mem.cells[x.Args[0]]; ok && lo == 0 && hi == n {
			if v.Op == "list" {
				return mk("list", "", nil, x.T, v.Args...)
			}
			return mk("arr", "", nil, x.T, v) // whole array value
		}
		if lo == 0 && hi == n && s.mem.havoc[x.Args[0]] == 0 {
			any := false
			for k := range s.mem.cells {
				if rootOf(k) == x.Args[0] {
					any = true
				}
			}
			if !any {
				return x
			}
		}
		if lo < 0 || hi < lo || hi > n {
			return x
		}
		args := make([]*Term, 0, hi-lo)
		for i := lo; i < hi; i++ {
			args = append(args, s.load(mkIaddr(x.Args[0], mkInt(i, nil), et), et))
		}
		return mk("list", "", nil, x.T, args...)
	}
	if x.Op == "slice" && x.Args[1] == nil && x.Args[2] == nil {
		// arr[:] of an addressable array: the content is the array value
		if x.Args[0].Op == "faddr" {
			if p, ok := x.Args[0].T.Underlying().(*types.Pointer); ok {
				if _, ok := p.Elem().Underlying().(*types.Array); ok {
					return mk("arr", "", nil, x.T, s.load(x.Args[0], p.Elem()))
				}
			}
		}
	}
	return x
}

// ---- obligations

func (w *Walker) oblig(s *State, in ssa.Instruction, kind string, ok bool, args ...*Term) {
	if !w.opt.Oblig {
		return
	}
	s.emit(&Event{Kind: "oblig", Name: kind, In: in, OK: ok, Args: args})
}

func (w *Walker) indexCheck(s *State, in ssa.Instruction, x, i *Term, t types.Type) {
	L := lenOfSliced(x)
	if x.Op == "list" && x.S == "array" {
		L = mkInt(int64(len(x.Args)), nil)
	}
	lo := entails(s.facts, polyAdd(&Poly{}, polyOf(i), -1))
	hi := entails(s.facts, polyAdd(polyAdd(polyOf(i), polyOf(L), -1), &Poly{C: 1}, 1))
	w.oblig(s, in, "index", lo && hi, x, i, L)
	if !lo {
		s.fact(condLe0(polyAdd(&Poly{}, polyOf(i), -1)))
	}
	if !hi {
		s.fact(condLe0(polyAdd(polyAdd(polyOf(i), polyOf(L), -1), &Poly{C: 1}, 1)))
	}
}

// nilCheck records dereferences of values that may be nil.
func (w *Walker) nilCheck(s *State, in ssa.Instruction, x *Term, v ssa.Value) {
	if !w.opt.Oblig || nonNil(x) {
		return
	}
	if x.Op == "nil" {
		w.oblig(s, in, "nilderef", false, x)
		return
	}
	if k, known := s.query(mkEq(x, mkNil())); known {
		w.oblig(s, in, "nilderef", !k, x)
		return
	}
	if s.maybeAbsent(x, false) || s.maybeFailed(x) || x.Op == "phi" && len(x.Args) > 0 && x.Args[0] != nil && x.Args[0].Op == "nil" {
		w.oblig(s, in, "nilderef", false, x)
		s.facts = s.facts.add(canon(mkEq(x, mkNil())).T, false)
		return
	}
	w.oblig(s, in, "maybenil", false, x)
	s.facts = s.facts.add(canon(mkEq(x, mkNil())).T, false)
}

// ---- control

func (w *Walker) ret(s *State, f *Frame, in ssa.Instruction, rs []*Term) *State {
	s.emit(&Event{Kind: "return", In: in, Res: rs, SFn: f.fn})
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		s.frames = []*Frame{f}
		w.finish(s, "return", rs)
		return nil
	}
	g := s.top()
	if f.retTo == 1 {
		// deferred call: continue at RunDefers or unwinding
		if f.bar != nil {
			f.bar.pending = append(f.bar.pending, s)
			return nil
		}
		return s
	}
	if v, ok := f.call.(ssa.Value); ok {
		switch len(rs) {
		case 0:
		case 1:
			g.env[v] = rs[0]
		default:
			g.env[v] = mk("tuple", "", nil, v.Type(), rs...)
		}
	}
	g.pc++
	if f.bar != nil {
		f.bar.pending = append(f.bar.pending, s)
		f.bar.rets = append(f.bar.rets, rs)
		return nil
	}
	return s
}

func (w *Walker) runDeferred(s *State, d *deferred) *State {
	f := s.top()
	return w.invoke(s, f, d.in, &d.in.Call, d.fn, d.args, d.in)
}

func (w *Walker) ifOp(s *State, f *Frame, in *ssa.If) *State {
	c := s.val(in.Cond)
	tb, fb := f.b.Succs[0], f.b.Succs[1]
	v, known := s.query(c)
	// undecided loop tests make the loop inductive instead of unrolled
	for h, body := range w.loops(f.fn) {
		li := f.loops[h]
		if li == nil || !body[f.b.Index] {
			continue
		}
		exits := body[tb.Index] != body[fb.Index]
		if f.b.Index == h && exits {
			li.counted = known
		}
		if exits && !known && !li.counted && w.isLoopTest(f.fn, f.b, body, h) {
			li.forked = true
		}
	}
	if known {
		s.emit(&Event{Kind: "branch", In: in, Args: []*Term{c}, OK: v})
		if v {
			return w.jump(s, f, tb)
		}
		return w.jump(s, f, fb)
	}
	if !w.opt.NoRegion {
		if j := w.pureRegion(f.fn, f.b); j != nil && !w.isHeader(f.fn, j) {
			return w.jumpRegion(s, f, j)
		}
	}
	w.joinBarrier(s, f)
	o := s.clone()
	if o.assume(c, false) {
		of := o.top()
		o.emit(&Event{Kind: "branch", In: in, Args: []*Term{c}, OK: false})
		if r := w.jump(o, of, fb); r != nil {
			w.push(r)
		}
	}
	if !s.assume(c, true) {
		return nil
	}
	s.emit(&Event{Kind: "branch", In: in, Args: []*Term{c}, OK: true})
	return w.jump(s, f, tb)
}

func (w *Walker) isHeader(fn *ssa.Function, b *ssa.BasicBlock) bool {
	_, ok := w.loops(fn)[b.Index]
	return ok
}

func (w *Walker) loops(fn *ssa.Function) map[int]map[int]bool {
	if l, ok := w.loopsOf[fn]; ok {
		return l
	}
	l := map[int]map[int]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := l[h.Index]
			if body == nil {
				body = map[int]bool{h.Index: true}
				l[h.Index] = body
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if body[x.Index] {
					continue
				}
				body[x.Index] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	w.loopsOf[fn] = l
	return l
}

// jump moves the frame to block b, evaluating phis and handling loop heads.
func (w *Walker) jump(s *State, f *Frame, b *ssa.BasicBlock) *State {
	from := f.b
	loops := w.loops(f.fn)
	// leaving loops: forget their bookkeeping
	for h, body := range loops {
		if li := f.loops[h]; li != nil && !body[b.Index] {
			if li.mustBody && from.Index == h {
				return nil // covered by the states that leave after an iteration
			}
			if w.opt.OneIter && w.testedLast(f.fn, h, body) == from {
				// the iteration is complete, although the header is not seen again
				hb := f.fn.Blocks[h]
				next := map[*ssa.Phi]*Term{}
				for i, p := range hb.Preds {
					if p != from {
						continue
					}
					for _, in := range hb.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						next[ph] = s.valIn(f, ph.Edges[i])
					}
				}
				s.emit(&Event{Kind: "rearrive", In: hb.Instrs[0], Name: li.aux, Gen: li.gphis, Next: next, Iter: li.iter, Mem: memNext(s, li), Entry: li.ev})
			}
			delete(f.loops, h)
		}
	}
	vals := map[*ssa.Phi]*Term{}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 {
			vals[ph] = s.valIn(f, ph.Edges[pi])
		}
	}
	if f.joins != nil && f.joins.to == b {
		f.pend = vals
		bar := f.joins.bar
		f.joins = f.joins.prev
		bar.pending = append(bar.pending, s)
		return nil
	}
	return w.arrive(s, f, b, vals)
}

// arrive continues a jump after joins.
func (w *Walker) arrive(s *State, f *Frame, b *ssa.BasicBlock, vals map[*ssa.Phi]*Term) *State {
	from := f.b
	loops := w.loops(f.fn)
	body, isHead := loops[b.Index]
	if isHead {
		if f.loops == nil {
			f.loops = map[int]*loopInfo{}
		}
		li := f.loops[b.Index]
		if li == nil || !body[from.Index] {
			li = &loopInfo{mem: s.mem.clone(), facts: s.facts, locks: s.locks, ev: s.ev, phis: maps.Clone(vals)}
			li.aux = s.aux
			f.loops[b.Index] = li
		} else {
			s.emit(&Event{Kind: "rearrive", In: b.Instrs[0], Name: li.aux, Gen: li.gphis, Next: maps.Clone(vals), Iter: li.iter, Mem: memNext(s, li), Entry: li.ev})
		}
		li.count++
		switch {
		case li.count == 1 && !w.opt.OneIter:
			// concrete first arrival
		case li.count > 1 && !li.generic && !li.forked && li.count < 300 && w.headExits(f.fn, b.Index, body):
			// every exit test so far was decided: unroll
			li.mem, li.facts = s.mem.clone(), s.facts
			li.phis = maps.Clone(vals)
		case !li.generic:
			if li.count > 1 {
				w.checkLoopLocks(s, f, b, li)
				// the loop ends after exactly this iteration
				o := s.clone()
				of := o.top()
				of.loops[b.Index].generic = true
				of.loops[b.Index].mustEnd = true
				ov := map[*ssa.Phi]*Term{}
				for k, v := range vals {
					ov[k] = v
				}
				if r := w.enter(o, of, b, ov, loops); r != nil {
					w.push(r)
				}
				li.mustBody = true
			}
			if !w.makeGeneric(s, f, b, body, li, vals) {
				return nil
			}
		case !li.mustEnd:
			w.checkLoopLocks(s, f, b, li)
			w.checkCands(s, f, b, li, vals)
			if w.opt.OneIter && w.testedLast(f.fn, b.Index, body) != nil {
				// how the loop ends was seen
				w.finish(s, "loop", nil)
				return nil
			}
			li.mustEnd = true
			li.mustBody = false
			// the state after any number of further iterations
			if !w.regeneric(s, f, b, body, li, vals) {
				return nil
			}
		default:
			s.emit(&Event{Kind: "loopback", In: b.Instrs[0]})
			w.finish(s, "loop", nil)
			return nil
		}
	}
	return w.enter(s, f, b, vals, loops)
}

// isLoopTest: blk is (part of) the loop's own test, evaluated before the body.
func (w *Walker) isLoopTest(fn *ssa.Function, blk *ssa.BasicBlock, body map[int]bool, h int) bool {
	for n := 0; n < 4; n++ {
		if blk.Index == h {
			return true
		}
		if len(blk.Preds) != 1 || !body[blk.Preds[0].Index] || !w.canExitDirectly(fn, blk, body, h) {
			return false
		}
		blk = blk.Preds[0]
	}
	return false
}

// testedLast: the block at the end of the body which decides whether the loop
// goes on, if the header does not.
func (w *Walker) testedLast(fn *ssa.Function, h int, body map[int]bool) *ssa.BasicBlock {
	var latch *ssa.BasicBlock
	for _, p := range fn.Blocks[h].Preds {
		if !body[p.Index] {
			continue
		}
		if latch != nil {
			return nil
		}
		latch = p
	}
	if latch == nil || latch.Index != h && w.headExits(fn, h, body) || !w.headExits(fn, latch.Index, body) {
		return nil
	}
	if _, ok := latch.Instrs[len(latch.Instrs)-1].(*ssa.If); !ok {
		return nil
	}
	return latch
}

func (w *Walker) headExits(fn *ssa.Function, h int, body map[int]bool) bool {
	for _, x := range fn.Blocks[h].Succs {
		if !body[x.Index] {
			return true
		}
	}
	return false
}

// enter places the frame at the start of block b.
func (w *Walker) enter(s *State, f *Frame, b *ssa.BasicBlock, vals map[*ssa.Phi]*Term, loops map[int]map[int]bool) *State {
	f.prev = f.b
	f.b = b
	f.pc = 0
	if f.visits == nil {
		f.visits = map[int]int{}
	}
	f.visits[b.Index]++
	for ph, v := range vals {
		f.env[ph] = v
	}
	// past the last generic arrival only the exits of the loop are followed
	for h, body := range loops {
		li := f.loops[h]
		if li != nil && li.mustEnd && h != b.Index && body[b.Index] {
			if w.canExitDirectly(f.fn, b, body, h) {
				continue
			}
			s.emit(&Event{Kind: "loopback", In: b.Instrs[0]})
			w.finish(s, "loop", nil)
			return nil
		}
	}
	return s
}

// canExitDirectly: b belongs to the loop's test (short-circuit conditions)
// rather than its body: it only computes pure values and branches.
func (w *Walker) canExitDirectly(fn *ssa.Function, b *ssa.BasicBlock, body map[int]bool, h int) bool {
	exits := false
	for _, x := range b.Succs {
		if !body[x.Index] {
			exits = true
		}
	}
	if !exits {
		return false
	}
	for _, in := range b.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.If, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Next, *ssa.Field:
		case *ssa.Call:
			if !w.headExits(fn, h, body) {
				break
			}
			// a condition leaves the loop for the same place as the header
			for _, x := range b.Succs {
				if !body[x.Index] && !slices.Contains(fn.Blocks[h].Succs, x) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (w *Walker) checkLoopLocks(s *State, f *Frame, b *ssa.BasicBlock, li *loopInfo) {
	if s.locks.String() != li.locks.String() {
		s.emit(&Event{Kind: "oblig", Name: "looplocks", In: b.Instrs[0], OK: false})
	}
	s.emit(&Event{Kind: "loopback", In: b.Instrs[0]})
}

// stepOf: back-edge values of ph are ph + constant.
func (w *Walker) stepOf(ph *ssa.Phi, body map[int]bool) (int64, bool) {
	step := int64(0)
	have := false
	for i, p := range ph.Block().Preds {
		if !body[p.Index] {
			continue
		}
		d, ok := deltaOf(ph.Edges[i], ph, 0)
		if !ok || have && d != step {
			return 0, false
		}
		step, have = d, true
	}
	return step, have
}

func deltaOf(v ssa.Value, ph *ssa.Phi, depth int) (int64, bool) {
	if v == ph {
		return 0, true
	}
	if depth > 6 {
		return 0, false
	}
	if b, ok := v.(*ssa.BinOp); ok {
		c, cok := b.Y.(*ssa.Const)
		if cok && isInt(c.Type()) && (b.Op == token.ADD || b.Op == token.SUB) {
			d, ok := deltaOf(b.X, ph, depth+1)
			if !ok {
				return 0, false
			}
			k := c.Int64()
			if b.Op == token.SUB {
				k = -k
			}
			return d + k, true
		}
		if c, cok := b.X.(*ssa.Const); cok && isInt(c.Type()) && b.Op == token.ADD {
			d, ok := deltaOf(b.Y, ph, depth+1)
			return d + c.Int64(), ok
		}
	}
	if p, ok := v.(*ssa.Phi); ok && p != ph {
		var d int64
		for i, e := range p.Edges {
			x, ok := deltaOf(e, ph, depth+1)
			if !ok || i > 0 && x != d {
				return 0, false
			}
			d = x
		}
		return d, len(p.Edges) > 0
	}
	return 0, false
}

func (w *Walker) makeGeneric(s *State, f *Frame, b *ssa.BasicBlock, body map[int]bool, li *loopInfo, vals map[*ssa.Phi]*Term) bool {
	key := fmt.Sprintf("%d.%d", f.ctx.id, w.instrIdx(b.Instrs[0]))
	// enclosing iteration
	if v := f.visits[b.Index]; v > 2 {
		key += fmt.Sprintf("~%d", v)
	}
	first := li.count == 1
	li.generic = true
	li.iter = mk("iter", key, b.Instrs[0], types.Typ[types.Int])
	pre := maps.Clone(li.mem.cells)
	// lists that are still empty
	for _, blk := range f.fn.Blocks {
		if !body[blk.Index] {
			continue
		}
		for _, in := range blk.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			if _, ok := st.Val.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			var a *Term
			whole := false
			switch x := st.Addr.(type) {
			case *ssa.FieldAddr:
				if base := f.env[x.X]; base != nil && isLocalRoot(base) {
					a = mkFaddr(base, fieldOf(x))
				}
			case *ssa.Alloc:
				a, whole = f.env[x], true
			}
			if a != nil && pre[a] == nil {
				if v := s.load(a, st.Val.Type()); whole || v.Op == "nil" || v.Op == "zero" {
					pre[a] = v
				}
			}
		}
	}
	w.havocLoop(s, f, b, body, li, first)
	li.cells = map[string]cellCand{}
	for a, v := range pre {
		fv, ok := a.Obj.(*types.Var)
		if a.Op != "faddr" || !ok || !w.opt.Preserve[fv] || s.mem.cells[a] != nil {
			continue
		}
		k := key + "|cell|" + strconv.Itoa(a.ID)
		if w.badCand[k] {
			continue
		}
		s.mem.cells[a] = v
		li.cells[k] = cellCand{a, v, fv.Type()}
	}
	li.gmem = nil
	for a, v := range pre {
		if s.mem.cells[a] != nil || a.T == nil || !isLocalRoot(rootOf(a)) {
			continue
		}
		pt, ok := a.T.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if _, ok := pt.Elem().Underlying().(*types.Slice); !ok || a.Op != "faddr" && a.Op != "alloc" {
			continue
		}
		if k, ok := cellCut(f, a, body, b); ok && k > 0 {
			s.mem.cells[a] = cutBy(s, v, k, li.iter, pt.Elem())
			continue
		}
		g := mk("mphi", key+"."+strconv.Itoa(a.ID), nil, pt.Elem(), v, a)
		s.mem.cells[a] = g
		if li.gmem == nil {
			li.gmem = map[*Term]*Term{}
		}
		li.gmem[a] = g
	}
	if !first {
		if w.opt.Merge {
			s.facts = li.facts
		}
		// at least one iteration has passed
		s.fact(condLe0(polyAdd(&Poly{C: 1}, polyOf(li.iter), -1)))
	}
	li.gphis = map[*ssa.Phi]*Term{}
	for ph := range vals {
		base := li.phis[ph]
		if base == nil {
			base = vals[ph]
		}
		if isInt(ph.Type()) {
			if st, ok := w.stepOf(ph, body); ok {
				if _, _, bounded := intRange(ph.Type()); !bounded {
					vals[ph] = mkAdd(base, mkMul(mkInt(st, nil), li.iter, ph.Type()), ph.Type())
					li.gphis[ph] = vals[ph]
					continue
				}
			}
		}
		if k, ok := cutOf(ph, body); ok && k > 0 {
			vals[ph] = cutBy(s, base, k, li.iter, ph.Type())
			li.gphis[ph] = vals[ph]
			continue
		}
		if w.invariantPhi(ph, body) {
			vals[ph] = base
			li.gphis[ph] = base
			continue
		}
		vals[ph] = mk("phi", key+"."+ph.Name(), ph, ph.Type(), base)
		li.gphis[ph] = vals[ph]
	}
	w.assumeCands(s, f, b, body, li, key)
	return true
}

// cutOf: every iteration takes the same number of elements from the front of
// the list or string, and does nothing else to it.
func cutOf(ph *ssa.Phi, body map[int]bool) (int64, bool) {
	k := int64(0)
	for i, p := range ph.Block().Preds {
		if !body[p.Index] {
			continue
		}
		d, ok := cutDelta(ph.Edges[i], func(v ssa.Value) bool { return v == ph })
		if !ok || k != 0 && d != k {
			return 0, false
		}
		k = d
	}
	return k, true
}

func cutDelta(v ssa.Value, from func(ssa.Value) bool) (int64, bool) {
	k := int64(0)
	for depth := 0; depth < 6; depth++ {
		if from(v) {
			return k, true
		}
		sl, ok := v.(*ssa.Slice)
		if !ok || sl.High != nil || sl.Max != nil {
			return 0, false
		}
		if _, isPtr := sl.X.Type().Underlying().(*types.Pointer); isPtr {
			return 0, false
		}
		if sl.Low != nil {
			c, ok := sl.Low.(*ssa.Const)
			if !ok || c.Int64() < 0 {
				return 0, false
			}
			k += c.Int64()
		}
		v = sl.X
	}
	return 0, false
}

// cellCut: the same for a local variable that lives in memory. It is written
// once, on every way around the loop, and is not handed to anyone in it.
func cellCut(f *Frame, a *Term, body map[int]bool, h *ssa.BasicBlock) (int64, bool) {
	var al *ssa.Alloc
	for _, blk := range f.fn.Blocks {
		for _, in := range blk.Instrs {
			if x, ok := in.(*ssa.Alloc); ok && f.env[x] == a && !body[blk.Index] {
				al = x
			}
		}
	}
	if al == nil || al.Referrers() == nil {
		return 0, false
	}
	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == al && body[u.Block().Index]
	}
	var st *ssa.Store
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == al {
				return 0, false
			}
			if !body[r.Block().Index] {
				continue
			}
			if r.Addr != al || st != nil {
				return 0, false
			}
			st = r
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return 0, false
			}
		case *ssa.MakeInterface:
			// handed to a call before the loop
			if body[r.Block().Index] {
				return 0, false
			}
		case *ssa.Call:
			if body[r.Block().Index] {
				return 0, false
			}
		default:
			return 0, false
		}
	}
	if st == nil {
		return 0, false
	}
	for _, p := range h.Preds {
		if body[p.Index] && !st.Block().Dominates(p) {
			return 0, false
		}
	}
	// no inner loop may repeat it
	for _, x := range f.fn.Blocks {
		if body[x.Index] && x != h && st.Block().Dominates(x) {
			for _, y := range x.Succs {
				if y != h && body[y.Index] && y.Dominates(st.Block()) {
					return 0, false
				}
			}
		}
	}
	return cutDelta(st.Val, isLoad)
}

// cutBy: base without the k elements each of n iterations has taken. The
// slicing in those iterations succeeded, so that many there were.
func cutBy(s *State, base *Term, k int64, n *Term, t types.Type) *Term {
	it := types.Typ[types.Int]
	lo := mkMul(mkInt(k, nil), n, it)
	s.fact(condLe0(polyAdd(polyOf(lo), polyOf(lenOfSliced(base)), -1)))
	return mkSlice(base, lo, nil, t)
}

// memNext: loop-carried lists in memory, before and after the iteration.
func memNext(s *State, li *loopInfo) map[*Term]*Term {
	if li.gmem == nil {
		return nil
	}
	m := map[*Term]*Term{}
	for a, g := range li.gmem {
		if v := s.mem.cells[a]; v != nil {
			m[g] = v
		} else {
			m[g] = mk("lost", "", nil, nil)
		}
	}
	return m
}

func (w *Walker) invariantPhi(ph *ssa.Phi, body map[int]bool) bool {
	for i, p := range ph.Block().Preds {
		if body[p.Index] && ph.Edges[i] != ph {
			return false
		}
	}
	return true
}

// regeneric: state at the header after a generic iteration, widened again.
func (w *Walker) regeneric(s *State, f *Frame, b *ssa.BasicBlock, body map[int]bool, li *loopInfo, vals map[*ssa.Phi]*Term) bool {
	it := mkAdd(li.iter, mkInt(1, nil), nil)
	_ = it
	return true
}

func (w *Walker) havocLoop(s *State, f *Frame, b *ssa.BasicBlock, body map[int]bool, li *loopInfo, first bool) {
	if first {
		// no iteration seen yet: collect what the body may write syntactically
		for _, blk := range f.fn.Blocks {
			if !body[blk.Index] {
				continue
			}
			for _, in := range blk.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if al, ok := in.Addr.(*ssa.Alloc); ok {
						if t, ok := f.env[al]; ok {
							s.forgetRoot(t)
						}
					} else if fv, ok := in.Addr.(*ssa.FreeVar); ok {
						if t, ok := f.env[fv]; ok {
							s.forgetRoot(rootOf(t))
						}
					} else {
						s.forgetAddrClass(in.Addr, f)
					}
				case *ssa.MapUpdate:
					if t, ok := f.env[in.Map]; ok {
						s.forgetMap(t)
					} else {
						s.forgetMutable(nil)
						for m := range s.mem.maps {
							if m.T == nil || types.Identical(m.T.Underlying(), in.Map.Type().Underlying()) {
								s.forgetMap(m)
							}
						}
					}
				case ssa.CallInstruction:
					// closures that write captured variables, and everything else
					for _, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if mc, ok := (*op).(*ssa.MakeClosure); ok {
							for _, bd := range mc.Bindings {
								if t, ok := f.env[bd]; ok && isLocalRoot(rootOf(t)) && writesFree(mc.Fn.(*ssa.Function)) {
									s.forgetRoot(rootOf(t))
								}
							}
						}
						if t, ok := f.env[*op]; ok && isLocalRoot(rootOf(t)) && !isLocalStringList(t) {
							if _, isC := in.Common().Value.(*ssa.Builtin); !isC {
								s.forgetUnpreserved(rootOf(t))
							}
						}
					}
					if callee := in.Common().StaticCallee(); callee != nil && w.p.isRepoFn(callee) && !w.p.quietFn(callee) {
						s.forgetMutable(nil)
						mw := w.p.mapWrites(callee)
						for m := range s.mem.maps {
							if mw.writes(m.T) {
								s.forgetMap(m)
							}
						}
					}
				}
			}
		}
		return
	}
	// cells that changed since the loop was entered are unknown now
	old := li.mem
	seen := map[*Term]bool{}
	chg := map[*Term]bool{}
	for k, v := range s.mem.cells {
		seen[k] = true
		if o, ok := old.cells[k]; !ok || o != v {
			chg[k] = true
		}
	}
	for k := range old.cells {
		if !seen[k] {
			chg[k] = true
		}
	}
	s.mem.epoch++
	for k := range chg {
		delete(s.mem.cells, k)
		root := rootOf(k)
		if k.Op == "maddr" {
			ms := s.mapState(k.Args[0])
			ms.known = false
			ms.ver++
			continue
		}
		if isLocalRoot(root) {
			if k == root {
				// a scalar local: a fresh unknown, other cells of the object kept
				s.mem.havoc[root] = s.mem.epoch
			} else {
				s.forgetRoot(root)
			}
		} else {
			s.mem.ver[classOf(k)]++
		}
	}
	for k, v := range s.mem.havoc {
		if old.havoc[k] != v {
			s.forgetRoot(k)
		}
	}
	for k, ms := range s.mem.maps {
		if o, ok := old.maps[k]; ok && o.ver != ms.ver {
			ms.ver++
			ms.known = false
			for c := range s.mem.cells {
				if c.Op == "maddr" && c.Args[0] == k {
					delete(s.mem.cells, c)
				}
			}
		}
	}
	for k, v := range s.mem.ver {
		if old.ver[k] != v {
			s.mem.ver[k]++
		}
	}
	s.imps = nil
}

// mapWriteSet: the types of maps a function may write.
type mapWriteSet struct {
	any bool
	ts  []types.Type
}

func (m *mapWriteSet) writes(t types.Type) bool {
	if m.any || t == nil {
		return true
	}
	for _, x := range m.ts {
		if types.Identical(x, t.Underlying()) {
			return true
		}
	}
	return false
}

func (p *Program) mapWrites(fn *ssa.Function) *mapWriteSet {
	if m, ok := p.mapw[fn]; ok {
		return m
	}
	if p.mapw == nil {
		p.mapw = map[*ssa.Function]*mapWriteSet{}
	}
	m := &mapWriteSet{any: true}
	p.mapw[fn] = m // recursive: unknown
	r := &mapWriteSet{any: len(fn.Blocks) == 0}
	add := func(v ssa.Value) {
		switch t := v.Type().Underlying().(type) {
		case *types.Map:
			r.ts = append(r.ts, t)
		case *types.Interface, *types.Signature, *types.Pointer, *types.Struct:
			r.any = true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				r.ts = append(r.ts, in.Map.Type().Underlying())
			case *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.MakeClosure:
				r.any = true
			case *ssa.UnOp:
				r.any = r.any || in.Op == token.ARROW
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					if b.Name() == "delete" || b.Name() == "clear" {
						add(in.Call.Args[0])
					}
					continue
				}
				callee := in.Call.StaticCallee()
				switch {
				case callee == nil:
					r.any = true
				case p.isRepoFn(callee):
					x := p.mapWrites(callee)
					r.any = r.any || x.any
					r.ts = append(r.ts, x.ts...)
				case p.quietLib(callee):
				default:
					for _, a := range in.Call.Args {
						add(a)
					}
				}
			}
		}
	}
	p.mapw[fn] = r
	return r
}

// quietLib: a function of the library that has no effects.
func (p *Program) quietLib(callee *ssa.Function) bool {
	if callee.Pkg == nil {
		return false
	}
	switch callee.Pkg.Pkg.Path() {
	case "errors", "strings", "strconv", "math", "net/netip", "unicode", "unicode/utf8", "math/bits":
		r := callee.Signature.Recv()
		return r == nil || !isPtr(r.Type())
	case "net", "time", "fmt":
		switch callee.Name() {
		case "ParseIP", "To4", "To16", "IPv4", "String", "Equal", "JoinHostPort", "SplitHostPort", "Since", "Now", "Sub", "Errorf", "Sprintf", "Sprint", "Sprintln":
			return true
		}
	}
	return false
}

// quietFn: calling fn writes nothing but memory it makes itself, and waits for
// nobody.
func (p *Program) quietFn(fn *ssa.Function) bool {
	if p.quiet == nil {
		p.quiet = map[*ssa.Function]bool{}
	}
	if q, ok := p.quiet[fn]; ok {
		return q
	}
	p.quiet[fn] = false // recursive: unknown
	q := len(fn.Blocks) > 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				a := in.Addr
				for {
					if x, ok := a.(*ssa.IndexAddr); ok {
						a = x.X
					} else if x, ok := a.(*ssa.FieldAddr); ok {
						a = x.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					q = false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Select, *ssa.Go, *ssa.Defer, *ssa.MakeClosure:
				q = false
			case *ssa.UnOp:
				q = q && in.Op != token.ARROW
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "len", "cap", "min", "max":
					default:
						q = false
					}
					continue
				}
				callee := in.Call.StaticCallee()
				switch {
				case callee == nil:
					q = false
				case p.isRepoFn(callee):
					q = q && p.quietFn(callee)
				default:
					q = q && p.quietLib(callee)
				}
			}
		}
	}
	p.quiet[fn] = q
	return q
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isLocalStringList(t *Term) bool { return false }

func writesFree(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok {
				if _, ok := st.Addr.(*ssa.FreeVar); ok {
					return true
				}
			}
		}
	}
	return false
}

func (s *State) forgetMap(m *Term) {
	ms := s.mapState(m)
	ms.known = false
	ms.ver++
	for c := range s.mem.cells {
		if c.Op == "maddr" && c.Args[0] == m {
			delete(s.mem.cells, c)
		}
	}
}

// forgetCell: the content of a local's part is unknown now.
func (s *State) forgetCell(k *Term) {
	delete(s.mem.cells, k)
	s.mem.epoch++
	s.mem.havoc[rootOf(k)] = s.mem.epoch
}

func (s *State) forgetAddrClass(a ssa.Value, f *Frame) {
	var cls string
	switch a := a.(type) {
	case *ssa.FieldAddr:
		cls = fmt.Sprintf("f%d", objID(fieldOf(a)))
	case *ssa.IndexAddr:
		cls = "e" + types.NewPointer(elemType(a.X.Type())).String()
	default:
		// a pointer to something of this type
		if t, ok := f.env[a]; ok {
			if isLocalRoot(rootOf(t)) {
				s.forgetCell(t)
			}
			return
		}
		p, ok := a.Type().Underlying().(*types.Pointer)
		if !ok {
			return
		}
		// where pointers are kept
		held := map[*Term]bool{}
		note := func(t *Term) {
			if t != nil {
				t.any(func(x *Term) bool {
					if x.Op == "faddr" || x.Op == "iaddr" {
						held[x] = true
					}
					return false
				})
			}
		}
		for _, v := range s.mem.cells {
			note(v)
		}
		for v, t := range f.env {
			switch v.(type) {
			case *ssa.FieldAddr, *ssa.IndexAddr:
			default:
				note(t)
			}
		}
		for k := range held {
			if r := rootOf(k); k != r && isLocalRoot(r) && k.T != nil && types.Identical(k.T, p) {
				s.forgetCell(k)
			}
		}
		return
	}
	for k := range s.mem.cells {
		if classOf(k) == cls {
			delete(s.mem.cells, k)
			if r := rootOf(k); isLocalRoot(r) {
				s.mem.epoch++
				s.mem.havoc[r] = s.mem.epoch
			}
		}
	}
	s.mem.ver[cls]++
}

// ---- loop invariant candidates (bounds on loop-carried integers)

func (w *Walker) assumeCands(s *State, f *Frame, b *ssa.BasicBlock, body map[int]bool, li *loopInfo, key string) {
	li.cands = nil
	add := func(name string, ph *ssa.Phi, p func(v *Term) *Poly) {
		k := key + "|" + ph.Name() + "|" + name
		if w.badCand[k] {
			return
		}
		base := li.phis[ph]
		if base == nil {
			return
		}
		if !entails(li.facts, p(base)) {
			return
		}
		s.fact(condLe0(p(li.gphis[ph])))
		li.cands = append(li.cands, cand{k, func(get func(*ssa.Phi) *Term) *Poly { return p(get(ph)) }, nil})
	}
	// loop-invariant lengths visible in the frame
	var lens []*Term
	seen := map[int]bool{}
	for _, blk := range f.fn.Blocks {
		for _, in := range blk.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || body[blk.Index] {
				continue
			}
			t, ok := f.env[v]
			if !ok {
				continue
			}
			if _, isSl := v.Type().Underlying().(*types.Slice); isSl {
				l := mkLen(t)
				if !seen[l.ID] {
					seen[l.ID] = true
					lens = append(lens, l)
				}
			}
		}
	}
	for _, p := range f.fn.Params {
		t := f.env[p]
		if _, isSl := p.Type().Underlying().(*types.Slice); isSl || isString(p.Type()) {
			l := mkLen(t)
			if !seen[l.ID] {
				seen[l.ID] = true
				lens = append(lens, l)
			}
		}
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		g := li.gphis[ph]
		if base := li.phis[ph]; g != nil && base != nil && !isInt(ph.Type()) {
			switch ph.Type().Underlying().(type) {
			case *types.Interface, *types.Pointer:
				// never nil
				k := key + "|" + ph.Name() + "|nonnil"
				if v, known := queryFacts(li.facts, mkEq(base, mkNil())); !w.badCand[k] && known && !v {
					s.assume(mkEq(g, mkNil()), false)
					li.cands = append(li.cands, cand{k, func(get func(*ssa.Phi) *Term) *Poly { return nil }, ph})
				}
			}
		}
		if g == nil || !isInt(ph.Type()) {
			continue
		}
		add("ge0", ph, func(v *Term) *Poly { return polyAdd(&Poly{}, polyOf(v), -1) })
		if base := li.phis[ph]; base != nil {
			add("gebase", ph, func(v *Term) *Poly { return polyAdd(polyOf(base), polyOf(v), -1) })
		}
		for i, l := range lens {
			l := l
			add(fmt.Sprintf("len%d", i), ph, func(v *Term) *Poly { return polyAdd(polyOf(v), polyOf(l), -1) })
		}
	}
	// bounds the loop's own comparisons establish for the next iteration
	for _, blk := range f.fn.Blocks {
		if !body[blk.Index] {
			continue
		}
		iff, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		cmp, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if li.gphis[ph] == nil || !isInt(ph.Type()) {
				continue
			}
			for side, x := range []ssa.Value{cmp.X, cmp.Y} {
				if _, ok := deltaOf(x, ph, 0); !ok {
					continue
				}
				other := cmp.Y
				if side == 1 {
					other = cmp.X
				}
				bt := w.loopInvariant(f, body, other)
				if bt == nil {
					continue
				}
				for d := int64(0); d < 2; d++ {
					d := d
					// ph <= bound - d, ph >= bound + d
					add(fmt.Sprintf("cmp%d.%d.%d", blk.Index, side, d), ph, func(v *Term) *Poly {
						return polyAdd(polyAdd(&Poly{C: d}, polyOf(v), 1), polyOf(bt), -1)
					})
					add(fmt.Sprintf("cmpr%d.%d.%d", blk.Index, side, d), ph, func(v *Term) *Poly {
						return polyAdd(polyAdd(&Poly{C: d}, polyOf(bt), 1), polyOf(v), -1)
					})
				}
			}
		}
	}
	// lengths of loop-carried slices against each other and against counters
	var phs []*ssa.Phi
	for _, in := range b.Instrs {
		if ph, ok := in.(*ssa.Phi); ok && li.gphis[ph] != nil {
			phs = append(phs, ph)
		}
	}
	lin := func(ph *ssa.Phi, v *Term) (*Term, bool) {
		if isInt(ph.Type()) {
			return v, true
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			return mkLen(v), true
		}
		return nil, false
	}
	for i, x := range phs {
		for j, y := range phs {
			if i == j {
				continue
			}
			bx, by := li.phis[x], li.phis[y]
			if bx == nil || by == nil {
				continue
			}
			lx, ok1 := lin(x, bx)
			ly, ok2 := lin(y, by)
			if !ok1 || !ok2 {
				continue
			}
			k := key + "|" + x.Name() + "<=" + y.Name()
			if w.badCand[k] || !entails(li.facts, polyAdd(polyOf(lx), polyOf(ly), -1)) {
				continue
			}
			gx, _ := lin(x, li.gphis[x])
			gy, _ := lin(y, li.gphis[y])
			s.fact(condLe0(polyAdd(polyOf(gx), polyOf(gy), -1)))
			x, y := x, y
			li.cands = append(li.cands, cand{k, func(get func(*ssa.Phi) *Term) *Poly {
				a, _ := lin(x, get(x))
				c, _ := lin(y, get(y))
				return polyAdd(polyOf(a), polyOf(c), -1)
			}, nil})
		}
	}
}

// loopInvariant: the value of v, when it is the same in every iteration.
func (w *Walker) loopInvariant(f *Frame, body map[int]bool, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nil
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Parameter:
		return f.env[v]
	case *ssa.Call:
		if bl, ok := v.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" && body[v.Block().Index] {
			switch v.Call.Args[0].Type().Underlying().(type) {
			case *types.Slice, *types.Basic, *types.Array:
				if t := w.loopInvariant(f, body, v.Call.Args[0]); t != nil {
					return mkLen(t)
				}
			}
			return nil
		}
	}
	if in, ok := v.(ssa.Instruction); ok && !body[in.Block().Index] {
		return f.env[v]
	}
	return nil
}

func (w *Walker) checkCands(s *State, f *Frame, b *ssa.BasicBlock, li *loopInfo, vals map[*ssa.Phi]*Term) {
	get := func(ph *ssa.Phi) *Term {
		if v := vals[ph]; v != nil {
			return v
		}
		return li.gphis[ph]
	}
	for k, c := range li.cells {
		if !w.badCand[k] && s.load(c.a, c.t) != c.v {
			w.badCand[k] = true
			w.newBad = true
		}
	}
	for _, c := range li.cands {
		if w.badCand[c.key] {
			continue
		}
		if c.nonNil != nil {
			if v, known := s.query(mkEq(get(c.nonNil), mkNil())); !known || v {
				w.badCand[c.key] = true
				w.newBad = true
			}
			continue
		}
		if !entails(s.facts, c.p(get)) {
			w.badCand[c.key] = true
			w.newBad = true
		}
	}
}

// ---- effect-free regions

// pureRegion returns the join of a branch whose both sides have no effect and
// define nothing that is used after the join.
func (w *Walker) pureRegion(fn *ssa.Function, b *ssa.BasicBlock) *ssa.BasicBlock {
	if j, ok := w.regions[b]; ok {
		return j
	}
	w.regions[b] = nil
	region := map[*ssa.BasicBlock]bool{}
	var join *ssa.BasicBlock
	// collect blocks reachable from b's successors that b strictly dominates,
	// all of them pure; everything else must be one single join block
	stack := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if region[x] || x == join {
			continue
		}
		if b.Dominates(x) && x != b && len(x.Preds) == 1 && w.pureBlock(x) && len(x.Succs) > 0 {
			region[x] = true
			if len(region) > 12 {
				return nil
			}
			stack = append(stack, x.Succs...)
			continue
		}
		if join != nil && join != x {
			return nil
		}
		join = x
	}
	if join == nil || join == b || join.Dominates(b) {
		return nil
	}
	// every value defined in the region stays inside it
	for x := range region {
		for _, in := range x.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() == nil || !region[r.Block()] {
					if _, dbg := r.(*ssa.DebugRef); !dbg {
						return nil
					}
				}
			}
		}
	}
	// the phis of the join agree on all edges from the region
	for _, in := range join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v ssa.Value
		for i, p := range join.Preds {
			if p != b && !region[p] {
				continue
			}
			if v == nil {
				v = ph.Edges[i]
			} else if v != ph.Edges[i] && !sameConst(v, ph.Edges[i]) {
				return nil
			}
		}
	}
	w.regions[b] = join
	return join
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && types.Identical(x.Type(), y.Type()) && (x.Value == nil) == (y.Value == nil) && (x.Value == nil || x.Value.ExactString() == y.Value.ExactString())
}

func (w *Walker) pureBlock(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.Jump, *ssa.If, *ssa.DebugRef, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.Extract, *ssa.Phi, *ssa.ChangeInterface, *ssa.Field:
			if bo, ok := in.(*ssa.BinOp); ok && (bo.Op == token.QUO || bo.Op == token.REM) {
				if c, ok := bo.Y.(*ssa.Const); !ok || c.Int64() == 0 {
					return false
				}
			}
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Alloc:
			// variadic argument arrays
			for _, r := range *in.Referrers() {
				switch r.(type) {
				case *ssa.IndexAddr, *ssa.Slice, *ssa.DebugRef:
				default:
					return false
				}
			}
		case *ssa.IndexAddr:
			if _, ok := in.X.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.Slice:
			if _, ok := in.X.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.Store:
			ia, ok := in.Addr.(*ssa.IndexAddr)
			if !ok {
				return false
			}
			if _, ok := ia.X.(*ssa.Alloc); !ok {
				return false
			}
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "min", "max":
					continue
				}
				return false
			}
			o := calleeObj(&in.Call)
			if o == nil || o.Pkg() == nil || o.Pkg().Path() != "log/slog" {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (w *Walker) jumpRegion(s *State, f *Frame, j *ssa.BasicBlock) *State {
	// any predecessor inside the region (or the branch itself) selects the phis
	from := f.b
	for _, p := range j.Preds {
		if p == f.b || f.b.Dominates(p) {
			from = p
			break
		}
	}
	old := f.b
	// values defined before the branch are all the phis can use here
	f.b = from
	r := w.jump(s, f, j)
	_ = old
	return r
}

func (w *Walker) next(s *State, f *Frame, in *ssa.Next) *State {
	it := s.val(in.Iter)
	tt := in.Type().(*types.Tuple)
	key := s.key(f, in)
	if in.IsString {
		o := s.clone()
		o.top().env[in] = mk("tuple", "", nil, in.Type(), mkBool(false), mkInt(0, nil), mkInt(0, nil))
		o.top().pc++
		w.push(o)
		k := mk("rkey", key, nil, types.Typ[types.Int], it)
		s.fact(condLe0(polyAdd(&Poly{}, polyOf(k), -1)))
		if it.Op == "range" {
			s.fact(condLe0(polyAdd(polyAdd(polyOf(k), polyOf(mkLen(it.Args[0])), -1), &Poly{C: 1}, 1)))
		}
		f.env[in] = mk("tuple", "", nil, in.Type(), mkBool(true), k, mk("rval", key, nil, types.Typ[types.Int32], it))
		w.markForked(f)
		f.pc++
		return s
	}
	m := it.Args[0]
	et := types.Type(types.Typ[types.Invalid])
	if mt, ok := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
		et = mt.Elem()
	}
	kt := tt.At(1).Type()
	ms := s.mapState(m)
	if m.Op == "nil" {
		f.env[in] = mk("tuple", "", nil, in.Type(), mkBool(false), mk("undef", "k", nil, kt), mk("undef", "v", nil, et))
		f.pc++
		return s
	}
	if ms.known {
		allC := true
		for _, k := range ms.keys {
			if !k.isConst() {
				allC = false
			}
		}
		if allC && len(ms.keys) <= 64 && w.opt.OneIter {
			// any of the keys, or the end
			for i := 0; i <= len(ms.keys); i++ {
				o := s.clone()
				if i == len(ms.keys) {
					o.top().env[in] = mk("tuple", "", nil, in.Type(), mkBool(false), mk("undef", "k", nil, kt), mk("undef", "v", nil, et))
					o.emit(&Event{Kind: "rangeend", In: in, Addr: m})
				} else {
					k := ms.keys[i]
					v, _ := o.mapGet(m, k, et)
					o.emit(&Event{Kind: "rangenext", In: in, Addr: m, Args: []*Term{k}, Val: v})
					o.top().env[in] = mk("tuple", "", nil, in.Type(), mkBool(true), k, v)
				}
				w.markForked(o.top())
				o.top().pc++
				w.push(o)
			}
			return nil
		}
		if allC && len(ms.keys) <= 64 {
			// concrete enumeration of a fully known map
			ck := fmt.Sprintf("%p", it)
			n := 0
			if li := f.visits[-1-w.instrIdx(in)]; li > 0 {
				n = li
			}
			_ = ck
			f.visits[-1-w.instrIdx(in)] = n + 1
			if n < len(ms.keys) {
				k := ms.keys[n]
				v, _ := s.mapGet(m, k, et)
				f.env[in] = mk("tuple", "", nil, in.Type(), mkBool(true), k, v)
			} else {
				f.visits[-1-w.instrIdx(in)] = 0
				f.env[in] = mk("tuple", "", nil, in.Type(), mkBool(false), mk("undef", "k", nil, kt), mk("undef", "v", nil, et))
			}
			f.pc++
			return s
		}
	}
	o := s.clone()
	o.top().env[in] = mk("tuple", "", nil, in.Type(), mkBool(false), mk("undef", "k", nil, kt), mk("undef", "v", nil, et))
	o.emit(&Event{Kind: "rangeend", In: in, Addr: m})
	of := o.top()
	w.markForked(of)
	of.pc++
	w.push(o)
	k := mk("rkey", key, nil, kt, it)
	ver := fmt.Sprintf("%d.%d", ms.ver, s.mem.ver["m"])
	v := mk("mval", ver, nil, et, m, k)
	s.assume(mk("inmap", ver, nil, types.Typ[types.Bool], m, k), true)
	s.emit(&Event{Kind: "rangenext", In: in, Addr: m, Args: []*Term{k}, Val: v})
	f.env[in] = mk("tuple", "", nil, in.Type(), mkBool(true), k, v)
	w.markForked(f)
	f.pc++
	return s
}

// splitIndex: an index into a short local array is one of those in range.
func (w *Walker) splitIndex(s *State, x, i *Term) (*Term, bool) {
	if _, c := i.isIntConst(); c || x.T == nil {
		return i, false
	}
	b := x
	if b.Op == "slice" && b.Args[1] == nil && b.Args[2] == nil {
		b = b.Args[0]
	}
	if b.Op != "alloc" {
		return i, false
	}
	p, ok := b.T.Underlying().(*types.Pointer)
	if !ok {
		return i, false
	}
	at, ok := p.Elem().Underlying().(*types.Array)
	if !ok || at.Len() > 16 {
		return i, false
	}
	var in []int64
	for k := int64(0); k < at.Len(); k++ {
		d := polySub(polyOf(i), polyConst(k))
		if !entails(s.facts, polyAdd(d, polyConst(1), 1)) && !entails(s.facts, polySub(polyConst(1), d)) {
			in = append(in, k)
		}
	}
	if len(in) == 1 {
		d := polySub(polyOf(i), polyConst(in[0]))
		if entails(s.facts, d) && entails(s.facts, polySub(polyConst(0), d)) {
			return mkInt(in[0], nil), false
		}
		return i, false
	}
	for _, k := range in {
		o := s.clone()
		o.fact(condEq0(polySub(polyOf(i), polyConst(k))))
		w.push(o)
	}
	return nil, len(in) > 0
}

// markForked: the enclosing loop's exit was decided by a fork.
func (w *Walker) markForked(f *Frame) {
	for h, body := range w.loops(f.fn) {
		if body[f.b.Index] && f.loops[h] != nil {
			f.loops[h].forked = true
		}
	}
}

func (w *Walker) typeAssert(s *State, f *Frame, in *ssa.TypeAssert) *State {
	x := s.val(in.X)
	c := mkTypeIs(x, in.AssertedType)
	unwrap := func() *Term {
		if x.Op == "iface" {
			if types.IsInterface(in.AssertedType) {
				return x
			}
			return x.Args[0]
		}
		if types.IsInterface(in.AssertedType) {
			return x
		}
		return mk("tassert", "", nil, in.AssertedType, x)
	}
	if !in.CommaOk {
		v, known := s.query(c)
		w.oblig(s, in, "typeassert", known && v, x)
		if !known {
			s.assume(c, true)
		}
		f.env[in] = unwrap()
		f.pc++
		return s
	}
	mkT := func(ok bool) *Term {
		if ok {
			return mk("tuple", "", nil, in.Type(), unwrap(), mkBool(true))
		}
		return mk("tuple", "", nil, in.Type(), zeroOf(in.AssertedType), mkBool(false))
	}
	if v, known := s.query(c); known {
		f.env[in] = mkT(v)
		f.pc++
		return s
	}
	w.joinBarrier(s, f)
	o := s.clone()
	if o.assume(c, false) {
		of := o.top()
		of.env[in] = mkT(false)
		of.pc++
		w.push(o)
	}
	if !s.assume(c, true) {
		return nil
	}
	f.env[in] = mkT(true)
	f.pc++
	return s
}

func (w *Walker) selectOp(s *State, f *Frame, in *ssa.Select) *State {
	n := len(in.States)
	key := s.key(f, in)
	var out []*State
	cases := n
	if !in.Blocking {
		cases++
	}
	var chans []*Term
	for _, st := range in.States {
		chans = append(chans, s.val(st.Chan))
	}
	for c := 0; c < cases; c++ {
		o := s
		if c < cases-1 {
			o = s.clone()
		}
		of := o.top()
		idx := c
		if c == n {
			idx = -1
		}
		args := []*Term{mkInt(int64(idx), nil), mkBool(true)}
		e := &Event{Kind: "select", In: in, Case: idx, Args: chans, OK: in.Blocking}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				et := st.Chan.Type().Underlying().(*types.Chan).Elem()
				v := mk("recv", fmt.Sprintf("%s/%d", key, i), nil, et, chans[i])
				if i != idx {
					v = zeroOf(et)
				} else {
					e.Addr, e.Val = chans[i], v
					e.Field = w.fieldOfVal(st.Chan)
					e.Name = "recv"
				}
				args = append(args, v)
			} else if i == idx {
				e.Addr, e.Val = chans[i], o.val(st.Send)
				e.Field = w.fieldOfVal(st.Chan)
				e.Name = "send"
			}
		}
		o.emit(e)
		of.env[in] = mk("tuple", "", nil, in.Type(), args...)
		of.pc++
		out = append(out, o)
	}
	w.markForkedAll(out)
	for _, o := range out[:len(out)-1] {
		w.push(o)
	}
	return out[len(out)-1]
}

func (w *Walker) markForkedAll(ss []*State) {
	for _, s := range ss {
		w.markForked(s.top())
	}
}

func stackString(e *Event) string {
	var s []string
	for c := e.Stack; c != nil; c = c.parent {
		s = append(s, shortName(c.fn))
	}
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
	return strings.Join(s, " > ")
}
