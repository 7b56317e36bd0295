package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Totality: no reachable operation can panic on any input.

type panicCfg struct {
	opaque  func(fn *ssa.Function) bool
	assume  func(s *State, fr *Frame)
	allow   func(root *ssa.Function, s *State, e *Event) bool // a reasoned exception
	only    func(e *Event) bool
	maybe   bool // also require pointers that may be nil to be checked
	absent  bool // also require values of maps to be checked
	onEvent func(s *State, e *Event)
	opts    func(o *Opts)
}

// total raises an obligation for every operation that could panic.
func (c *C) total(root *ssa.Function, cfg panicCfg) *Walker {
	if root == nil {
		c.undecide("entry point not found")
		return nil
	}
	o := Opts{OneIter: true, Merge: true, MergeMem: true, Oblig: true, Keep: keepNone, Opaque: cfg.opaque, Assume: cfg.assume}
	if cfg.opts != nil {
		cfg.opts(&o)
	}
	return c.walk(root, o, func(s *State, e *Event) {
		if cfg.onEvent != nil {
			cfg.onEvent(s, e)
		}
		if cfg.only != nil && !cfg.only(e) {
			return
		}
		switch e.Kind {
		case "oblig":
			if e.Name == "looplocks" || e.Name == "maybenil" && !cfg.maybe && !(cfg.absent && s.maybeAbsent(e.Args[0], true)) {
				return
			}
			ok := e.OK
			if !ok && cfg.allow != nil && cfg.allow(root, s, e) {
				ok = true
			}
			var as []string
			for _, a := range e.Args {
				as = append(as, a.String())
			}
			c.ob("no-panic", fnName(e)+": "+panicWhat(e.Name)+" "+stableSite(c, e), ok, e.pos(c.p), panicText(e.Name)+" ("+trunc(strings.Join(as, ", "), 160)+") reached from "+shortName(root))
		case "panic":
			ok := cfg.allow != nil && cfg.allow(root, s, e)
			c.ob("no-panic", fnName(e)+": panic "+stableSite(c, e), ok, e.pos(c.p), "an explicit panic is reachable from "+shortName(root))
		}
	}, nil)
}

// stableSite numbers the instructions of one kind in a function.
func stableSite(c *C, e *Event) string {
	if e.In == nil {
		return ""
	}
	n := 0
	want := fmt.Sprintf("%T", e.In)
	for _, b := range e.In.Parent().Blocks {
		for _, in := range b.Instrs {
			if fmt.Sprintf("%T", in) == want {
				n++
			}
			if in == e.In {
				return "#" + strconv.Itoa(n)
			}
		}
	}
	return ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func panicWhat(n string) string { return n }

func panicText(n string) string {
	switch n {
	case "index":
		return "index possibly out of range"
	case "slice":
		return "slice bounds possibly out of range"
	case "makeslice":
		return "length of an allocation possibly negative"
	case "nilderef", "maybenil":
		return "possibly nil pointer dereferenced"
	case "typeassert":
		return "type assertion possibly failing"
	case "nilmap":
		return "write to a possibly nil map"
	case "divzero":
		return "possible division by zero"
	case "shift":
		return "possibly negative shift"
	}
	return n + " not proven"
}

// ---- recursion depth

// checkDepth: every recursive call of root (a recursion cut) is made with some
// integer of the receiver incremented and bounded by a constant.
func (c *C) checkDepth(rule string, root *ssa.Function, opaque func(fn *ssa.Function) bool) {
	if root == nil {
		c.undecide("recursive function not found")
		return
	}
	recv := root.Signature.Recv()
	if recv == nil {
		c.undecide("%s: recursive function without receiver", shortName(root))
		return
	}
	pt, ok := recv.Type().(*types.Pointer)
	if !ok {
		c.undecide("%s: receiver is not a pointer", shortName(root))
		return
	}
	st := pt.Elem().Underlying().(*types.Struct)
	var fs []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		if isInt(st.Field(i).Type()) {
			fs = append(fs, originField(st.Field(i)))
		}
	}
	cut := c.p.recursionCut()
	// A recursive call leaves the counters as they were: assumed for the calls
	// cut off here, and shown for the body by the obligations at its returns.
	keep := map[*types.Var]bool{}
	for _, f := range fs {
		if c.depthField(root, f) {
			keep[f] = true
		}
	}
	init := map[*types.Var]*Term{}
	calls := 0
	delta := func(s *State, recv *Term, f *types.Var) (*Term, int, bool) {
		v := s.load(mkFaddr(recv, f), f.Type())
		d := polyAdd(polyOf(v), polyOf(init[f]), -1)
		return v, int(d.C), len(d.Ms) == 0
	}
	var self *Term
	c.walk(root, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone, Opaque: opaque, Preserve: keep, Assume: func(s *State, fr *Frame) {
		self = fr.env[root.Params[0]]
		for f := range keep {
			init[f] = s.load(mkFaddr(self, f), f.Type())
			s.store(mkFaddr(self, f), init[f], f.Type())
		}
	}}, func(s *State, e *Event) {
		if e.Kind == "store" && e.Field != nil && keep[e.Field] {
			s.aux = ""
			for _, f := range fs {
				if keep[f] {
					_, d, known := delta(s, self, f)
					s.aux += fmt.Sprint(d, known, ";")
				}
			}
		}
		if e.Kind != "call" || e.SFn == nil || !cut[e.SFn] {
			return
		}
		if e.SFn.Signature.Recv() == nil || !types.Identical(e.SFn.Signature.Recv().Type(), recv.Type()) {
			return
		}
		calls++
		ok := false
		why := "no counter of the receiver is incremented and bounded on this path"
		for f := range keep {
			v, d, known := delta(s, e.Args[0], f)
			if !known || d < 1 {
				continue
			}
			if entails(s.facts, polyAdd(&Poly{C: -100000}, polyOf(v), 1)) {
				ok = true
			} else {
				why = "counter " + f.Name() + " is incremented but not bounded by a constant"
			}
		}
		c.ob(rule, shortName(root)+": recursion at "+fnName(e)+" "+stableSite(c, e), ok, e.pos(c.p), why)
	}, func(t *Trace) {
		if t.End != "return" || t.Root != root {
			return
		}
		if t.Final.thread > 0 || len(t.Ret) == 0 {
			return // a callback
		}
		v, known := t.Final.query(mkEq(t.Ret[len(t.Ret)-1], mkNil()))
		fails := known && !v
		for f := range keep {
			_, d, known := delta(t.Final, self, f)
			c.ob(rule, shortName(root)+": "+f.Name()+" restored", known && (d == 0 || fails && d > 0), c.p.pos(root.Pos()), "the nesting counter is not restored on a path that succeeds, or is left lower")
		}
	})
	c.notes["recursive calls of "+shortName(root)] += calls
}

// depthField: f is only ever changed by adding or subtracting one (a nesting
// counter, unlike an input offset).
func (c *C) depthField(root *ssa.Function, f *types.Var) bool {
	up, down := false, false
	for _, fn := range c.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || fieldOf(fa) != f {
					continue
				}
				bo, ok := st.Val.(*ssa.BinOp)
				if !ok {
					return false
				}
				k, ok := bo.Y.(*ssa.Const)
				if !ok || !isInt(k.Type()) || k.Int64() != 1 {
					return false
				}
				switch bo.Op.String() {
				case "+":
					up = true
				case "-":
					down = true
				default:
					return false
				}
			}
		}
	}
	return up && down
}
