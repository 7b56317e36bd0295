package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A reflect.Value that holds nothing (the target of a nil pointer, the content
// of a nil interface) answers Kind, IsValid and a few more and panics on
// everything else. Which values hold something is decided from where they come
// from and from what the path has tested about it.

// zeroValueSafe: what may be asked of a reflect.Value that holds nothing.
var zeroValueSafe = map[string]bool{"Kind": true, "IsValid": true, "String": true, "CanSet": true, "CanAddr": true, "CanInterface": true}

// trackPointers notes which values were shown to point to something, or not to
// be pointers at all, in ways joins of the path conditions would lose.
func trackPointers(s *State, e *Event) {
	tag := func(v *Term) {
		if t := pointsTag(v); !strings.Contains(s.aux, t) {
			s.aux += t
		}
	}
	switch {
	case e.Kind == "branch":
		for v := range atomsOf(e.Args[0]) {
			if v.Op != "app" || len(v.Args) == 0 {
				continue
			}
			if strings.HasPrefix(v.S, "IsNil") || strings.HasPrefix(v.S, "(reflect.Value).IsNil") {
				if knownNotNil(s, v.Args[0]) {
					tag(v.Args[0])
				}
			}
		}
	case e.Kind == "call" && e.Name == "(reflect.Value).Set" && len(e.Args) == 2:
		if holdsNew(e.Args[1]) {
			tag(e.Args[0])
			if t := fmt.Sprintf("nn%d;", e.Args[0].ID); !strings.Contains(s.aux, t) {
				s.aux += t
			}
		}
	}
}

func pointsTag(v *Term) string { return fmt.Sprintf("pt%d;", v.ID) }

func holdsNew(v *Term) bool {
	n := callName(v)
	return n == "reflect.New" || n == "(reflect.Value).Addr" || strings.HasPrefix(n, "reflect.Make")
}

func knownNotNil(s *State, v *Term) bool {
	for n := s.facts; n != nil; n = n.prev {
		if !n.val && n.t.Op == "app" && len(n.t.Args) > 0 && n.t.Args[0] == v && strings.Contains(n.t.S, "IsNil") {
			return true
		}
	}
	return false
}

// kindKnown: the path has shown the value to be of some kind, or to be valid.
func kindKnown(s *State, v *Term) bool {
	for n := s.facts; n != nil; n = n.prev {
		if n.val && n.t.Op == "app" && len(n.t.Args) > 0 && n.t.Args[0] == v && strings.Contains(n.t.S, "IsValid") {
			return true
		}
		for a := range atomsOf(n.t) {
			if a.Op == "app" && a.S == "(reflect.Value).Kind" && len(a.Args) == 1 && a.Args[0] == v {
				if entails(s.facts, polySub(polyConst(1), polyOf(a))) {
					return true
				}
			}
		}
	}
	return false
}

// holdsValue: v is not the reflect.Value that holds nothing, as far as its
// origin is known. Values from elsewhere (parameters, fields, elements) do.
func holdsValue(s *State, v *Term) bool {
	if len(v.Args) == 0 {
		return true
	}
	switch {
	case appOf(v, "Elem"), callName(v) == "(reflect.Value).Elem":
		b := v.Args[0]
		return holdsNew(b) || strings.Contains(s.aux, pointsTag(b)) || knownNotNil(s, b) || kindKnown(s, v)
	case appOf(v, "reflect.ValueOf"):
		a := v.Args[0]
		if a.Op == "iface" {
			return true
		}
		val, known := s.query(mkEq(a, mkNil()))
		return known && !val || kindKnown(s, v)
	}
	return true
}

// checkHolds judges the calls that need a reflect.Value that holds something.
func (c *C) checkHolds(root *ssa.Function) func(s *State, e *Event) {
	// recursive functions that use their values without looking first
	uses := map[*types.Func]*ssa.Function{}
	for f := range c.p.recursionCut() {
		if o, ok := f.Object().(*types.Func); ok && !asksValid(f) {
			uses[o] = f
		}
	}
	// loop variables a later round may leave holding nothing
	empty := map[*Term]bool{}
	judge := func(s *State, e *Event, v *Term, what string) {
		ok, construct, where := holdsValue(s, v), fnName(e)+": value "+stableSite(c, e), e.pos(c.p)
		known := !ok || kindKnown(s, v) || !isValue(v)
		c.after(func() {
			c.ob("no-panic", construct, ok && (known || !empty[v]), where,
				what+" a reflect.Value that may hold nothing ("+trunc(v.String(), 120)+") reached from "+shortName(root))
		})
	}
	return func(s *State, e *Event) {
		trackNil(s, e)
		trackPointers(s, e)
		if e.Kind == "rearrive" {
			for ph, g := range e.Gen {
				if n := e.Next[ph]; n != nil && isValue(n) && !holdsValue(s, n) {
					empty[g] = true
				}
			}
		}
		if e.Kind != "call" || len(e.Args) == 0 {
			return
		}
		m, isMethod := strings.CutPrefix(e.Name, "(reflect.Value).")
		if isMethod && !zeroValueSafe[m] {
			judge(s, e, e.Args[0], m+" of")
			return
		}
		callee := uses[e.Callee]
		if callee == nil {
			return
		}
		for _, a := range e.Args {
			if isValue(a) {
				judge(s, e, a, "a call of "+shortName(callee)+" with")
			}
		}
	}
}

func isValue(t *Term) bool { return t.T != nil && t.T.String() == "reflect.Value" }

// asksValid: the function itself looks whether its value holds something.
func asksValid(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil && f.Name() == "IsValid" {
					return true
				}
			}
		}
	}
	return false
}
