package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func bencodeOpaque(root *ssa.Function) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool { return fn != root && c_exportedOther(root, fn) }
}

// c_exportedOther: calls into another package's exported functions are
// summarised.
func c_exportedOther(root, fn *ssa.Function) bool {
	return pkgOf(root) != pkgOf(fn) && !leafPkgs[pkgOf(fn)]
}

// implementsFact: the panic (or assertion) follows from a failed assertion of
// reflect's Interface() of a value whose type was tested, on this path, to
// implement that very interface.
func implementsFact(s *State, e *Event) bool {
	for n := s.facts; n != nil; n = n.prev {
		if n.val || n.t.Op != "typeis" {
			continue
		}
		x, want := n.t.Args[0], n.t.Obj.(typeBox).T
		if x.Op != "app" || !strings.HasPrefix(x.S, "Interface@") && !strings.HasSuffix(x.S, ".Interface") && x.S != "Interface" {
			continue
		}
		if implementsTested(s, x.Args[0], want) {
			return true
		}
	}
	return false
}

func implementsTested(s *State, v *Term, want types.Type) bool {
	isApp := func(t *Term, name string) bool { return t.Op == "app" && t.S == name }
	for n := s.facts; n != nil; n = n.prev {
		if !n.val || !isApp(n.t, "(reflect.Type).Implements") {
			continue
		}
		if !types.Identical(typeForOf(s.w.p, n.t.Args[1]), want) {
			continue
		}
		t := n.t.Args[0]
		if isApp(t, "(reflect.Value).Type") && t.Args[0] == v {
			// a nil interface value holds nothing to assert on
			return notNilInterface(s, v)
		}
		if isApp(t, "reflect.PointerTo") && isApp(v, "(reflect.Value).Addr") && isApp(t.Args[0], "(reflect.Value).Type") && t.Args[0].Args[0] == v.Args[0] {
			return true
		}
	}
	return false
}

// notNilInterface: v is not an interface, or was tested not to be nil.
func notNilInterface(s *State, v *Term) bool {
	if strings.Contains(s.aux, fmt.Sprintf("nn%d;", v.ID)) {
		return true
	}
	for n := s.facts; n != nil; n = n.prev {
		if !n.val && n.t.Op == "app" && strings.HasPrefix(n.t.S, "IsNil") && n.t.Args[0] == v {
			return true
		}
		if n.t.Op == "eq0" && !n.val {
			p := polyOf(n.t.Args[0])
			if len(p.Ms) == 1 && p.C == -int64(reflect.Interface) && p.Ms[0].K == 1 && len(p.Ms[0].Atoms) == 1 {
				if a := p.Ms[0].Atoms[0]; a.Op == "app" && a.S == "(reflect.Value).Kind" && a.Args[0] == v {
					return true
				}
			}
		}
	}
	return false
}

// typeForOf: the type a package variable initialised with reflect.TypeFor
// describes.
func typeForOf(p *Program, t *Term) types.Type {
	bad := types.Typ[types.Invalid]
	if t.Op == "app" && strings.HasPrefix(t.S, "reflect.TypeFor") {
		return bad
	}
	for t.Op == "init" {
		t = t.Args[0]
	}
	if t.Op != "global" {
		return bad
	}
	g, ok := t.Obj.(*ssa.Global)
	if !ok {
		return bad
	}
	var found types.Type = bad
	n := 0
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != g {
					continue
				}
				n++
				call, ok := st.Val.(*ssa.Call)
				if !ok {
					continue
				}
				callee := call.Call.StaticCallee()
				if callee == nil || callee.Origin() == nil || callee.Origin().Name() != "TypeFor" || len(callee.TypeArgs()) != 1 {
					continue
				}
				found = callee.TypeArgs()[0]
			}
		}
	}
	if n != 1 {
		return bad
	}
	return found
}

// decodeRoots: everything through which bytes from outside are decoded.
func (c *C) decodeRoots() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.entryPoints("bencode", "api/metainfo", "api/tracker") {
		n := f.Name()
		if strings.Contains(n, "arshal") && !strings.Contains(n, "nmarshal") || strings.HasPrefix(n, "Encode") || strings.HasPrefix(n, "encode") {
			continue
		}
		r = append(r, f)
	}
	return r
}

// encodeRoots: everything through which values are encoded.
func (c *C) encodeRoots() []*ssa.Function {
	dec := map[*ssa.Function]bool{}
	for _, f := range c.decodeRoots() {
		dec[f] = true
	}
	var r []*ssa.Function
	for _, f := range c.p.entryPoints("bencode", "api/metainfo", "api/tracker") {
		if !dec[f] {
			r = append(r, f)
		}
	}
	return r
}

// trackNil notes which values were shown not to be nil interfaces, in ways
// that joins of the path conditions would lose.
func trackNil(s *State, e *Event) {
	if e.Kind != "branch" {
		return
	}
	for v := range atomsOf(e.Args[0]) {
		if v.Op != "app" || len(v.Args) == 0 || v.S != "(reflect.Value).Kind" && !strings.HasPrefix(v.S, "IsNil") {
			continue
		}
		if tag := fmt.Sprintf("nn%d;", v.Args[0].ID); !strings.Contains(s.aux, tag) && notNilInterface(s, v.Args[0]) {
			s.aux += tag
		}
	}
}

// atomsOf: the applications inside a term.
func atomsOf(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || out[t] {
			return
		}
		out[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		if t.P != nil {
			for _, m := range t.P.Ms {
				for _, a := range m.Atoms {
					rec(a)
				}
			}
		}
	}
	rec(t)
	return out
}

func bencodeAllowed(root *ssa.Function, s *State, e *Event) bool {
	// the assertion to the interface behind reflect's Implements
	return (e.Kind == "panic" || e.Name == "panic" || e.Name == "typeassert") && implementsFact(s, e)
}

func init() {
	register("B01", "decoding never panics", func(c *C) {
		c.rule("no-panic", 25, "no index, slice, allocation, shift, conversion, nil map write, nil dereference or explicit panic can fail, on any path from a decoding entry point")
		c.rule("depth-bounded", 4, "every recursive call of the decoder is made with a nesting counter incremented and tested against a constant limit, and success restores it")
		roots := c.decodeRoots()
		for _, r := range roots {
			c.total(r, panicCfg{opaque: bencodeOpaque(r), allow: bencodeAllowed, onEvent: c.checkHolds(r)})
		}
		c.runAfter()
		n := 0
		for f := range c.p.recursionCut() {
			if pkgOf(f) == "bencode" && strings.Contains(shortName(f), "Decoder") {
				n++
				c.checkDepth("depth-bounded", f, bencodeOpaque(f))
			}
		}
		if n == 0 {
			c.undecide("no recursive decoder function found")
		}
	})
	register("B09", "encoding nesting is bounded", func(c *C) {
		c.rule("no-panic", 15, "no index, slice, allocation, shift, conversion, nil map write, nil dereference or explicit panic can fail, on any path from an encoding entry point")
		c.rule("depth-bounded", 4, "every recursive call of the encoder is made with a nesting counter incremented and tested against a constant limit, and success restores it")
		for _, r := range c.encodeRoots() {
			c.total(r, panicCfg{opaque: bencodeOpaque(r), allow: bencodeAllowed, onEvent: c.checkHolds(r)})
		}
		c.runAfter()
		n := 0
		for f := range c.p.recursionCut() {
			if pkgOf(f) == "bencode" && strings.Contains(shortName(f), "Encoder") {
				n++
				c.checkDepth("depth-bounded", f, bencodeOpaque(f))
			}
		}
		if n == 0 {
			c.undecide("no recursive encoder function found")
		}
	})
}
