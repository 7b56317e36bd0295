package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type kindSet uint32

func kinds(ks ...reflect.Kind) kindSet {
	var s kindSet
	for _, k := range ks {
		s |= 1 << k
	}
	return s
}

func (s kindSet) has(k reflect.Kind) bool { return s&(1<<k) != 0 }

var (
	kInts  = kinds(reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64)
	kUints = kinds(reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr)
	kNil   = kinds(reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer)
	kLen   = kinds(reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String, reflect.Pointer)
)

// kindOf: the kinds for which a method of reflect.Value does not panic.
var kindOf = map[string]kindSet{
	"Int": kInts, "SetInt": kInts, "OverflowInt": kInts,
	"Uint": kUints, "SetUint": kUints, "OverflowUint": kUints,
	"SetString": kinds(reflect.String),
	"Bool":      kinds(reflect.Bool), "SetBool": kinds(reflect.Bool),
	"Float": kinds(reflect.Float32, reflect.Float64), "SetFloat": kinds(reflect.Float32, reflect.Float64),
	"Bytes": kinds(reflect.Slice, reflect.Array), "SetBytes": kinds(reflect.Slice),
	"Len": kLen, "Cap": kinds(reflect.Array, reflect.Chan, reflect.Slice, reflect.Pointer),
	"Index": kinds(reflect.Array, reflect.Slice, reflect.String),
	"IsNil": kNil, "Elem": kinds(reflect.Interface, reflect.Pointer),
	"Grow": kinds(reflect.Slice), "SetLen": kinds(reflect.Slice), "SetCap": kinds(reflect.Slice),
	"MapKeys": kinds(reflect.Map), "MapIndex": kinds(reflect.Map), "SetMapIndex": kinds(reflect.Map), "MapRange": kinds(reflect.Map),
	"Field": kinds(reflect.Struct), "NumField": kinds(reflect.Struct),
	"Slice": kinds(reflect.Array, reflect.Slice, reflect.String),
}

type kindOutcome struct {
	ok       bool            // some path succeeds
	unsupp   bool            // some path reports an unsupported type
	accesses map[string]bool // accessors used for the value itself
}

func init() {
	register("B06", "every kind of value is handled the same both ways", func(c *C) {
		c.rule("kind-match", 20, "for each kind a value can have, encoding and decoding either both handle it or both report an unsupported type")
		c.rule("accessor", 8, "signed, unsigned and string kinds are read and written with the accessors of that kind")
		c.rule("reflect-kind", 30, "no method of reflect.Value is used on the value being coded unless the method exists for its kind")
		_, decF := c.decoderCuts()
		encF := c.encoderCuts()
		if len(decF) != 1 || len(encF) != 1 {
			c.undecide("expected one recursive encoder and decoder function, found %d and %d", len(encF), len(decF))
			return
		}
		for k := reflect.Bool; k <= reflect.UnsafePointer; k++ {
			e, d := c.kindWalk(encF[0], k), c.kindWalk(decF[0], k)
			c.ob("kind-match", k.String(), e.ok == d.ok && (e.ok || e.unsupp && d.unsupp), c.p.pos(encF[0].Pos()), fmt.Sprintf("encoding: handled %v, unsupported %v; decoding: handled %v, unsupported %v", e.ok, e.unsupp, d.ok, d.unsupp))
			var wantE, wantD string
			switch {
			case kInts.has(k):
				wantE, wantD = "Int", "SetInt"
			case kUints.has(k) && k != reflect.Uintptr:
				wantE, wantD = "Uint", "SetUint"
			case k == reflect.String:
				wantE, wantD = "String", "SetString"
			default:
				continue
			}
			c.ob("accessor", k.String(), e.ok && d.ok && onlyAccess(e.accesses, wantE) && onlyAccess(d.accesses, wantD), c.p.pos(encF[0].Pos()), fmt.Sprintf("encoded with %v, decoded with %v", keysOf(e.accesses), keysOf(d.accesses)))
		}
	})
}

func keysOf(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func onlyAccess(m map[string]bool, want string) bool {
	return m[want] && len(m) == 1
}

// kindWalk analyses coding of a value of one kind without an interface of its
// own.
func (c *C) kindWalk(f *ssa.Function, k reflect.Kind) kindOutcome {
	out := kindOutcome{accesses: map[string]bool{}}
	vi := -1
	for i, p := range f.Params {
		if p.Type().String() == "reflect.Value" {
			vi = i
		}
	}
	if vi < 0 {
		c.undecide("%s: no reflect.Value parameter", shortName(f))
		return out
	}
	var v *Term
	c.walk(f, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone, NoSpawn: true, Assume: func(s *State, fr *Frame) {
		v = fr.env[f.Params[vi]]
		kind := c.appTerm("reflect", "Value", "Kind", v)
		if kind != nil {
			s.assume(boolTerm(condEq0(polyAdd(polyOf(kind), &Poly{C: int64(k)}, -1))), true)
		}
	}}, func(s *State, e *Event) {
		switch e.Kind {
		case "branch":
			for n := s.facts; n != nil; n = n.prev {
				if n.val && n.t.Op == "app" && strings.Contains(n.t.S, "Implements") && n.t.any(func(t *Term) bool { return t == v }) {
					s.aux = "impl"
				}
			}
		case "call":
			if !strings.HasPrefix(e.Name, "(reflect.Value).") || len(e.Args) == 0 || e.Args[0] != v {
				return
			}
			m := strings.TrimPrefix(e.Name, "(reflect.Value).")
			if ks, ok := kindOf[m]; ok {
				c.ob("reflect-kind", fmt.Sprintf("%s: %s %s for kind %s", fnName(e), m, stableSite(c, e), k), ks.has(k), e.pos(c.p), "reflect.Value."+m+" panics for this kind of value")
			}
			if s.aux != "impl" {
				switch m {
				case "Int", "Uint", "String", "SetInt", "SetUint", "SetString", "SetBytes", "Bytes", "Float", "Bool", "SetFloat", "SetBool":
					out.accesses[m] = true
				}
			}
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.aux == "impl" || len(t.Ret) != 1 {
			return
		}
		r := t.Ret[0]
		if r.T != nil && !isErrorType(r.T) && r.Op != "nil" && r.Op != "iface" {
			return
		}
		if isUnsupported(r) {
			// of this very type, not of something inside
			out.unsupp = true
			return
		}
		if succeeds(t) {
			out.ok = true
		}
	})
	return out
}

func isUnsupported(r *Term) bool {
	if r.Op != "iface" || r.T == nil {
		return false
	}
	t := r.T
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "UnsupportedTypeError"
}

// appTerm: the pure application of a library method.
func (c *C) appTerm(pkg, typ, method string, args ...*Term) *Term {
	for _, p := range c.p.SSA.AllPackages() {
		if p.Pkg.Path() != pkg {
			continue
		}
		tn, ok := p.Pkg.Scope().Lookup(typ).(*types.TypeName)
		if !ok {
			return nil
		}
		o, _, _ := types.LookupFieldOrMethod(tn.Type(), true, p.Pkg, method)
		fn, ok := o.(*types.Func)
		if !ok {
			return nil
		}
		return mk("app", qualName(fn), fn, fn.Type().(*types.Signature).Results().At(0).Type(), args...)
	}
	return nil
}
