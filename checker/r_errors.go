package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errCfg: which calls' errors must not be lost.
type errCfg struct {
	opaque func(fn *ssa.Function) bool
	exempt func(e *Event) bool // errors that may be ignored
	assume func(s *State, fr *Frame)
	// handled: the path knows which error it is, and deals with it
	handled func(s *State, e *Term, name string) bool
	opts    func(o *Opts)
}

// noLostErrors: on every path on which root succeeds, every call it made that
// can fail is known to have succeeded.
func (c *C) noLostErrors(rule string, root *ssa.Function, cfg errCfg) {
	if root == nil {
		return
	}
	n := root.Signature.Results().Len()
	if n == 0 || !isErrorType(root.Signature.Results().At(n-1).Type()) {
		return
	}
	type site struct {
		construct, where, name string
	}
	sites := map[int]site{}
	o := Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone, Opaque: cfg.opaque, Assume: cfg.assume}
	if cfg.opts != nil {
		cfg.opts(&o)
	}
	c.walk(root, o, func(s *State, e *Event) {
		switch e.Kind {
		case "call":
			if len(e.Res) == 0 || e.Defer {
				return
			}
			r := e.Res[len(e.Res)-1]
			if r.T == nil || !isErrorType(r.T) || r.Op == "nil" || r.Op == "iface" || strings.HasPrefix(e.Name, "fmt.Errorf") || strings.HasPrefix(e.Name, "errors.") || neverFails(e.Name) || cfg.exempt != nil && cfg.exempt(e) {
				return
			}
			if sg := e.Callee; sg == nil && e.SFn == nil {
				return
			}
			id := tokID(r)
			st := site{fnName(e) + ": error of " + shortCall(e) + " " + stableSite(c, e), e.pos(c.p), shortCall(e)}
			sites[r.ID] = st
			c.ob(rule, st.construct, true, st.where, "")
			s.aux += id + ","
		case "rearrive":
			// the next round knows nothing of the errors of this one
			if s.thread > 0 {
				return
			}
			for _, x := range tokList(s.aux) {
				if strings.Contains(","+e.Name, ","+tokID(x)+",") || isNilNow(s, x) || cfg.handled != nil && cfg.handled(s, x, sites[x.ID].name) {
					continue
				}
				has := func(v *Term) bool { return v != nil && v.any(func(y *Term) bool { return y == x }) }
				kept := false
				for _, v := range e.Next {
					kept = kept || has(v)
				}
				for _, v := range s.mem.cells {
					kept = kept || has(v)
				}
				if !kept {
					st := sites[x.ID]
					c.ob(rule, st.construct, false, st.where, shortName(root)+" goes on although "+st.name+" failed")
				}
			}
		case "branch":
			// errors known to be nil need no more attention
			var keep []string
			for _, t := range tokList(s.aux) {
				if v, known := s.query(mkEq(t, mkNil())); (!known || !v) && !(cfg.handled != nil && cfg.handled(s, t, sites[t.ID].name)) {
					keep = append(keep, tokID(t))
				}
			}
			s.aux = strings.Join(keep, ",")
			if s.aux != "" {
				s.aux += ","
			}
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread > 0 || len(t.Ret) != n || !isErrorType(root.Signature.Results().At(n-1).Type()) {
			return
		}
		ret := t.Ret[n-1]
		v, known := t.Final.query(mkEq(ret, mkNil()))
		if known && !v {
			return
		}
		for _, e := range tokList(t.Final.aux) {
			ok := e == ret // returned as it is
			if !ok {
				// success implies that it was nil
				s := t.Final.clone()
				ok = !(s.assume(mkEq(ret, mkNil()), true) && s.assume(mkEq(e, mkNil()), false))
			}
			if !ok {
				st := sites[e.ID]
				c.ob(rule, st.construct, false, st.where, shortName(root)+" may succeed although "+st.name+" failed")
			}
		}
	})
}

func shortCall(e *Event) string {
	n := e.Name
	if i := strings.LastIndex(n, "/"); i >= 0 {
		p := n[:i]
		j := strings.LastIndexAny(p, "(*")
		n = p[:j+1] + n[i+1:]
	}
	return n
}

// neverFails: writes that are documented to return no error.
func neverFails(name string) bool {
	for _, p := range []string{"(*strings.Builder).Write", "(*bytes.Buffer).Write", "(hash.Hash).Write"} {
		if strings.HasPrefix(name, p) {
			return name != "(*bytes.Buffer).WriteTo"
		}
	}
	return false
}
