package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isWriterIface(t types.Type) bool { return t != nil && t.String() == "io.Writer" }

// encoderCuts: the encoder's recursive functions.
func (c *C) encoderCuts() []*ssa.Function {
	var r []*ssa.Function
	for f := range c.p.recursionCut() {
		if pkgOf(f) == "bencode" && strings.Contains(shortName(f), "Encoder") {
			r = append(r, f)
		}
	}
	return r
}

// The encoder's output on one path, reduced by the grammar
//
//	value = "i" decimal "e" | string | "l" value* "e" | "d" (string value)* "e"
//	string = decimal(len(x)) ":" x
//
// to a stack of open parts. Aux holds the stack: L and D are open containers,
// K is a key waiting for its value, V a complete value; other entries are the
// terms written.
type encStack struct {
	items []string // "L", "D", "K<key term>", "V" or a term id
}

func parseStack(aux string) *encStack {
	s := &encStack{}
	for _, p := range strings.Split(aux, ",") {
		if p != "" {
			s.items = append(s.items, p)
		}
	}
	return s
}

func (x *encStack) String() string { return strings.Join(x.items, ",") }

func (x *encStack) text() string {
	var ss []string
	for _, i := range x.items {
		if t := tokTerms[atoiOr(i)]; t != nil {
			ss = append(ss, tokString([]*Term{t}))
		} else {
			ss = append(ss, i)
		}
	}
	return strings.Join(ss, " ")
}

func (x *encStack) top(n int) string {
	if len(x.items) < n {
		return ""
	}
	return x.items[len(x.items)-n]
}

func (x *encStack) pop(n int) { x.items = x.items[:len(x.items)-n] }

func (x *encStack) isByte(n int, b byte) bool {
	t := tokTerms[atoiOr(x.top(n))]
	if t == nil {
		return false
	}
	c, ok := t.isIntConst()
	return ok && c == int64(b) && (t.T == nil || isInt(t.T))
}

func (x *encStack) term(n int) *Term { return tokTerms[atoiOr(x.top(n))] }

func decimalOf(t *Term) *Term {
	if t == nil || t.Op != "app" || t.S != "strconv.FormatInt" && t.S != "strconv.FormatUint" {
		return nil
	}
	if b, ok := t.Args[1].isIntConst(); !ok || b != 10 {
		return nil
	}
	return t.Args[0]
}

// reduce applies the grammar at the top of the stack.
func (x *encStack) reduce() {
	for {
		switch {
		case x.top(1) == "V" && (x.top(2) == "L" || strings.HasPrefix(x.top(2), "K")):
			if x.top(2) == "L" {
				x.pop(1)
			} else {
				x.pop(2)
			}
		case x.top(1) != "V" && x.isByte(1, 'e') && (x.top(2) == "L" || x.top(2) == "D"):
			x.pop(2)
			x.items = append(x.items, "V")
		case x.isByte(1, 'e') && x.isByte(3, 'i') && decimalOf(x.term(2)) != nil:
			d := decimalOf(x.term(2))
			if d.Op == "app" && (strings.HasPrefix(d.S, "Int") || strings.HasPrefix(d.S, "Uint") || strings.Contains(d.S, "Value).Int") || strings.Contains(d.S, "Value).Uint")) {
				unsigned := strings.Contains(d.S, "Uint")
				if unsigned != (x.term(2).S == "strconv.FormatUint") {
					return
				}
				x.pop(3)
				x.items = append(x.items, "V")
				continue
			}
			return
		case x.isByte(2, ':') && x.term(1) != nil && decimalOf(x.term(3)) != nil:
			d := decimalOf(x.term(3))
			if d != mkLen(x.term(1)) {
				return
			}
			k := x.top(1)
			x.pop(3)
			if x.top(1) == "D" {
				x.items = append(x.items, "K"+k)
			} else {
				x.items = append(x.items, "V")
			}
		case x.isByte(1, 'l') && (len(x.items) == 1):
			x.pop(1)
			x.items = append(x.items, "L")
		case x.isByte(1, 'd') && (len(x.items) == 1):
			x.pop(1)
			x.items = append(x.items, "D")
		default:
			return
		}
	}
}

// noVer: the term without the points in time its memory was read at.
func noVer(t *Term) *Term {
	if t == nil || len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = noVer(a)
	}
	v := t.S
	if t.Op == "init" {
		v = ""
	}
	return mk(t.Op, v, t.Obj, t.T, args...)
}

// match: pat with every occurrence of hole replaced by some one term is t.
func matchHole(pat, hole, t *Term, bind **Term) bool {
	if pat == hole {
		if *bind == nil {
			*bind = t
		}
		return *bind == t
	}
	if pat == t {
		return true
	}
	if pat == nil || t == nil || pat.Op != t.Op || pat.S != t.S || pat.Obj != t.Obj || len(pat.Args) != len(t.Args) || len(pat.Args) == 0 {
		return false
	}
	for i := range pat.Args {
		if !matchHole(pat.Args[i], hole, t.Args[i], bind) {
			return false
		}
	}
	return true
}

// canonicalEncoder checks one recursive encoder function.
func (c *C) canonicalEncoder(f *ssa.Function, cuts map[*ssa.Function]bool) {
	pt, ok := f.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		c.undecide("%s: unexpected receiver", shortName(f))
		return
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		c.undecide("%s: unexpected receiver", shortName(f))
		return
	}
	var wf *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if isWriterIface(st.Field(i).Type()) {
			wf = originField(st.Field(i))
		}
	}
	if wf == nil {
		c.undecide("%s: no writer field", shortName(f))
		return
	}
	type sorted struct{ pat, hole *Term }
	sorts := map[ssa.Instruction]*sorted{} // call that sorts -> comparison key
	lists := map[ssa.Instruction]map[*Term]bool{}
	cbAt := map[*ssa.Function]ssa.Instruction{} // comparator -> call that sorts
	stored := map[*types.Var][]*Term{}          // lists kept in a field
	type keyUse struct {
		key              *Term
		construct, where string
	}
	var pend []keyUse
	bytesOf := map[*Term]*Term{} // Bytes() -> buffer
	lenOf := map[*Term][]*Term{} // buffer -> Len() results
	buffered := map[*Term]bool{} // buffers that nested encodings were written to
	var self, w0 *Term
	fail := func(e *Event, what, why string) {
		k := fnName(e) + ": " + what
		c.ob("grammar", k, false, e.pos(c.p), why)
	}
	c.walk(f, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone, Preserve: map[*types.Var]bool{wf: true}, Assume: func(s *State, fr *Frame) {
		self = fr.env[f.Params[0]]
		w0 = s.load(mkFaddr(self, wf), wf.Type())
		s.store(mkFaddr(self, wf), w0, wf.Type())
	}}, func(s *State, e *Event) {
		st := parseStack(s.aux)
		emit := func(w, v *Term) {
			if unconv(w) != unconv(w0) {
				if b := unconv(w); b.Op == "alloc" {
					fail(e, "raw write to a temporary buffer "+stableSite(c, e), "only whole nested values go to a temporary buffer")
				} else {
					fail(e, "write to another writer "+stableSite(c, e), "a write goes to "+w.String())
				}
				return
			}
			v = unconv(v)
			if b := bytesOf[v]; b != nil && buffered[b] {
				// a nested value, known not to be empty
				nonEmpty := false
				for _, l := range lenOf[b] {
					k, known := s.query(boolTerm(condEq0(polyOf(l))))
					nonEmpty = nonEmpty || known && !k
				}
				if !nonEmpty {
					fail(e, "nested value that may be empty "+stableSite(c, e), "a key is written for a value that may have no encoding")
				}
				st.items = append(st.items, "V")
				st.reduce()
			} else if (v.Op == "call" || v.Op == "app") && strings.Contains(v.String(), "MarshalBencoding") {
				st.items = append(st.items, "V")
				st.reduce()
			} else {
				for _, t := range byteTokens(v) {
					st.items = append(st.items, tokID(t))
					st.reduce()
				}
			}
			s.aux = st.String()
			c.ob("grammar", fnName(e)+": write "+stableSite(c, e), true, e.pos(c.p), "")
		}
		switch e.Kind {
		case "store":
			if e.Field != nil {
				if _, ok := e.Field.Type().Underlying().(*types.Slice); ok {
					stored[e.Field] = append(stored[e.Field], unconv(e.Val))
				}
			}
		case "call":
			switch {
			case e.Name == "(io.Writer).Write" || e.Name == "io.WriteString" || e.Name == "(io.StringWriter).WriteString" || e.Name == "(io.ByteWriter).WriteByte":
				emit(e.Args[0], e.Args[1])
			case strings.HasPrefix(e.Name, "(*bytes.Buffer).Write"):
				emit(e.Args[0], e.Args[1])
			case e.Name == "fmt.Fprintf":
				ts, ok := fmtTokens(e.Args[1], e.Args[2])
				if !ok {
					fail(e, "formatted output "+stableSite(c, e), "output through fmt is not recognised as canonical")
					break
				}
				emit(e.Args[0], mk("list", "", nil, types.NewSlice(types.Typ[types.Byte]), ts...))
			case e.Name == "fmt.Fprint" || e.Name == "fmt.Fprintln":
				fail(e, "formatted output "+stableSite(c, e), "output through fmt is not recognised as canonical")
			case strings.HasPrefix(e.Name, "slices.Sort") || strings.HasPrefix(e.Name, "sort.Slice"):
				if lists[e.In] == nil {
					lists[e.In] = map[*Term]bool{}
				}
				lists[e.In][unconv(e.Args[0])] = true
			case e.Name == "(*bytes.Buffer).Bytes" || e.Name == "(*bytes.Buffer).String":
				bytesOf[e.Res[0]] = e.Args[0]
			case e.Name == "(*bytes.Buffer).Len":
				lenOf[e.Args[0]] = append(lenOf[e.Args[0]], e.Res[0])
			case e.SFn != nil && cuts[e.SFn]:
				w := s.load(mkFaddr(e.Args[0], wf), wf.Type())
				if unconv(w) == unconv(w0) {
					st.items = append(st.items, "V")
					st.reduce()
					s.aux = st.String()
					c.ob("grammar", fnName(e)+": nested value "+stableSite(c, e), e.Args[0] == self, e.pos(c.p), "a nested value is written through another encoder")
				} else if b := unconv(w); b.Op == "alloc" && isBufferPtr(b.T) {
					buffered[b] = true
					c.ob("grammar", fnName(e)+": nested value "+stableSite(c, e), true, e.pos(c.p), "")
				} else {
					fail(e, "nested value "+stableSite(c, e), "a nested value is written to "+w.String())
				}
			}
			// keys in the order of a sorted list
			if k := st.top(1); strings.HasPrefix(k, "K") && (e.Name == "io.WriteString" || e.Name == "fmt.Fprintf" || strings.HasSuffix(e.Name, ".Write")) {
				pend = append(pend, keyUse{tokTerms[atoiOr(k[1:])], fnName(e) + ": dictionary key " + stableSite(c, e), e.pos(c.p)})
			}
		case "thread":
			if strings.HasPrefix(e.Name, "callback:s") && e.SFn != nil {
				cbAt[e.SFn] = e.In
			}
		case "rearrive":
			if e.Name != s.aux {
				fail(e, "loop", "an iteration leaves the output with an unfinished part: "+st.text())
			}
		}
	}, func(t *Trace) {
		if t.End != "return" {
			return
		}
		if len(t.Ret) == 1 && !isErrorType(t.Ret[0].T) && t.Ret[0].Op != "nil" {
			r := t.Ret[0]
			if r.Op == "cmp3" || r.Op == "lt" {
				// key(a) compared with key(b), in this order
				c.sortKey(r, func(pat, hole *Term) {
					if pa, ok := hole.Obj.(*ssa.Parameter); ok && cbAt[pa.Parent()] != nil {
						sorts[cbAt[pa.Parent()]] = &sorted{pat, hole}
					}
				})
			}
			return
		}
		w := t.Final.load(mkFaddr(self, wf), wf.Type())
		c.ob("writer-restored", shortName(f)+": writer restored", unconv(w) == unconv(w0), c.p.pos(f.Pos()), "the encoder returns with its writer replaced")
		if !succeeds(t) {
			return
		}
		x := parseStack(t.Final.aux)
		ok := len(x.items) == 0 || len(x.items) == 1 && x.items[0] == "V"
		c.ob("grammar", shortName(f)+": complete value on return", ok, c.p.pos(f.Pos()), "success is returned after writing "+x.text())
	})
	for _, u := range pend {
		ok := false
		for at, so := range sorts {
			var el *Term
			if matchHole(so.pat, so.hole, u.key, &el) && el != nil && elementOf(el, lists[at]) {
				ok = true
			}
			if isInt(so.hole.T) {
				// the comparator is given indices
				if el = nil; matchHole(noVer(so.pat), so.hole, noVer(u.key), &el) && el != nil && so.pat.any(func(t *Term) bool { return t.Op == "iaddr" && t.Args[1] == so.hole && lists[at][unconv(t.Args[0])] }) {
					ok = true
				}
				continue
			}
			// an element of a list that was kept in a field after sorting
			for fv, ls := range stored {
				all := el != nil
				for _, l := range ls {
					all = all && lists[at][l]
				}
				if all && el.any(func(t *Term) bool {
					return (t.Op == "faddr" || t.Op == "fval") && t.Obj == types.Object(fv)
				}) {
					ok = true
				}
			}
		}
		c.ob("key-order", u.construct, ok, u.where, "the key "+trunc(u.key.String(), 80)+" is not that of an element of a list sorted by key")
	}
	if len(sorts) == 0 {
		c.undecide("%s: no sorting of keys found", shortName(f))
	}
	c.notes["key orders found"] += len(sorts)
	_ = fmt.Sprint
}

// sortKey: a comparator's result compares the same key of its two arguments.
func (c *C) sortKey(r *Term, found func(pat, hole *Term)) {
	a, b := r.Args[0], r.Args[1]
	var ha, hb *Term
	a.any(func(t *Term) bool {
		if t.Op == "cbarg" && strings.HasSuffix(t.S, ".0") {
			ha = t
		}
		return false
	})
	b.any(func(t *Term) bool {
		if t.Op == "cbarg" && strings.HasSuffix(t.S, ".1") {
			hb = t
		}
		return false
	})
	if ha == nil || hb == nil {
		return
	}
	var bind *Term
	if matchHole(a, ha, b, &bind) && bind == hb {
		found(a, ha)
	}
}

// elementOf: el is an element read from list.
func elementOf(el *Term, lists map[*Term]bool) bool {
	return el.any(func(t *Term) bool { return lists[t] })
}

func init() {
	register("B05", "encoded output is canonical", func(c *C) {
		c.rule("grammar", 8, "on every path the encoder's writes form complete bencode values; string prefixes are the decimal length of what follows; every key has a value")
		c.rule("key-order", 1, "dictionary keys are written in the order of a list sorted by those keys, ascending")
		c.rule("writer-restored", 1, "the encoder's writer is the same on return as on entry")
		cuts := map[*ssa.Function]bool{}
		for _, f := range c.encoderCuts() {
			cuts[f] = true
		}
		if len(cuts) == 0 {
			c.undecide("no recursive encoder function found")
		}
		for f := range cuts {
			c.canonicalEncoder(f, cuts)
		}
	})
}
