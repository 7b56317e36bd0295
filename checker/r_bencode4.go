package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isParse(name string) bool {
	return name == "strconv.Atoi" || name == "strconv.ParseInt" || name == "strconv.ParseUint"
}

// parsedFrom: the strconv call a term is the value of.
func parsedFrom(t *Term) (name string, err *Term) {
	for t != nil && t.Op == "conv" {
		t = t.Args[0]
	}
	if t == nil || t.Op != "app" || !strings.HasPrefix(t.S, "strconv.") || !strings.HasSuffix(t.S, "#0") {
		return "", nil
	}
	n := strings.TrimSuffix(t.S, "#0")
	if !isParse(n) {
		return "", nil
	}
	fn := t.Obj.(*types.Func)
	return n, mk("app", n+"#1", fn, fn.Type().(*types.Signature).Results().At(1).Type(), t.Args...)
}

func known(s *State, t *Term, val bool) bool {
	v, ok := s.query(t)
	return ok && v == val
}

// infeasible: the state contradicts all the conditions holding together.
func infeasible(s *State, conds ...*Term) bool {
	n := s.clone()
	for _, t := range conds {
		if !n.assume(t, true) {
			return true
		}
	}
	// disequalities may need the integer domain
	for _, t := range conds {
		if v, ok := queryFacts(s.facts, t); ok && !v {
			return true
		}
	}
	return false
}

// lacksPrefix: the text was found not to start with the prefix.
func lacksPrefix(s *State, x *Term, prefix string) bool {
	for n := s.facts; n != nil; n = n.prev {
		if !n.val && appOf(n.t, "strings.HasPrefix") && n.t.Args[0] == x {
			if p, ok := n.t.Args[1].isStrConst(); ok && strings.HasPrefix(prefix, p) {
				return true
			}
		}
	}
	return false
}

func byteAt(x *Term, i int64) *Term {
	return elemTerm(x, i)
}

func init() {
	register("B02", "announced lengths do not drive memory use", func(c *C) {
		c.rule("allocation", 5, "no allocation is sized by a number that was parsed from the input, unless it was tested against a constant; memory grows with the data that arrives")
		for _, r := range c.decodeRoots() {
			c.walk(r, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone, Opaque: bencodeOpaque(r)}, func(s *State, e *Event) {
				var sizes []*Term
				switch e.Kind {
				case "mkslice", "mkchan":
					sizes = e.Args
				case "call":
					switch e.Name {
					case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "(reflect.Value).Grow", "(reflect.Value).SetLen", "slices.Grow", "strings.Repeat", "bytes.Repeat", "bufio.NewReaderSize", "(reflect.Value).SetCap":
						sizes = e.Args[1:]
					case "reflect.MakeSlice", "reflect.MakeMapWithSize", "reflect.ArrayOf":
						sizes = e.Args[1:]
					case "reflect.MakeChan":
						sizes = e.Args[1:]
					default:
						return
					}
				default:
					return
				}
				for _, z := range sizes {
					ok := true
					if z.T == nil || !isInt(z.T) {
						continue
					}
					for a := range sizeAtoms(z) {
						tainted := a.Op == "app" && (strings.HasPrefix(a.S, "strconv.") || strings.HasPrefix(a.S, "(encoding/binary.")) || (a.Op == "call" && strings.Contains(a.String(), "binary."))
						if !tainted {
							continue
						}
						if !entails(s.facts, polyAdd(&Poly{C: -(1 << 24)}, polyOf(z), 1)) {
							ok = false
						}
					}
					c.ob("allocation", fnName(e)+": "+allocName(e)+" "+stableSite(c, e), ok, e.pos(c.p), "an allocation of "+trunc(z.String(), 120)+" is sized by the input")
				}
			}, nil)
		}
	})

	register("B04", "only canonical bencode is accepted", func(c *C) {
		c.rule("integer-text", 3, "an integer is parsed in base 10 from text that starts with neither '+', nor a superfluous '0', nor '-0'")
		c.rule("length-text", 1, "a string length is parsed from text that cannot start with a sign")
		c.rule("exact-string", 1, "a string value is exactly as many bytes as were announced, all read without error")
		c.rule("key-order", 3, "a dictionary value is only read after its key was found to be greater than the key before it, for all keys but the first")
		c.rule("tested-value", 2, "the value of a number is only used after its parsing succeeded")
		capF, decF := c.decoderCuts()
		cuts := map[*ssa.Function]bool{}
		for _, f := range append(append([]*ssa.Function{}, capF...), decF...) {
			cuts[f] = true
		}
		if len(capF) == 0 || len(decF) == 0 {
			c.undecide("no recursive decoder functions found")
		}
		rs := c.minimalReaders()
		for _, f := range rs {
			c.canonicalDecoder(f)
		}
		// every place that parses a number is covered
		for _, f := range c.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && pkgOf(f) == "bencode" && isParse(qualName(calleeObj(ci.Common()))) && !c.parsed[in] {
						c.undecide("%s: a number is parsed outside the functions that read it", shortName(f))
					}
				}
			}
		}
		for f := range cuts {
			c.keyOrder(f, cuts)
		}
	})

	register("B07", "integers that do not fit are reported", func(c *C) {
		c.rule("overflow", 2, "an integer is only stored in a value after OverflowInt or OverflowUint of that value and integer was false")
		c.rule("same", 2, "the integer that is stored is the one that was parsed without an error, and has its sign")
		_, decF := c.decoderCuts()
		for _, f := range decF {
			c.walk(f, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone}, func(s *State, e *Event) {
				if e.Kind != "call" {
					return
				}
				var want string
				switch e.Name {
				case "(reflect.Value).SetInt":
					want = "OverflowInt"
				case "(reflect.Value).SetUint":
					want = "OverflowUint"
				default:
					return
				}
				ok := false
				for n := s.facts; n != nil; n = n.prev {
					if !n.val && n.t.Op == "app" && (strings.HasSuffix(n.t.S, "."+want) || strings.HasPrefix(n.t.S, want)) && n.t.Args[0] == e.Args[0] && n.t.Args[1] == e.Args[1] {
						ok = true
					}
				}
				c.ob("overflow", fnName(e)+": "+e.Name, ok, e.pos(c.p), "the integer is stored without having been found to fit")
				c.ob("same", fnName(e)+": "+e.Name, c.parsedAs(s, e.Args[1], want == "OverflowUint"), e.pos(c.p), "the integer that is stored may not be the one that was read: "+trunc(e.Args[1].String(), 80))
			}, nil)
		}
	})

	register("B08", "bencode errors are never lost", func(c *C) {
		c.rule("errors", 15, "when an encoding or decoding function succeeds, every call it made that can fail succeeded")
		roots := c.decodeRoots()
		roots = append(roots, c.encodeRoots()...)
		for _, r := range roots {
			c.noLostErrors("errors", r, errCfg{opaque: bencodeOpaque(r), exempt: func(e *Event) bool {
				// a bytes.Buffer's and strings.Builder's writes cannot fail
				if strings.HasPrefix(e.Name, "fmt.Fprint") && isBufferPtr(unconv(e.Args[0]).T) {
					return true
				}
				if strings.HasPrefix(e.Name, "(*bytes.Buffer).Write") || strings.HasPrefix(e.Name, "(*strings.Builder).Write") {
					return true
				}
				// a number may be parsed in more than one way (see B04)
				return isParse(e.Name)
			}})
		}
	})
}

// parsedAs: v is an integer that was parsed, with the same value in a signed or
// unsigned type.
func (c *C) parsedAs(s *State, v *Term, unsigned bool) bool {
	name, err := parsedFrom(v)
	if name == "" || err == nil || !isNilNow(s, err) {
		return false
	}
	if signed := name != "strconv.ParseUint"; signed != unsigned {
		return true
	}
	for v.Op == "conv" {
		v = v.Args[0]
	}
	if unsigned {
		return entails(s.facts, polyNeg(polyOf(v)))
	}
	if n, known := v.Args[2].isIntConst(); known && n < 64 && n > 0 {
		return true
	}
	return entails(s.facts, polySub(polyOf(v), polyConst(math.MaxInt64)))
}

// sizeAtoms: the terms a size is computed from; the length of data that is
// already there stands for itself.
func sizeAtoms(z *Term) map[*Term]bool {
	out := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || out[t] || t.Op == "len" || t.Op == "cap" {
			return
		}
		out[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		if t.P != nil {
			for _, m := range t.P.Ms {
				for _, a := range m.Atoms {
					rec(a)
				}
			}
		}
	}
	rec(z)
	return out
}

func allocName(e *Event) string {
	if e.Kind == "call" {
		return shortCall(e)
	}
	return e.Kind
}

func elemTerm(x *Term, i int64) *Term {
	if e := elemOf(x, mkInt(i, types.Typ[types.Int])); e != nil {
		return e
	}
	return mkStrIdx(x, mkInt(i, types.Typ[types.Int]), types.Typ[types.Uint8])
}

// canonicalDecoder checks one function that reads a number.
func (c *C) canonicalDecoder(f *ssa.Function) {
	bytesOf := map[*Term]*Term{}
	copied := map[*Term]*Term{} // buffer -> announced length
	copyErr := map[*Term]*Term{}
	c.walk(f, Opts{}, func(s *State, e *Event) {
		switch e.Kind {
		case "call":
			switch {
			case e.Name == "(*bufio.Reader).ReadString" || e.Name == "(*bufio.Reader).ReadBytes" || e.Name == "(*bufio.Reader).ReadSlice":
				if d, ok := e.Args[1].isIntConst(); ok {
					delimOf[e.Res[0]] = d
				}
			case isParse(e.Name):
				x := e.Args[0]
				c.parsed[e.In] = true
				is := func(i int64, b byte) *Term {
					return boolTerm(condEq0(polyAdd(polyOf(byteAt(x, i)), polyOf(mkInt(int64(b), nil)), -1)))
				}
				longer := func(n int64) *Term { // len(x) > n
					return boolTerm(condLe0(polyAdd(&Poly{C: n + 1}, polyOf(mkLen(x)), -1)))
				}
				excluded := func(prefix string, conds ...*Term) bool {
					return infeasible(s, conds...) || lacksPrefix(s, x, prefix)
				}
				kind := "integer-text"
				if lengthText(x) {
					kind = "length-text"
				}
				ok, why := true, ""
				if by := alteredBy(x); by != "" {
					ok, why = false, "the text is not what was read but what "+by+" left of it"
				}
				if e.Name != "strconv.Atoi" {
					if b, isC := e.Args[1].isIntConst(); !isC || b != 10 {
						ok, why = false, "the base is "+e.Args[1].String()
					}
					if b, isC := e.Args[2].isIntConst(); !isC || b != 64 && b != 0 {
						ok, why = false, "the size is "+e.Args[2].String()
					}
				}
				if e.Name != "strconv.ParseUint" && !excluded("+", longer(0), is(0, '+')) {
					ok, why = false, "the text may start with '+'"
				}
				if kind == "length-text" {
					if e.Name != "strconv.ParseUint" && !excluded("-", longer(0), is(0, '-')) {
						ok, why = false, "the text may start with '-'"
					}
				} else {
					if !excluded("0", longer(1), is(0, '0')) {
						ok, why = false, "the text may start with a superfluous '0'"
					}
					if !excluded("-0", longer(1), is(0, '-'), is(1, '0')) {
						ok, why = false, "the text may start with '-0'"
					}
				}
				c.ob(kind, fnName(e)+": "+e.Name, ok, e.pos(c.p), why)
			case e.Name == "(*bytes.Buffer).Bytes" || e.Name == "(*bytes.Buffer).String":
				bytesOf[e.Res[0]] = e.Args[0]
			case e.Name == "io.CopyN":
				b := unconv(e.Args[0])
				copied[b], copyErr[b] = e.Args[2], e.Res[1]
				c.testedValue(s, e, e.Args[2])
			case e.Name == "io.ReadFull":
				b := rootOf(e.Args[1])
				copied[b], copyErr[b] = mkLen(e.Args[1]), e.Res[1]
			case e.Name == "(reflect.Value).SetInt" || e.Name == "(reflect.Value).SetUint":
				c.testedValue(s, e, e.Args[1])
			case e.Name == "(reflect.Value).SetBytes" || e.Name == "(reflect.Value).SetString":
				v := unconv(e.Args[1])
				b := contentOf(bytesOf, v)
				n := copied[b]
				ok := n != nil && known(s, mkEq(copyErr[b], mkNil()), true)
				why := "the string stored is not what was read"
				if ok {
					if name, err := parsedFrom(n); name == "" || !known(s, mkEq(err, mkNil()), true) {
						ok, why = false, "the number of bytes read is not the length announced"
					}
				}
				c.ob("exact-string", fnName(e)+": "+e.Name, ok, e.pos(c.p), why)
			}
		}
	}, nil)
}

// testedValue: a parsed number is used after its parsing succeeded.
func (c *C) testedValue(s *State, e *Event, v *Term) {
	name, err := parsedFrom(v)
	if name == "" {
		c.ob("tested-value", fnName(e)+": "+shortCall(e), false, e.pos(c.p), "the number is not the result of parsing the input: "+trunc(v.String(), 80))
		return
	}
	c.ob("tested-value", fnName(e)+": "+shortCall(e), known(s, mkEq(err, mkNil()), true), e.pos(c.p), "the number is used although its parsing may have failed")
}

// lengthText: text read up to a ':' is a string's length.
func lengthText(x *Term) bool {
	return x.any(func(t *Term) bool { return delimOf[t] == ':' })
}

var delimOf = map[*Term]int64{}

// keyOrder: the loop that reads dictionary entries compares each key with the
// one before it. Aux is "k<buffer>" after a key was read in this iteration and
// "ok..." once it was found to be in order.
func (c *C) keyOrder(f *ssa.Function, cuts map[*ssa.Function]bool) {
	bytesOf := map[*Term]*Term{}
	strOf := map[*Term]*Term{} // reflect value -> the string it was set to
	type need struct {
		carried          *Term // loop-carried term
		last             bool  // holds the last key (or else admits any key)
		construct, where string
	}
	type back struct {
		at     ssa.Instruction
		value  func(t *Term) *Term
		isTrue func(t *Term) (bool, bool)
		buf    *Term
	}
	roles := map[string]*need{}
	roleAt := map[string]ssa.Instruction{}
	var backs []back
	loopOf := func(s *State) (ssa.Instruction, *loopInfo) {
		for i := len(s.frames) - 1; i >= 0; i-- {
			fr := s.frames[i]
			best := -1
			for h, li := range fr.loops {
				if li.generic && w_loops(s.w, fr.fn)[h][fr.b.Index] && (best < 0 || h > best) {
					best = h
				}
			}
			if best >= 0 {
				return fr.fn.Blocks[best].Instrs[0], fr.loops[best]
			}
		}
		return nil, nil
	}
	isKey := func(k, buf *Term) bool {
		k = unconv(k)
		if contentOf(bytesOf, k) == buf {
			return true
		}
		if k.Op == "app" && (strings.HasPrefix(k.S, "String") || strings.HasSuffix(k.S, ".String")) && len(k.Args) == 1 {
			if v := strOf[k.Args[0]]; v != nil && contentOf(bytesOf, unconv(v)) == buf {
				return true
			}
		}
		return false
	}
	c.walk(f, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone}, func(s *State, e *Event) {
		switch e.Kind {
		case "call":
			switch {
			case e.Name == "(*bytes.Buffer).Bytes" || e.Name == "(*bytes.Buffer).String":
				bytesOf[e.Res[0]] = e.Args[0]
			case e.Name == "(reflect.Value).SetString" || e.Name == "(reflect.Value).SetBytes":
				strOf[e.Args[0]] = e.Args[1]
			case (e.Name == "io.CopyN" || e.Name == "io.ReadFull"):
				at, _ := loopOf(s)
				if at == nil {
					return
				}
				if e.Name == "io.CopyN" {
					s.aux = "k" + tokID(unconv(e.Args[0]))
				} else {
					s.aux = "k" + tokID(rootOf(e.Args[1]))
				}
			case e.SFn != nil && cuts[e.SFn]:
				if s.aux == "" {
					return
				}
				c.ob("key-order", fnName(e)+": value read at "+stableSite(c, e), strings.HasPrefix(s.aux, "ok"), e.pos(c.p), "a dictionary value is read although its key may not be greater than the one before it")
			}
		case "branch":
			if !strings.HasPrefix(s.aux, "k") {
				return
			}
			buf := tokTerms[atoiOr(s.aux[1:])]
			at, li := loopOf(s)
			if at == nil {
				return
			}
			if li.iter != nil && entails(s.facts, polyOf(li.iter)) {
				s.aux = "ok" + tokID(buf)
				return
			}
			for n := s.facts; n != nil; n = n.prev {
				if !n.val {
					continue
				}
				switch {
				case n.t.Op == "lt" && isKey(n.t.Args[1], buf) && loopCarried(n.t.Args[0], at):
					key := fmt.Sprintf("p%d", n.t.Args[0].ID)
					roles[key] = &need{n.t.Args[0], true, fnName(e) + ": last key", e.pos(c.p)}
					roleAt[key] = at
					s.aux = "ok" + tokID(buf)
				case isBoolT(n.t.T) && loopCarried(n.t, at):
					key := fmt.Sprintf("f%d", n.t.ID)
					if roles[key] == nil {
						roles[key] = &need{n.t, false, fnName(e) + ": first-key flag", e.pos(c.p)}
						roleAt[key] = at
					}
					s.aux = "ok" + tokID(buf)
				}
			}
		case "rearrive":
			if s.aux != "" {
				st, fr := s.clone(), s.top()
				from := fr.b
				in := e.In
				backs = append(backs, back{in, func(t *Term) *Term { return carriedValue(st, fr, from, in.Block(), t) }, st.query, tokTerms[atoiOr(strings.TrimLeft(s.aux, "ok"))]})
			}
			s.aux = e.Name
		}
	}, nil)
	for k, r := range roles {
		for _, b := range backs {
			if b.at != roleAt[k] {
				continue
			}
			v := b.value(r.carried)
			if r.last {
				c.ob("key-order", r.construct, v != nil && b.buf != nil && isKey(v, b.buf), r.where, fmt.Sprint("the next iteration compares with ", v, " instead of this iteration's key"))
			} else {
				bv, isC := false, false
				if v != nil {
					bv, isC = b.isTrue(v)
				}
				c.ob("key-order", r.construct, isC && !bv, r.where, fmt.Sprint("the flag that admits any key is ", v, " in the next iteration"))
			}
		}
	}
}

func w_loops(w *Walker, fn *ssa.Function) map[int]map[int]bool { return w.loops(fn) }

// loopCarried: a value that the loop at in hands from one iteration to the next.
func loopCarried(t *Term, at ssa.Instruction) bool {
	switch t.Op {
	case "phi":
		ph, ok := t.Obj.(*ssa.Phi)
		return ok && ph.Block() == at.Block()
	case "init", "mphi":
		return true
	}
	return false
}

// carriedValue: what a loop-carried term becomes over a back edge.
func carriedValue(s *State, fr *Frame, from, head *ssa.BasicBlock, t *Term) *Term {
	switch t.Op {
	case "phi":
		ph := t.Obj.(*ssa.Phi)
		for i, p := range head.Preds {
			if p == from {
				return s.valIn(fr, ph.Edges[i])
			}
		}
	case "mphi":
		return s.load(t.Args[1], t.T)
	case "init":
		return s.load(t.Args[0], t.T)
	}
	return nil
}

// minimalReaders: the smallest functions that both read input and parse
// numbers.
func (c *C) minimalReaders() []*ssa.Function {
	var fns []*ssa.Function
	calls := map[*ssa.Function][]*ssa.Function{}
	reads, parses, stores := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for _, f := range c.p.Funcs {
		if pkgOf(f) != "bencode" || len(f.Blocks) == 0 {
			continue
		}
		fns = append(fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && pkgOf(g) == "bencode" && len(g.Blocks) > 0 {
					calls[f] = append(calls[f], g)
				}
				n := qualName(calleeObj(ci.Common()))
				reads[f] = reads[f] || strings.HasPrefix(n, "(*bufio.Reader).Read")
				parses[f] = parses[f] || isParse(n)
				stores[f] = stores[f] || n == "(reflect.Value).SetString" || n == "(reflect.Value).SetBytes"
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range fns {
			for _, g := range calls[f] {
				if reads[g] && !reads[f] || parses[g] && !parses[f] {
					reads[f], parses[f] = reads[f] || reads[g], parses[f] || parses[g]
					changed = true
				}
			}
		}
	}
	var out []*ssa.Function
	for _, f := range fns {
		if !reads[f] || !parses[f] {
			continue
		}
		minimal := true
		for _, g := range calls[f] {
			if reads[g] && parses[g] && g != f {
				minimal = false
			}
		}
		if minimal || stores[f] {
			out = append(out, f)
		}
	}
	return out
}

// alteredBy: the text was changed after it was read, by more than taking the
// delimiter off.
func alteredBy(x *Term) string {
	for t := range atomsOf(x) {
		n := callName(t)
		f, ok := strings.CutPrefix(n, "strings.")
		if !ok {
			if f, ok = strings.CutPrefix(n, "bytes."); !ok {
				continue
			}
		}
		switch f {
		case "Trim", "TrimRight", "TrimSuffix":
			if len(t.Args) == 2 {
				if c, ok := t.Args[1].isStrConst(); ok && (c == ":" || c == "e") {
					continue
				}
			}
			return n
		case "TrimSpace", "TrimLeft", "TrimFunc", "TrimLeftFunc", "TrimRightFunc", "TrimPrefix", "Replace", "ReplaceAll", "Fields", "Map", "ToLower", "ToUpper", "ToValidUTF8":
			return n
		}
	}
	return ""
}
