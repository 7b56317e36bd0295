package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isBufferPtr(t types.Type) bool { return t != nil && t.String() == "*bytes.Buffer" }

// decoderCuts: the decoder's recursive functions; captures are those that are
// handed the buffer that what they consume is copied to.
func (c *C) decoderCuts() (captures, decodes []*ssa.Function) {
	for f := range c.p.recursionCut() {
		if pkgOf(f) != "bencode" || !strings.Contains(shortName(f), "Decoder") {
			continue
		}
		cap := false
		for _, p := range f.Params {
			cap = cap || isBufferPtr(p.Type())
		}
		if cap {
			captures = append(captures, f)
		} else {
			decodes = append(decodes, f)
		}
	}
	return
}

func bufferParam(f *ssa.Function) int {
	for i, p := range f.Params {
		if isBufferPtr(p.Type()) {
			return i
		}
	}
	return -1
}

// succeeds: the function's error result is nil on this path (or it has none).
func succeeds(t *Trace) bool {
	if len(t.Ret) == 0 {
		return true
	}
	r := t.Ret[len(t.Ret)-1]
	if t.Root != nil && t.Root.Signature.Results().Len() == len(t.Ret) {
		if !isErrorType(t.Root.Signature.Results().At(len(t.Ret) - 1).Type()) {
			return true
		}
	} else if r.T != nil && !isErrorType(r.T) && r.Op != "nil" {
		return true
	}
	v, known := t.Final.query(mkEq(r, mkNil()))
	return !known || v
}

func (c *C) rawCapture(f *ssa.Function, caps map[*ssa.Function]bool) {
	bp := bufferParam(f)
	var buf *Term
	bytesOf := map[*Term]*Term{}
	fail := func(e *Event, what string) {
		k := fnName(e) + ": " + what
		c.ob("capture", k, false, e.pos(c.p), "what is written to the capture differs from what was consumed")
	}
	n := 0
	w := c.walk(f, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone, Assume: func(s *State, fr *Frame) {
		buf = fr.env[f.Params[bp]]
		s.assume(mkEq(buf, mkNil()), false)
	}}, func(s *State, e *Event) {
		pend := tokList(s.aux)
		switch e.Kind {
		case "call":
			switch e.Name {
			case "(*bufio.Reader).ReadByte":
				pend = append(pend, e.Res[0])
			case "(*bufio.Reader).UnreadByte":
				if len(pend) == 0 || !isInt(pend[len(pend)-1].T) {
					fail(e, "unread of a byte already captured")
					return
				}
				pend = pend[:len(pend)-1]
			case "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadSlice":
				r := e.Res[0]
				// a successful read ends in the delimiter
				body := mk("slice", "", nil, r.T, r, nil, mkSub(mkLen(r), mkInt(1, nil), types.Typ[types.Int]), nil)
				pend = append(pend, body, e.Args[1])
			case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
				bytesOf[e.Res[0]] = e.Args[0]
				return
			case "io.CopyN", "io.Copy":
				pend = append(pend, mk("content", "", nil, nil, unconv(e.Args[0])))
			case "io.ReadFull", "(*bufio.Reader).Read", "io.ReadAtLeast":
				pend = append(pend, mk("content", "", nil, nil, rootOf(e.Args[1])))
			case "(*bufio.Reader).Discard", "(*bufio.Reader).ReadRune", "(*bufio.Reader).ReadLine", "io.ReadAll":
				fail(e, "input consumed by "+e.Name+" is not captured")
				return
			case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "fmt.Fprintf":
				if unconv(e.Args[0]) != buf {
					return
				}
				n++
				ts := byteTokens(e.Args[1])
				if e.Name == "fmt.Fprintf" {
					if l, ok := fmtTokens(e.Args[1], e.Args[2]); ok {
						ts = l
					}
				}
				for _, x := range ts {
					if len(pend) == 0 {
						fail(e, "writes bytes that were not consumed")
						return
					}
					y := pend[0]
					ok := sameBytes(s, x, y) || y.Op == "content" && contentOf(bytesOf, x) == y.Args[0]
					if !ok && y.Op == "slice" && len(pend) > 1 && (x == y.Args[0] || x.Op == "slice" && x.Args[0] == y.Args[0]) {
						// the whole string, with its delimiter
						if x == y.Args[0] {
							pend = pend[1:]
							ok = true
						} else if h := x.Args[2]; x.Args[1] == nil && h != nil && polyTermEq(h, y.Args[2]) {
							ok = true
						}
					}
					if !ok {
						fail(e, "writes something else than was consumed")
						return
					}
					pend = pend[1:]
				}
				c.ob("capture", fnName(e)+": write "+stableSite(c, e), true, e.pos(c.p), "")
			default:
				if e.SFn != nil && caps[e.SFn] {
					ok := len(pend) == 0 && bufferParam(e.SFn) >= 0 && e.Args[bufferParam(e.SFn)] == buf
					c.ob("capture", shortName(f)+": nested value at "+fnName(e)+" "+stableSite(c, e), ok, e.pos(c.p), "a nested value is consumed before the bytes in front of it are captured, or without the capture")
					return
				}
				return
			}
		case "rearrive":
			if e.Name != s.aux {
				fail(e, "a loop iteration ends with consumed bytes that were not captured")
			}
			return
		default:
			return
		}
		s.aux = tokJoin(pend)
	}, func(t *Trace) {
		if t.End != "return" || !succeeds(t) {
			return
		}
		pend := tokList(t.Final.aux)
		c.ob("capture", shortName(f)+": everything captured on return", len(pend) == 0, c.p.pos(f.Pos()), "success is returned with consumed bytes that were not captured: "+tokString(pend))
	})
	_ = w
	c.notes["writes to the capture"] += n
	if n == 0 {
		c.undecide("%s: no write to the capture buffer", shortName(f))
	}
}

func polyTermEq(a, b *Term) bool {
	p := polyAdd(polyOf(a), polyOf(b), -1)
	return len(p.Ms) == 0 && p.C == 0
}

// contentOf: the buffer or slice a byte value holds the contents of.
func contentOf(bytesOf map[*Term]*Term, t *Term) *Term {
	t = unconv(t)
	if b := bytesOf[t]; b != nil {
		return b
	}
	return rootOf(t)
}

func init() {
	register("B03", "raw values are captured byte for byte", func(c *C) {
		c.rule("capture", 6, "bytes taken from the input are written to the capture in the same order, all of them, before the next value and before success")
		c.rule("hand-over", 1, "an Unmarshaler gets exactly the captured bytes of its value, after capturing succeeded")
		c.rule("raw", 2, "a RawMessage keeps and returns exactly its bytes")
		c.rule("info-hash", 1, "the info hash is the SHA-1 of exactly the bytes of the info dictionary and the last thing written")
		capF, decF := c.decoderCuts()
		caps := map[*ssa.Function]bool{}
		for _, f := range capF {
			caps[f] = true
		}
		if len(capF) == 0 {
			c.undecide("no capturing decoder function found")
		}
		for _, f := range capF {
			c.rawCapture(f, caps)
		}
		for _, f := range decF {
			got := map[*Term]*Term{}
			c.walk(f, Opts{OneIter: true, Merge: true, MergeMem: true, Keep: keepNone}, func(s *State, e *Event) {
				if e.Kind != "call" {
					return
				}
				switch {
				case e.SFn != nil && caps[e.SFn]:
					if b := e.Args[bufferParam(e.SFn)]; b.Op != "nil" {
						// an empty buffer, filled by this call alone
						s.aux = "cap:" + tokID(b) + ":" + tokID(e.Res[0])
					}
				case strings.HasPrefix(e.Name, "(*bytes.Buffer).") && len(e.Args) > 0 && strings.HasPrefix(s.aux, "cap:"+tokID(e.Args[0])+":"):
					if e.Name == "(*bytes.Buffer).Bytes" {
						got[e.Res[0]] = e.Args[0]
					} else if e.Name != "(*bytes.Buffer).Len" {
						s.aux = "changed"
					}
				case strings.HasSuffix(e.Name, "UnmarshalBencoding"):
					ok := false
					arg := e.Args[len(e.Args)-1]
					if p := strings.Split(s.aux, ":"); len(p) == 3 && p[0] == "cap" {
						b, err := tokTerms[atoiOr(p[1])], tokTerms[atoiOr(p[2])]
						v, known := s.query(mkEq(err, mkNil()))
						ok = known && v && contentOf(got, arg) == b
					}
					c.ob("hand-over", fnName(e)+": call of UnmarshalBencoding", ok, e.pos(c.p), "the argument "+trunc(arg.String(), 100)+" is not what was captured, or capturing may have failed")
				case e.Name == "(reflect.Value).Interface":
				}
			}, nil)
		}
		c.rawMessage()
		c.infoHash()
	})
}

func atoiOr(s string) int {
	n := 0
	for _, r := range s {
		if r < '0' || r > '9' {
			return -1
		}
		n = n*10 + int(r-'0')
	}
	return n
}

func (c *C) rawMessage() {
	um, ma := c.method("bencode", "RawMessage", "UnmarshalBencoding"), c.method("bencode", "RawMessage", "MarshalBencoding")
	if um == nil || ma == nil {
		return
	}
	var data, self *Term
	c.walk(um, Opts{Assume: func(s *State, fr *Frame) {
		self, data = fr.env[um.Params[0]], fr.env[um.Params[1]]
	}}, nil, func(t *Trace) {
		if t.End != "return" || !succeeds(t) {
			return
		}
		v := t.Final.load(self, self.T.Underlying().(*types.Pointer).Elem())
		ok := unconv(v) == data || copyOf(v, data)
		c.ob("raw", shortName(um), ok, c.p.pos(um.Pos()), "the value kept is "+v.String())
	})
	c.walk(ma, Opts{Assume: func(s *State, fr *Frame) { self = fr.env[ma.Params[0]] }}, nil, func(t *Trace) {
		if t.End != "return" || !succeeds(t) {
			return
		}
		et := self.T
		v := self
		if p, ok := et.Underlying().(*types.Pointer); ok {
			v = t.Final.load(self, p.Elem())
		}
		c.ob("raw", shortName(ma), sameValue(t.Ret[0], v), c.p.pos(ma.Pos()), "the value returned is "+t.Ret[0].String())
	})
}

func sameValue(a, b *Term) bool {
	strip := func(t *Term) *Term {
		for t.Op == "conv" && len(t.Args) == 1 {
			t = t.Args[0]
		}
		return unconv(t)
	}
	a, b = strip(a), strip(b)
	return a == b || copyOf(a, b)
}

// copyOf: a fresh slice with the same contents.
func copyOf(v, of *Term) bool {
	v = unconv(v)
	if v.Op == "app" && (v.S == "bytes.Clone" || v.S == "slices.Clone") {
		return unconv(v.Args[0]) == unconv(of)
	}
	if v.Op == "concat" && len(v.Args) == 1 {
		return unconv(v.Args[0]) == unconv(of)
	}
	return false
}

func (c *C) infoHash() {
	f := c.method("api/metainfo", "Info", "UnmarshalBencoding")
	sha := c.field("api/metainfo", "Info", "SHA1", func(t types.Type) bool {
		a, ok := t.Underlying().(*types.Array)
		return ok && a.Len() == 20
	})
	if f == nil || sha == nil {
		return
	}
	var self, data *Term
	c.walk(f, Opts{Opaque: func(fn *ssa.Function) bool { return pkgOf(fn) == "bencode" }, Assume: func(s *State, fr *Frame) {
		self, data = fr.env[f.Params[0]], fr.env[f.Params[1]]
	}}, nil, func(t *Trace) {
		if t.End != "return" || !succeeds(t) {
			return
		}
		v := t.Final.load(mkFaddr(self, sha), sha.Type())
		ok := v.Op == "app" && v.S == "crypto/sha1.Sum" && len(v.Args) == 1 && unconv(v.Args[0]) == data
		c.ob("info-hash", shortName(f)+": info hash", ok, c.p.pos(f.Pos()), "after success the info hash is "+trunc(v.String(), 120))
	})
}
