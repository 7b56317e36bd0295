package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const peerPkg = "api/peer"

// msgSpec is BEP 3's layout of one message type.
type msgSpec struct {
	name   string
	typ    int64
	ctor   string
	fields []string // in wire order; "piece" and "bitfield" are the rest
}

var msgSpecs = []msgSpec{
	{"KEEPALIVE", -1, "Keepalive", nil},
	{"CHOKE", 0, "Choke", nil},
	{"UNCHOKE", 1, "Unchoke", nil},
	{"INTERESTED", 2, "Interested", nil},
	{"NOT_INTERESTED", 3, "NotInterested", nil},
	{"HAVE", 4, "Have", []string{"Index"}},
	{"BITFIELD", 5, "Bitfield", []string{"Bitfield"}},
	{"REQUEST", 6, "Request", []string{"Index", "Begin", "Length"}},
	{"PIECE", 7, "Piece", []string{"Index", "Begin", "Piece"}},
	{"CANCEL", 8, "Cancel", []string{"Index", "Begin", "Length"}},
}

func (m msgSpec) has(acc string) bool {
	for _, f := range m.fields {
		if f == acc {
			return true
		}
	}
	return false
}

// minLen: least and greatest length prefix of a valid message.
func (m msgSpec) lens() (lo int64, fixed bool) {
	n := int64(1)
	if m.typ < 0 {
		n = 0
	}
	fixed = true
	for _, f := range m.fields {
		if f == "Piece" || f == "Bitfield" {
			fixed = false
		} else {
			n += 4
		}
	}
	return n, fixed
}

// msgRoles: the field each accessor returns.
func (c *C) msgRoles(rule string) (roles map[string]*types.Var, typ *types.Var) {
	roles = map[string]*types.Var{}
	typ = c.field(peerPkg, "Message", "Type", nil)
	if typ == nil {
		return nil, nil
	}
	for _, acc := range []string{"Index", "Begin", "Length", "Piece", "Bitfield"} {
		f := c.method(peerPkg, "Message", acc)
		if f == nil {
			c.undecide("accessor %s not found", acc)
			return nil, nil
		}
		for _, m := range msgSpecs {
			if !m.has(acc) {
				continue
			}
			var self *Term
			c.walk(f, Opts{Assume: func(s *State, fr *Frame) {
				self = fr.env[f.Params[0]]
				s.store(mkFaddr(self, typ), mkInt(m.typ, typ.Type()), typ.Type())
			}}, nil, func(t *Trace) {
				ok := t.End == "return" && len(t.Ret) == 1
				what := "it panics"
				if ok {
					r := stripInt(unconv(t.Ret[0]))
					fv := fieldOfLoad(r, self)
					switch {
					case fv == nil:
						ok, what = false, "it returns "+trunc(r.String(), 80)
					case roles[acc] == nil:
						roles[acc] = fv
					case roles[acc] != fv:
						ok, what = false, "it returns field "+fv.Name()+" here, "+roles[acc].Name()+" for other types"
					}
				}
				c.ob(rule, acc+"() of a "+m.name+" message", ok, c.p.pos(f.Pos()), what)
			})
		}
		if roles[acc] == nil {
			return nil, nil
		}
	}
	return roles, typ
}

// fieldOfLoad: t is the value of a field of object self.
func fieldOfLoad(t, self *Term) *types.Var {
	if t == nil {
		return nil
	}
	if t.Op == "init" && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == self {
		v, _ := t.Args[0].Obj.(*types.Var)
		return v
	}
	return nil
}

// wireTokens: the expected bytes of a message whose fields are given by get.
func wireTokens(m msgSpec, get func(acc string) *Term) []tok {
	if m.typ < 0 {
		return []tok{{"zero", nil, polyConst(4)}}
	}
	n := polyConst(1)
	var rest []tok
	for _, f := range m.fields {
		v := get(f)
		if f == "Piece" || f == "Bitfield" {
			v = unconv(v)
			n = polyAdd(n, lenPoly(v), 1)
			rest = append(rest, tok{"bytes", v, lenPoly(v)})
		} else {
			n = polyAdd(n, polyConst(4), 1)
			rest = append(rest, tok{"be32", v, polyConst(4)})
		}
	}
	out := []tok{{"be32", polyTerm(n, types.Typ[types.Int]), polyConst(4)}, {"byte", mkInt(m.typ, types.Typ[types.Uint8]), polyConst(1)}}
	return append(out, rest...)
}

// stripToks: integers are written modulo their width.
func stripToks(ts []tok) []tok {
	out := append([]tok{}, ts...)
	for i := range out {
		if out[i].kind != "bytes" && out[i].val != nil {
			out[i].val = stripWide(out[i].val, int(8*out[i].n.C), false)
		}
	}
	return out
}

func (c *C) encodeLayouts(roles map[string]*types.Var, typ *types.Var) {
	for _, name := range []string{"Encode", "MarshalBinary"} {
		f := c.method(peerPkg, "Message", name)
		if f == nil {
			c.undecide("Message.%s not found", name)
			return
		}
		for _, m := range append(append([]msgSpec{}, msgSpecs...), msgSpec{name: "unknown", typ: 9}, msgSpec{name: "unknown", typ: -2}) {
			known := m.name != "unknown"
			var self *Term
			vals := map[string]*Term{}
			n := 0
			c.walk(f, Opts{Assume: func(s *State, fr *Frame) {
				self = fr.env[f.Params[0]]
				s.store(mkFaddr(self, typ), mkInt(m.typ, typ.Type()), typ.Type())
				for a, fv := range roles {
					vals[a] = s.load(mkFaddr(self, fv), fv.Type())
					s.store(mkFaddr(self, fv), vals[a], fv.Type())
				}
			}}, nil, func(t *Trace) {
				if t.Final.thread > 0 || t.End != "return" || !succeeds(t) {
					return
				}
				n++
				if !known {
					c.ob("encode", name+": unknown message type", false, c.p.pos(f.Pos()), "a message of unknown type is encoded without an error")
					return
				}
				im := c.replay(t)
				var got []tok
				if name == "Encode" {
					got = im.out[unconv(fnParam(t, f, 1))]
				} else {
					got = im.out[t.Ret[0]]
					if got == nil {
						got, _ = im.bytesOf(t.Ret[0])
					}
				}
				want := wireTokens(m, func(a string) *Term { return vals[a] })
				ok := im.strange == "" && sameToks(t.Final, stripToks(got), stripToks(want))
				c.ob("encode", name+": "+m.name, ok, c.p.pos(f.Pos()), "writes "+toksString(norm(got))+" instead of "+toksString(norm(want))+" "+im.strange)
			})
			if known {
				c.ob("encode", name+": "+m.name+" can be encoded", n > 0, c.p.pos(f.Pos()), "no path encodes this message")
			} else {
				c.ob("encode", name+": unknown message type", n == 0, c.p.pos(f.Pos()), "a message of unknown type is encoded without an error")
			}
		}
	}
}

// fnParam: the value of a root's parameter.
func fnParam(t *Trace, f *ssa.Function, i int) *Term {
	return t.W.rootEnv[f.Params[i]]
}

// allReadsOK: no read failed on this path.
func readsOK(t *Trace) bool {
	for _, e := range t.Ev {
		if e.Kind == "call" && (e.Name == "io.ReadFull" || e.Name == "io.ReadAtLeast" || e.Name == "(io.Reader).Read") {
			if v, known := t.Final.query(mkEq(e.Res[len(e.Res)-1], mkNil())); !known || !v {
				return false
			}
		}
	}
	return true
}

func (c *C) decodeLayouts(roles map[string]*types.Var, typ *types.Var) {
	f := c.method(peerPkg, "Message", "Decode")
	if f == nil {
		c.undecide("Message.Decode not found")
		return
	}
	maxAlloc := int64(1 << 26)
	accepted := map[string]bool{}
	c.walk(f, Opts{}, func(s *State, e *Event) {
		if e.Kind == "mkslice" {
			ok := false
			for _, a := range e.Args {
				ok = lePoly(s, polyOf(a), polyConst(maxAlloc))
				if !ok {
					break
				}
			}
			c.ob("bounded", fnName(e)+": allocation "+stableSite(c, e), ok, e.pos(c.p), "the size of an allocation is not bounded by a constant")
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread > 0 {
			return
		}
		s := t.Final
		self, r := fnParam(t, f, 0), unconv(fnParam(t, f, 1))
		rs, total, failed := c.inputs(t, func(x *Term) bool { return x == r })
		if total == nil {
			c.undecide("Message.Decode reads in an unrecognised way")
			return
		}
		var length, tv *Term
		// the length prefix and the type as this path sees them
		lenIs := func(x *Term) bool {
			p, w, ok := beRange(s, rs, x)
			return ok && w == 4 && eqPoly(s, p, polyConst(0))
		}
		typIs := func(x *Term) bool {
			p, w, ok := beRange(s, rs, x)
			return ok && w == 1 && eqPoly(s, p, polyConst(4))
		}
		for _, e := range t.Ev {
			for _, x := range append(append([]*Term{e.Val, e.Addr}, e.Args...), e.Res...) {
				for a := range atomsOf(x) {
					if length == nil && lenIs(a) {
						length = stripInt(a)
					}
					if tv == nil && typIs(a) {
						tv = stripInt(a)
					}
				}
			}
		}
		if failed {
			if !succeeds(t) {
				return
			}
			c.ob("decode", "Decode: truncated input", false, c.p.pos(f.Pos()), "success although a read failed")
			return
		}
		if !succeeds(t) {
			// the message must be malformed
			if length == nil {
				c.ob("accept", "Decode: refused without looking at the length", false, c.p.pos(f.Pos()), "a path fails although nothing is known about the message")
				return
			}
			for _, m := range msgSpecs {
				lo, fixed := m.lens()
				conds := []Cond{condEq0(polySub(polyOf(length), polyConst(lo)))}
				if !fixed {
					conds = []Cond{condLe0(polySub(polyConst(lo), polyOf(length))), condLe0(polySub(polyOf(length), polyConst(1<<17+9)))}
				}
				if m.typ >= 0 && tv != nil {
					conds = append(conds, condEq0(polySub(polyOf(tv), polyConst(m.typ))))
				} else if m.typ >= 0 && m.typ != 7 && m.typ != 5 {
					// the length alone does not tell this type
				}
				c.ob("accept", "Decode: valid "+m.name, infeasible(s, condTerms(conds)...), c.p.pos(f.Pos()), "a valid message is refused")
			}
			return
		}
		st := s.load(mkFaddr(self, typ), typ.Type())
		if length == nil {
			c.ob("decode", "Decode: length prefix", false, c.p.pos(f.Pos()), "success without reading the length prefix")
			return
		}
		consumed := eqPoly(s, total, polyAdd(polyOf(length), polyConst(4), 1))
		c.ob("decode", "Decode: consumes exactly one message", consumed, c.p.pos(f.Pos()), "bytes consumed: "+polyTerm(total, types.Typ[types.Int]).String())
		which := -2
		for i, m := range msgSpecs {
			if eqPoly(s, polyOf(stripInt(st)), polyConst(m.typ)) {
				which = i
			}
		}
		if which < 0 {
			// an unknown type: it must be what was received
			ok := typIs(st)
			for _, m := range msgSpecs {
				ok = ok && infeasible(s, boolTerm(condEq0(polySub(polyOf(stripInt(st)), polyConst(m.typ)))))
			}
			c.ob("decode", "Decode: unknown type", ok, c.p.pos(f.Pos()), "the type of the decoded message is "+trunc(st.String(), 80))
			return
		}
		m := msgSpecs[which]
		accepted[m.name] = true
		lo, fixed := m.lens()
		if m.typ < 0 {
			c.ob("decode", "Decode: KEEPALIVE", eqPoly(s, polyOf(length), polyConst(0)), c.p.pos(f.Pos()), "a keepalive is taken from a message that is not empty")
			return
		}
		c.ob("decode", "Decode: type of "+m.name, typIs(st), c.p.pos(f.Pos()), "the type is not the byte after the length")
		if fixed {
			c.ob("decode", "Decode: length of "+m.name, eqPoly(s, polyOf(length), polyConst(lo)), c.p.pos(f.Pos()), "a message of another length is accepted")
		} else {
			c.ob("decode", "Decode: length of "+m.name, lePoly(s, polyConst(lo), polyOf(length)), c.p.pos(f.Pos()), "a message that is too short is accepted")
		}
		pos := int64(5)
		for _, a := range m.fields {
			fv := roles[a]
			v := s.load(mkFaddr(self, fv), fv.Type())
			var ok bool
			if a == "Piece" || a == "Bitfield" {
				p, n, o := streamRange(s, rs, v)
				ok = o && eqPoly(s, p, polyConst(pos)) && eqPoly(s, polyAdd(p, n, 1), polyAdd(polyOf(length), polyConst(4), 1))
				b, _ := baseOf(unconv(v))
				ok = ok && (b.Op == "alloc" || len(b.Op) >= 7 && b.Op[:7] == "mkslice")
			} else {
				p, w, o := beRange(s, rs, v)
				ok = o && w == 4 && eqPoly(s, p, polyConst(pos))
				pos += 4
			}
			c.ob("decode", "Decode: "+a+" of "+m.name, ok, c.p.pos(f.Pos()), "it is "+trunc(v.String(), 120))
		}
	})
	for _, m := range msgSpecs {
		c.ob("accept", "Decode: "+m.name+" can be decoded", accepted[m.name], c.p.pos(f.Pos()), "no path accepts this message")
	}
}

func (c *C) handshakeLayout() {
	ih, id := c.field(peerPkg, "Handshake", "InfoHash", nil), c.field(peerPkg, "Handshake", "PeerID", nil)
	enc, mar, dec := c.method(peerPkg, "Handshake", "Encode"), c.method(peerPkg, "Handshake", "MarshalBinary"), c.method(peerPkg, "Handshake", "Decode")
	if ih == nil || id == nil || enc == nil || mar == nil || dec == nil {
		c.undecide("handshake codec not found")
		return
	}
	const proto = "BitTorrent protocol"
	for _, f := range []*ssa.Function{enc, mar} {
		var h, p *Term
		n := 0
		c.walk(f, Opts{Assume: func(s *State, fr *Frame) {
			self := fr.env[f.Params[0]]
			h, p = s.load(mkFaddr(self, ih), ih.Type()), s.load(mkFaddr(self, id), id.Type())
			s.store(mkFaddr(self, ih), h, ih.Type())
			s.store(mkFaddr(self, id), p, id.Type())
		}}, nil, func(t *Trace) {
			if t.End != "return" || t.Final.thread > 0 || !succeeds(t) {
				return
			}
			n++
			im := c.replay(t)
			var got []tok
			if f == enc {
				got = im.out[unconv(fnParam(t, f, 1))]
			} else if got = im.out[t.Ret[0]]; got == nil {
				got, _ = im.bytesOf(t.Ret[0])
			}
			want := []tok{{"byte", mkInt(int64(len(proto)), nil), polyConst(1)}}
			want = append(want, mustBytes(im, mkStr(proto))...)
			want = append(want, tok{"zero", nil, polyConst(8)}, tok{"bytes", h, polyConst(20)}, tok{"bytes", p, polyConst(20)})
			ok := im.strange == "" && sameToks(t.Final, arrToks(got), arrToks(want))
			c.ob("handshake-encode", f.Name(), ok, c.p.pos(f.Pos()), "writes "+toksString(norm(got))+" "+im.strange)
		})
		c.ob("handshake-encode", f.Name()+" can succeed", n > 0, c.p.pos(f.Pos()), "no path writes a handshake")
	}
	n := 0
	c.walk(dec, Opts{}, nil, func(t *Trace) {
		if t.End != "return" || t.Final.thread > 0 {
			return
		}
		s := t.Final
		self, r := fnParam(t, dec, 0), unconv(fnParam(t, dec, 1))
		rs, total, failed := c.inputs(t, func(x *Term) bool { return x == r })
		if total == nil {
			c.undecide("Handshake.Decode reads in an unrecognised way")
			return
		}
		if failed {
			if succeeds(t) {
				c.ob("handshake-decode", "truncated", false, c.p.pos(dec.Pos()), "success although a read failed")
			}
			return
		}
		// protocol: the length byte and the name, as tested on this path
		var nameT, lenT *Term
		for _, e := range t.Ev {
			for _, x := range append(append([]*Term{e.Val, e.Addr}, e.Args...), e.Res...) {
				for a := range atomsOf(x) {
					if p, k, ok := streamRange(s, rs, a); ok {
						if lenT == nil && a.Op == "init" && eqPoly(s, p, polyConst(0)) && eqPoly(s, k, polyConst(1)) {
							lenT = a
						}
					}
				}
			}
		}
		if lenT == nil {
			c.ob("handshake-decode", "length byte", false, c.p.pos(dec.Pos()), "the length of the protocol name is never looked at")
			return
		}
		ls := s.clone()
		ls.fact(condEq0(polySub(polyOf(lenT), polyConst(int64(len(proto))))))
		for _, e := range t.Ev {
			for _, x := range append(append([]*Term{e.Val, e.Addr}, e.Args...), e.Res...) {
				for a := range atomsOf(x) {
					if (isString(a.T) || isByteSlice(a.T)) && !a.isConst() {
						if p, k, ok := streamRange(ls, rs, a); ok && eqPoly(ls, p, polyConst(1)) && eqPoly(ls, k, polyConst(int64(len(proto)))) && (nameT == nil || isString(a.T)) {
							nameT = a
						}
					}
				}
			}
		}
		var same []*Term
		if nameT != nil {
			same = protocolTests(t, nameT, proto)
		}
		if !succeeds(t) {
			// valid handshakes are accepted
			x := s.clone()
			ok := !x.assume(boolTerm(condEq0(polySub(polyOf(lenT), polyConst(int64(len(proto)))))), true)
			for _, b := range same {
				ok = ok || !x.assume(b, true)
			}
			c.ob("accept", "handshake", ok, c.p.pos(dec.Pos()), "a valid handshake is refused")
			return
		}
		n++
		okName := false
		for _, b := range same {
			v, known := s.query(b)
			okName = okName || known && v
		}
		c.ob("handshake-decode", "protocol length", eqPoly(s, polyOf(lenT), polyConst(int64(len(proto)))), c.p.pos(dec.Pos()), "another protocol length is accepted")
		c.ob("handshake-decode", "protocol name", okName, c.p.pos(dec.Pos()), "another protocol name is accepted")
		c.ob("handshake-decode", "consumes exactly one handshake", eqPoly(s, total, polyConst(68)), c.p.pos(dec.Pos()), "bytes consumed: "+polyTerm(total, types.Typ[types.Int]).String())
		// what the fields were set to
		for _, fv := range []struct {
			v   *types.Var
			pos int64
		}{{ih, 28}, {id, 48}} {
			ok := false
			what := "it is never set"
			dst := mkFaddr(self, fv.v)
			for _, e := range t.Ev {
				switch {
				case e.Kind == "copy":
					b, off := baseOf(e.Addr)
					if b != dst {
						continue
					}
					p, _, o := streamRange(s, rs, e.Val)
					ok = o && eqPoly(s, off, polyConst(0)) && eqPoly(s, p, polyConst(fv.pos)) && eqPoly(s, polyOf(e.Args[0]), polyConst(20))
					what = "it is copied from elsewhere"
				case e.Kind == "store" && e.Addr == dst:
					p, k, o := streamRange(s, rs, e.Val)
					ok = o && eqPoly(s, p, polyConst(fv.pos)) && eqPoly(s, k, polyConst(20))
					what = "it is set to " + trunc(e.Val.String(), 80)
				}
			}
			c.ob("handshake-decode", fv.v.Name(), ok, c.p.pos(dec.Pos()), what)
		}
	})
	c.ob("accept", "handshake can be decoded", n > 0, c.p.pos(dec.Pos()), "no path accepts a handshake")
}

// protocolTests: conditions on the path that compare the name received.
func protocolTests(t *Trace, name *Term, proto string) []*Term {
	var out []*Term
	for _, e := range t.Ev {
		if e.Kind != "branch" {
			continue
		}
		for a := range atomsOf(e.Args[0]) {
			if a.Op == "eq" && (unconv(a.Args[0]) == unconv(name) || unconv(a.Args[1]) == unconv(name)) {
				o := a.Args[0]
				if unconv(o) == unconv(name) {
					o = a.Args[1]
				}
				if v, ok := unconv(o).isStrConst(); ok && v == proto {
					out = append(out, a)
				}
			}
			if a.Op == "app" && (a.S == "bytes.Equal" || a.S == "slices.Equal") && len(a.Args) == 2 {
				x, y := unconv(a.Args[0]), unconv(a.Args[1])
				if y == unconv(name) {
					x, y = y, x
				}
				if v, ok := y.isStrConst(); ok && v == proto && x == unconv(name) {
					out = append(out, a)
				}
			}
		}
	}
	return out
}

func mustBytes(im *image, t *Term) []tok {
	p, _ := im.bytesOf(t)
	return p
}

// arrToks: whole array values count as their bytes.
func arrToks(ts []tok) []tok {
	out := append([]tok{}, ts...)
	for i := range out {
		if v := out[i].val; v != nil && out[i].kind == "bytes" {
			v = unconv(v)
			if v.Op == "arr" {
				v = v.Args[0]
			}
			out[i].val = v
		}
	}
	return out
}

func init() {
	register("W01", "peer wire codec", func(c *C) {
		c.rule("accessor", 10, "every accessor returns the same field for every message type that carries it")
		c.rule("encode", 24, "the bytes written for each message type are those of BEP 3, and only they; unknown types are an error")
		roles, typ := c.msgRoles("accessor")
		if roles == nil {
			c.undecide("message fields not recognised")
			return
		}
		c.encodeLayouts(roles, typ)
	})
	register("W02", "peer wire decoder", func(c *C) {
		c.rule("accessor", 10, "every accessor returns the same field for every message type that carries it")
		c.rule("decode", 20, "each field of a decoded message comes from its place in the message; messages of a wrong length are refused; exactly one message is consumed")
		c.rule("accept", 10, "no valid message is refused")
		roles, typ := c.msgRoles("accessor")
		if roles == nil {
			c.undecide("message fields not recognised")
			return
		}
		c.rule("bounded", 1, "allocations of the decoder are bounded by a constant")
		c.decodeLayouts(roles, typ)
	})
	register("W03", "handshake", func(c *C) {
		c.rule("handshake-encode", 2, "a handshake is written as in BEP 3")
		c.rule("handshake-decode", 5, "a handshake is accepted only with BEP 3's protocol, and its fields come from their places")
		c.rule("accept", 1, "valid handshakes are accepted")
		c.handshakeLayout()
	})
	_ = fmt.Sprint
}

func condTerms(cs []Cond) []*Term {
	var out []*Term
	for _, c := range cs {
		out = append(out, boolTerm(c))
	}
	return out
}

func init() {
	register("W04", "wire codec totality", func(c *C) {
		c.rule("no-panic", 8, "no index, slice, allocation, conversion, nil dereference or explicit panic can fail on any path of the wire codec")
		c.rule("errors", 4, "no error met while reading or writing is lost")
		typ := c.field(peerPkg, "Message", "Type", nil)
		if typ == nil {
			return
		}
		for _, f := range c.p.entryPoints(peerPkg) {
			recv := ""
			if f.Signature.Recv() != nil {
				recv = shortType(f.Signature.Recv().Type())
			}
			switch {
			case recv == "Message" && isAccessor(f):
				// by type: W01 and W02; wrong types panic by contract
				continue
			case recv == "Message" && f.Name() == "LogValue":
				for _, m := range msgSpecs {
					c.total(f, panicCfg{assume: func(s *State, fr *Frame) {
						s.store(mkFaddr(fr.env[f.Params[0]], typ), mkInt(m.typ, typ.Type()), typ.Type())
					}})
				}
				continue
			case recv == "MessageType" && f.Name() == "String":
				continue
			}
			c.total(f, panicCfg{})
			c.noLostErrors("errors", f, errCfg{})
		}
		// what is done with a received bitfield
		for _, n := range []string{"Has", "Items", "Difference"} {
			c.total(c.method("bitfield", "Bitfield", n), panicCfg{})
		}
	})
}

func isAccessor(f *ssa.Function) bool {
	switch f.Name() {
	case "Index", "Begin", "Length", "Piece", "Bitfield":
		return true
	}
	return false
}

func shortType(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}
