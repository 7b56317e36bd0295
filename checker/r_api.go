package main

import (
	"go/token"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The tracker API: announces as URL queries, lists of peers in both forms.

type apiModel struct {
	c               *C
	req             map[string]*types.Var
	compact, list   *types.Var
	pid, pip, pport *types.Var
}

// names of the fields of an announce (BEP 3, BEP 23)
var queryKeys = map[string]string{"InfoHash": "info_hash", "PeerID": "peer_id", "IP": "ip", "Port": "port", "Uploaded": "uploaded", "Downloaded": "downloaded", "Left": "left", "Event": "event", "Compact": "compact"}

func (c *C) apiModel() *apiModel {
	m := &apiModel{c: c, req: map[string]*types.Var{}}
	for _, f := range []struct {
		to        **types.Var
		typ, name string
	}{{&m.compact, "Peers", "Compact"}, {&m.list, "Peers", "List"}, {&m.pid, "Peer", "ID"}, {&m.pip, "Peer", "IP"}, {&m.pport, "Peer", "Port"}} {
		if *f.to = c.field(trackerPkg, f.typ, f.name, nil); *f.to == nil {
			return nil
		}
	}
	for _, n := range requestFields {
		if m.req[n] = c.field(trackerPkg, "Request", n, nil); m.req[n] == nil {
			return nil
		}
	}
	return m
}

func init() {
	register("T02", "Announces and lists of peers are read as they were written", func(c *C) {
		c.rule("compact", 2, "the compact form has six bytes for each peer, its IPv4 address and port, all of them in order; peers that do not fit it are refused")
		c.rule("plain", 1, "without it the list itself is written, an empty one if there is none")
		c.rule("read", 3, "either form is read as one peer for each entry, with that entry's address, port and id, and anything else is refused")
		c.rule("sent", 9, "every field of an announce that is not empty is written under its standard name")
		c.rule("received", 9, "every field of an announce is read from its standard name, and an announce is refused if one is malformed")
		c.rule("names", 6, "what is encoded has the standard names")
		m := c.apiModel()
		if m == nil {
			return
		}
		for _, x := range []struct {
			typ, name string
			do        func(f *ssa.Function)
		}{{"Peers", "MarshalBencoding", m.marshal}, {"Peers", "UnmarshalBencoding", m.unmarshal}, {"Request", "Encode", m.encode}, {"Request", "Decode", m.decode}} {
			f := c.method(trackerPkg, x.typ, x.name)
			if f == nil {
				c.undecide("anchor not found: %s.%s.%s", trackerPkg, x.typ, x.name)
				return
			}
			x.do(f)
			c.runAfter()
		}
		c.tags("names", trackerPkg, "Response", map[string]string{"FailureReason": "failure reason", "Interval": "interval!", "Peers": "peers!"})
		c.tags("names", trackerPkg, "Peer", map[string]string{"ID": "peer id", "IP": "ip!", "Port": "port!"})
	})
}

// tags: fields are encoded under these names; with ! always.
func (c *C) tags(rule, pkg, typ string, want map[string]string) {
	n := c.p.Type(pkg, typ)
	if n == nil {
		c.undecide("anchor not found: type %s.%s", pkg, typ)
		return
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		c.undecide("%s.%s is no struct", pkg, typ)
		return
	}
	names := map[string]bool{}
	for i := range st.NumFields() {
		f := st.Field(i)
		parts := strings.Split(reflect.StructTag(st.Tag(i)).Get("bencode"), ",")
		key, ok := want[f.Name()]
		why := ""
		if !ok {
			if parts[0] != "" && parts[0] != "-" && names[parts[0]] {
				why = "two fields have the name " + parts[0]
			}
		} else {
			must := strings.HasSuffix(key, "!")
			key = strings.TrimSuffix(key, "!")
			if parts[0] != key {
				why = "it is encoded as \"" + parts[0] + "\" and not as \"" + key + "\""
			}
			for _, o := range parts[1:] {
				if must && strings.HasPrefix(o, "omit") {
					why = "it is left out when it is zero"
				}
			}
		}
		names[parts[0]] = true
		if ok || why != "" {
			c.ob(rule, typ+"."+f.Name(), why == "", c.p.pos(f.Pos()), why)
		}
		delete(want, f.Name())
	}
	for f := range want {
		c.undecide("anchor not found: field %s.%s.%s", pkg, typ, f)
	}
}

func (m *apiModel) opts(root *ssa.Function) Opts {
	return Opts{OneIter: true, Merge: true, SplitLit: true, ZeroNew: true,
		Keep: func(s *State, e *Event) bool {
			switch e.Kind {
			case "call", "store", "copy", "append", "mapload", "mapstore", "mapdelete", "rangenext", "rangeend", "clear", "branch", "rearrive", "mkslice":
				return true
			}
			return false
		},
		Opaque: func(fn *ssa.Function) bool { return fn != root && pkgOf(fn) != trackerPkg },
		Inert:  func(fn *ssa.Function) bool { return pkgOf(fn) == "bencode" && fn.Name() == "Marshal" },
		Harmless: func(fn *ssa.Function) bool {
			return pkgOf(fn) == "bencode" && fn.Name() == "Marshal"
		},
	}
}

// appOf: the term is the result of a function without effects.
func appOf(t *Term, name string) bool {
	return t != nil && t.Op == "app" && (t.S == name || strings.HasPrefix(t.S, name+"@") || strings.HasPrefix(t.S, name) && strings.Contains(name, "Endian).Uint"))
}

func isParam(t *Term) bool { return t != nil && t.Op == "param" }

// ofRecv: the field of the receiver.
func (m *apiModel) isList(t *Term) bool {
	o := loadOf(t, m.list)
	return o != nil && isParam(o)
}

// iteration: what a loop did, once around.
type iteration struct {
	s    *State
	e    *Event
	evs  []*Event
	iter *Term
}

func (it *iteration) past(t *Trace) int64 {
	for _, e := range t.Ev {
		if e.Kind == "rearrive" && e.In == it.e.In {
			return 1
		}
	}
	return 0
}

// over: all n turns were taken when the path ended.
func (it *iteration) over(t *Trace, n *Poly) bool {
	d := polySub(polySub(n, polyOf(it.iter)), polyConst(it.past(t)))
	return entails(t.Final.facts, d)
}

func goRound(s *State, e *Event) *iteration {
	x := *s
	return &iteration{&x, e, since(before(s, e), e.Entry), e.Iter}
}

// ip4 of a peer whose address it is
func (m *apiModel) ip4Of(t *Term) *Term {
	if !appOf(t, "(net.IP).To4") {
		return nil
	}
	t = t.Args[0]
	if !appOf(t, "net.ParseIP") {
		return nil
	}
	return loadOf(unconv(t.Args[0]), m.pip)
}

// six: the bytes are the peer's address and port.
func (m *apiModel) six(it *iteration, ts []tok) (p *Term, why string) {
	s := it.s
	ts = norm(ts)
	n := 0
	for _, t := range ts {
		why := ""
		switch {
		case n < 4 && t.kind == "byte":
			b := t.val
			if b.Op == "init" && b.Args[0].Op == "iaddr" {
				b = b.Args[0]
			}
			if b.Op != "iaddr" && b.Op != "lookup" {
				return p, "a byte is not part of the address"
			}
			q := m.ip4Of(b.Args[0])
			k, ok := b.Args[1].isIntConst()
			if q == nil || p != nil && q != p || !ok || k != int64(n) {
				why = "a byte of the address is missing, or in another place"
			}
			p = q
			n++
			if q != nil && !knownNot(s, b.Args[0]) {
				why = "the address may be none of IPv4"
			}
		case n == 0 && t.kind == "bytes":
			q := m.ip4Of(unconv(t.val))
			if q == nil || !eqPoly(s, t.n, polyConst(4)) {
				why = "the address is not four bytes"
			}
			if q != nil && !knownNot(s, unconv(t.val)) {
				why = "the address may be none of IPv4"
			}
			p = q
			n = 4
		case n == 4 && t.kind == "be16":
			if p == nil || unconv(t.val) != fieldLoad(s, p, m.pport) && stripConv(t.val) != fieldLoad(s, p, m.pport) {
				why = "the port is not that of the peer"
			}
			n = 6
		case n == 4 && t.kind == "byte":
			if v := stripConv(t.val); (v.Op != "quo" || stripConv(v.Args[0]) != fieldLoad(s, p, m.pport) || !isIntN(v.Args[1], 256)) && (v.Op != "shr" || stripConv(v.Args[0]) != fieldLoad(s, p, m.pport) || !isIntN(v.Args[1], 8)) {
				why = "the first byte of the port is another"
			}
			n = 5
		case n == 5 && t.kind == "byte":
			if v := stripConv(t.val); v != fieldLoad(s, p, m.pport) && (v.Op != "rem" || stripConv(v.Args[0]) != fieldLoad(s, p, m.pport)) {
				why = "the second byte of the port is another"
			}
			n = 6
		default:
			why = "there is more than address and port, or in another form"
		}
		if why != "" {
			return p, why
		}
	}
	if n != 6 || p == nil {
		return p, "there are not six bytes"
	}
	port := polyOf(fieldLoad(s, p, m.pport))
	if !entails(s.facts, polyAdd(&Poly{}, port, -1)) || !entails(s.facts, polySub(port, polyConst(65535))) {
		return p, "the port may be out of range"
	}
	list, idx := elemAt(p)
	if list == nil || !m.isList(list) || !eqPoly(s, polyOf(idx), polyOf(it.iter)) {
		return p, "the peers are not taken one after the other"
	}
	return p, ""
}

func isIntN(t *Term, n int64) bool {
	v, ok := t.isIntConst()
	return ok && v == n
}

func (m *apiModel) marshal(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	type written struct {
		it  *iteration
		why string
	}
	made := map[*Term][]*written{} // by buffer or loop-carried slice
	o := m.opts(f)
	o.OnReset = func() { made = map[*Term][]*written{} }
	c.walk(f, o, func(s *State, e *Event) {
		if e.Kind != "rearrive" {
			return
		}
		c.turn(s, e, 6, func(it *iteration, k *Term, ts []tok, ok bool) {
			why := "what is written is not tracked"
			if ok {
				_, why = m.six(it, ts)
			}
			made[k] = append(made[k], &written{it, why})
		})
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 2 {
			return
		}
		s := t.Final
		var enc *Event
		for _, e := range t.Ev {
			if calls(e, "bencode.Marshal") && e.Res[0] == unconv(t.Ret[0]) {
				enc = e
			}
		}
		if enc == nil {
			why := ""
			if !knownNot(s, t.Ret[1]) {
				why = "what is returned is not what was encoded"
			} else if !m.unfit(t) {
				why = "peers may be refused although they fit"
			}
			c.ob("compact", "refuse"+from, why == "", where, why)
			return
		}
		var o, asked *Term
		for n := s.facts; n != nil; n = n.prev {
			for a := range atomsOf(n.t) {
				if x := loadOf(a, m.compact); x != nil && isParam(x) {
					o, asked = x, a
				}
			}
		}
		for _, e := range t.Ev {
			if e.Kind == "store" && e.Field == m.compact {
				asked = nil
			}
		}
		if o == nil {
			c.ob("compact", "form"+from, false, where, "the form does not depend on the one that was asked for")
			return
		}
		v := unconv(content1(enc.Args[0]))
		form, known := boolOf(s, fieldLoad(s, o, m.compact))
		if !known && asked != nil {
			form, known = boolOf(s, asked)
		}
		if !known {
			c.ob("compact", "form"+from, false, where, "the form does not depend on the one that was asked for")
			return
		}
		if !form {
			why := ""
			l := fieldLoad(s, o, m.list)
			if v != l {
				n, ok := lenPoly(l), m.noPeers(v)
				if !ok || !isNilNow(s, l) && !entails(s.facts, n) {
					why = "another list is written: " + trunc(v.String(), 80)
				}
			}
			if v == l && !knownNot(s, l) {
				why = "there may be no list, which is not written at all"
			}
			c.ob("plain", "list"+from, why == "", where, why)
			return
		}
		c.after(func() {
			why := ""
			l := fieldLoad(s, o, m.list)
			buf, start := writtenTo(t, v, l, 6)
			ws := made[buf]
			if start != "" {
				why = start
			} else if len(ws) == 0 {
				why = "the peers are not written one after the other: " + trunc(v.String(), 60)
			}
			for _, w := range ws {
				if w.why != "" {
					why = w.why
				} else if !w.it.over(t, lenPoly(l)) {
					why = "not all peers are written"
				}
			}
			c.ob("compact", "bytes"+from, why == "", where, why)
		})
	})
}

// turn: the bytes that one turn of a loop adds to a buffer, which has room for
// size bytes for each turn, to a writer, or to a text that grows.
func (c *C) turn(s *State, e *Event, size int64, add func(it *iteration, to *Term, ts []tok, ok bool)) {
	it := goRound(s, e)
	im := c.replay(&Trace{Final: s, Ev: it.evs})
	put := func(k *Term, ts []tok, ok bool) {
		add(it, k, ts, ok && im.strange == "")
	}
	six := mkMul(it.iter, mkInt(size, nil), types.Typ[types.Int])
	for b, segs := range im.mem {
		if b == nil || !isLocalRoot(b) {
			continue
		}
		lo := polyOf(six)
		hi := polyAdd(lo, polyConst(size), 1)
		ok := true
		for _, sg := range segs {
			ok = ok && lePoly(s, lo, sg.off) && lePoly(s, polyAdd(sg.off, sg.n, 1), hi)
		}
		ts, k := im.read(b, lo, hi)
		put(b, ts, ok && k)
	}
	for w, ts := range im.out {
		if w != nil {
			put(w, ts, true)
		}
	}
	for ph, g := range e.Gen {
		if g == nil || g.Op != "phi" || e.Next[ph] == nil || !isByteSlice(g.T) && !isString(g.T) {
			continue
		}
		n := e.Next[ph]
		var parts []*Term
		for n.Op == "concat" && n.Args[0] != g {
			parts = append(append([]*Term{}, n.Args[1:]...), parts...)
			n = n.Args[0]
		}
		if n.Op == "concat" {
			parts = append(append([]*Term{}, n.Args[1:]...), parts...)
			n = n.Args[0]
		}
		var ts []tok
		ok := n == g
		for _, x := range parts {
			p, k := im.bytesOf(x)
			ts = append(ts, p...)
			ok = ok && k
		}
		put(g, ts, ok)
	}
}

// writtenTo: the buffer, writer or growing text whose content v is, with room
// for size bytes for each element of l.
func writtenTo(t *Trace, v, l *Term, size int64) (buf *Term, start string) {
	s := t.Final
	buf = v
	switch {
	case v.Op == "phi":
		if n, ok := mkLen(v.Args[0]).isIntConst(); !ok || n != 0 {
			start = "there is something before the first entry"
		}
	case v.Op == "concat":
		for buf.Op == "concat" {
			buf = buf.Args[0]
		}
		if buf.Op == "phi" {
			if n, ok := mkLen(buf.Args[0]).isIntConst(); !ok || n != 0 {
				start = "there is something before the first entry"
			}
		}
	case v.Op == "mkslice" || v.Op == "alloc" || v.Op == "slice":
		b, off := baseOf(v)
		if len(off.Ms) > 0 || off.C != 0 || !eqPoly(s, lenPoly(v), polyOf(mkMul(mkLen(l), mkInt(size, nil), types.Typ[types.Int]))) {
			start = "the length is not right for each entry"
		}
		buf = b
	default:
		for _, e := range t.Ev {
			if e.Kind == "call" && len(e.Res) == 1 && e.Res[0] == v && (strings.HasSuffix(e.Name, "Buffer).Bytes") || strings.HasSuffix(e.Name, ").String")) {
				buf = unconv(e.Args[0])
			}
		}
	}
	return buf, start
}

// noPeers: an empty list, but a list.
func (m *apiModel) noPeers(v *Term) bool {
	if v.T == nil {
		return false
	}
	el := m.list.Type().Underlying().(*types.Slice).Elem()
	switch v.Op {
	case "mkslice", "list":
		n, ok := mkLen(v).isIntConst()
		st, isS := v.T.Underlying().(*types.Slice)
		return ok && n == 0 && isS && types.Identical(st.Elem(), el)
	case "alloc":
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		at, ok := p.Elem().Underlying().(*types.Array)
		return ok && at.Len() == 0 && types.Identical(at.Elem(), el)
	}
	return false
}

// unfit: a peer has no IPv4 address, or an impossible port.
func (m *apiModel) unfit(t *Trace) bool {
	s := t.Final
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if m.ip4Of(a) != nil && isNilNow(s, a) {
				return true
			}
			if appOf(a, "net.ParseIP") && loadOf(unconv(a.Args[0]), m.pip) != nil && isNilNow(s, a) {
				return true
			}
			if p := loadOf(a, m.pport); p != nil {
				x := polyOf(a)
				if entails(s.facts, polyAdd(x, polyConst(1), 1)) || entails(s.facts, polySub(polyConst(65536), x)) {
					return true
				}
			}
		}
	}
	return false
}

// byteAt: byte k of the text.
func byteOf(s *State, t, v *Term, at *Poly) bool {
	t = stripConv(t)
	if t.Op == "init" && t.Args[0].Op == "iaddr" {
		t = t.Args[0]
	}
	if t.Op != "lookup" && t.Op != "iaddr" {
		return false
	}
	b, off := baseOf(t.Args[0])
	return b == v && eqPoly(s, polyAdd(off, polyOf(t.Args[1]), 1), at)
}

// part: n bytes of the text.
func part(s *State, t, v *Term, at *Poly, n int64) bool {
	t = unconv(t)
	b, off := baseOf(t)
	if b != v || !eqPoly(s, off, at) {
		return false
	}
	for t.Op == "conv" || t.Op == "iface" {
		t = t.Args[0]
	}
	if t.Op == "slice" && t.Args[2] == nil {
		return true // more than that is not looked at
	}
	return eqPoly(s, lenPoly(t), polyConst(n))
}

type entry struct {
	it      *iteration
	compact string // why it is not an entry of the compact form of ...
	plain   string
	of      *Term
	rest    *Term // what is left to read, if entries are cut off the text
}

// entryOf: the peer that the turn read.
func (m *apiModel) entryOf(it *iteration, p *Term) *entry {
	s := it.s
	r := &entry{it: it}
	if !isLocalRoot(p) {
		r.compact, r.plain = "it is no new peer", "it is no new peer"
		return r
	}
	id, ip, port := fieldLoad(s, p, m.pid), fieldLoad(s, p, m.pip), fieldLoad(s, p, m.pport)
	// compact
	var text, rest *Term
	for _, t := range []*Term{ip, port} {
		for a := range atomsOf(t) {
			if a.Op == "tassert" && a.T != nil && isString(a.T) && rest == nil {
				text = a
			}
			if a.Op == "phi" && a.T != nil && (isString(a.T) || isByteSlice(a.T)) && m.eaten(it, a) {
				text, rest = a, unconv(a.Args[0])
			}
		}
	}
	six := func(k int64) *Poly {
		if rest != nil {
			return polyConst(k)
		}
		return polyAdd(polyOf(mkMul(it.iter, mkInt(6, nil), types.Typ[types.Int])), polyConst(k), 1)
	}
	switch {
	case text == nil:
		r.compact = "it is not read from the text"
	case !isStr(id, ""):
		r.compact = "it has an id, which is not part of the form"
	default:
		r.of = text
		if rest != nil {
			r.of, r.rest = rest, text
		}
		a := unconv(ip)
		ok := false
		if appOf(a, "(net.IP).String") {
			x := unconv(a.Args[0])
			if appOf(x, "net.IPv4") && len(x.Args) == 4 {
				ok = true
				for k := range x.Args {
					ok = ok && byteOf(s, x.Args[k], text, six(int64(k)))
				}
			} else {
				b := x
				if b.Op == "conv" {
					b = b.Args[0]
				}
				ok = part(s, b, text, six(0), 4) && eqPoly(s, lenPoly(b), polyConst(4))
			}
		}
		if !ok {
			r.compact = "the address is not made of the first four bytes of the entry"
			break
		}
		x := stripConv(port)
		switch {
		case appOf(x, "(encoding/binary.bigEndian).Uint16"):
			ok = part(s, x.Args[1], text, six(4), 2)
		default:
			ok = false
			var hi, lo bool
			var find func(t *Term)
			find = func(t *Term) {
				t = stripConv(t)
				if t.Op == "bin" && (t.S == "|" || t.S == "+") || t.Op == "or" {
					for _, a := range t.Args {
						find(a)
					}
					return
				}
				p := polyOf(t)
				for _, mo := range p.Ms {
					if len(mo.Atoms) == 1 && p.C == 0 {
						if mo.K == 256 && byteOf(s, mo.Atoms[0], text, six(4)) {
							hi = true
						}
						if mo.K == 1 && byteOf(s, mo.Atoms[0], text, six(5)) {
							lo = true
						}
					}
				}
			}
			find(x)
			ok = hi && lo
		}
		if !ok {
			r.compact = "the port is not made of the last two bytes of the entry"
		}
	}
	// plain
	field := func(v *Term, key string) (of *Term, ok bool) {
		v = unconv(v)
		if v.Op != "tassert" {
			return nil, false
		}
		v = v.Args[0]
		if v.Op == "mget" {
			v = v.Args[0]
		}
		if v.Op != "mval" {
			return nil, false
		}
		return v.Args[0], isStr(v.Args[1], key)
	}
	o, ok := field(ip, "ip")
	o2, ok2 := field(port, "port")
	switch {
	case !ok:
		r.plain = "the address is not the entry's"
	case !ok2 || o2 != o:
		r.plain = "the port is not the entry's"
	default:
		if o3, ok3 := field(id, "peer id"); !ok3 || o3 != o {
			// none, if it has none
			if !isStr(id, "") || !m.noID(s, o) {
				r.plain = "the id is not the entry's"
			}
		}
		list, idx := elemAt(stripAssert(o))
		if list == nil || !eqPoly(s, polyOf(idx), polyOf(it.iter)) {
			r.plain = "the entries are not taken one after the other"
			break
		}
		r.of = list
	}
	return r
}

func stripAssert(t *Term) *Term {
	if t.Op == "tassert" {
		return t.Args[0]
	}
	return t
}

// eaten: each turn cuts six bytes off the text.
func (m *apiModel) eaten(it *iteration, phi *Term) bool {
	for ph, g := range it.e.Gen {
		if n := it.e.Next[ph]; g == phi && n != nil {
			b, off := baseOf(n)
			return b == phi && eqPoly(it.s, off, polyConst(6)) && eqPoly(it.s, polyAdd(lenPoly(n), polyConst(6), 1), lenPoly(phi))
		}
	}
	return false
}

// all: every entry of the compact form was read.
func (m *apiModel) all(t *Trace, e *entry, n *Poly) bool {
	fs := t.Final.facts
	if e.rest != nil {
		return entails(fs, polySub(lenPoly(e.rest), polyConst(6*e.it.past(t))))
	}
	if entails(fs, polySub(n, polyOf(mkMul(mkAdd(e.it.iter, mkInt(e.it.past(t), nil), types.Typ[types.Int]), mkInt(6, nil), types.Typ[types.Int])))) {
		return true
	}
	for f := fs; f != nil; f = f.prev {
		for a := range atomsOf(f.t) {
			if a.Op == "quo" && isIntN(a.Args[1], 6) && eqPoly(t.Final, polyOf(a.Args[0]), n) && e.it.over(t, polyOf(a)) {
				return true
			}
		}
	}
	return false
}

// noID: the entry has no text as id.
func (m *apiModel) noID(s *State, o *Term) bool {
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if a.Op == "inmap" && a.Args[0] == o && isStr(a.Args[1], "peer id") {
				if v, known := s.query(a); known && !v {
					return true
				}
			}
			if a.Op == "typeis" && a.any(func(x *Term) bool { return x.Op == "mval" && x.Args[0] == o && isStr(x.Args[1], "peer id") }) {
				if v, known := s.query(a); known && !v {
					return true
				}
			}
		}
	}
	return false
}

func (m *apiModel) unmarshal(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	made := map[*Term][]*entry{}
	o := m.opts(f)
	o.OnReset = func() { made = map[*Term][]*entry{} }
	c.walk(f, o, func(s *State, e *Event) {
		if e.Kind != "rearrive" {
			return
		}
		it := goRound(s, e)
		add := func(k, p *Term) {
			if p == nil {
				made[k] = append(made[k], &entry{it: it, compact: "not one peer is added for each entry", plain: "not one peer is added for each entry"})
				return
			}
			made[k] = append(made[k], m.entryOf(it, p))
		}
		for ph, g := range e.Gen {
			if g != nil && g.Op == "phi" && e.Next[ph] != nil && g.T != nil && types.Identical(g.T, m.list.Type()) {
				add(g, grows(e.Next[ph], g))
			}
		}
		for g, n := range e.Mem {
			if g.T != nil && types.Identical(g.T, m.list.Type()) {
				add(g, grows(n, g))
			}
		}
		for _, x := range it.evs {
			if x.Kind == "store" && x.Addr.Op == "iaddr" && isLocalRoot(x.Addr.Args[0]) && x.Val != nil && x.Val.T != nil && types.Identical(x.Val.T, m.list.Type().(*types.Slice).Elem()) {
				if b := x.Addr.Args[0]; b.Op == "mkslice" {
					if eqPoly(s, polyOf(x.Addr.Args[1]), polyOf(it.iter)) {
						add(b, x.Val)
					} else {
						add(b, nil)
					}
				}
			}
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 1 {
			return
		}
		s := t.Final
		var dec *Event
		for _, e := range t.Ev {
			if calls(e, "bencode.Unmarshal") && isParam(unconv(e.Args[0])) {
				dec = e
			}
		}
		if dec == nil {
			c.ob("read", "decode"+from, false, where, "the data are not decoded")
			return
		}
		if knownNot(s, t.Ret[0]) {
			why := ""
			if !knownNot(s, dec.Res[0]) && !m.misread(s) {
				why = "a well-formed list may be refused"
			}
			c.ob("read", "refuse"+from, why == "", where, why)
			return
		}
		if t.Ret[0] == dec.Res[0] && !isNilNow(s, t.Ret[0]) {
			c.ob("read", "decode"+from, false, where, "the error of decoding is not looked at")
			return
		}
		if !isNilNow(s, t.Ret[0]) || !isNilNow(s, dec.Res[0]) {
			c.ob("read", "decode"+from, false, where, "it is not known whether the list could be read")
			return
		}
		var o *Term
		for _, e := range t.Ev {
			if e.Kind == "store" && e.Addr.Op == "faddr" && e.Field == m.list && isParam(e.Addr.Args[0]) {
				o = e.Addr.Args[0]
			}
		}
		if o == nil {
			c.ob("read", "list"+from, false, where, "the list is not kept")
			return
		}
		l := fieldLoad(s, o, m.list)
		form, known := boolOf(s, fieldLoad(s, o, m.compact))
		touched := false
		for _, e := range t.Ev {
			touched = touched || e.Kind == "store" && e.Field == m.compact
		}
		if n, ok := mkLen(l).isIntConst(); ok && n == 0 {
			// no peers, there being no entries
			if src := m.none(s, rootOf(unconv(dec.Args[1]))); src != nil {
				why, kind := "", "plain"
				if isString(src.T) {
					kind = "compact"
					if !m.sixes(s, src) {
						why = "an incomplete entry is not refused"
					}
				}
				if why == "" && (kind == "compact" || touched) && (!known || form != (kind == "compact")) {
					why = "the form is not noted"
				}
				c.ob("read", kind+" empty"+from, why == "", where, why)
				return
			}
		}
		c.after(func() {
			buf := l
			if buf.Op == "concat" {
				buf = buf.Args[0]
			}
			why := ""
			es := made[buf]
			if buf.Op == "phi" || buf.Op == "mphi" {
				if n, ok := mkLen(buf.Args[0]).isIntConst(); !ok || n != 0 {
					why = "there is something before the first peer"
				}
			}
			if len(es) == 0 {
				why = "the list is not made of the entries: " + trunc(l.String(), 80)
			}
			isC, isP := true, true
			w1, w2 := "", ""
			for _, e := range es {
				if e.compact != "" {
					isC, w1 = false, e.compact
				}
				if e.plain != "" {
					isP, w2 = false, e.plain
				}
			}
			if why == "" && !isC && !isP {
				why = w1
				if w1 == "it is not read from the text" {
					why = w2
				}
			}
			if why == "" {
				e := es[0]
				src := unconv(e.of)
				x := stripAssert(src)
				// what was decoded
				if x.Op != "init" || rootOf(x.Args[0]) != rootOf(unconv(dec.Args[1])) {
					why = "something else is read: " + trunc(src.String(), 60)
				}
				n := lenPoly(src)
				if isC {
					if !m.sixes(s, src) {
						why = "an incomplete entry is not refused"
					} else if buf.Op == "mkslice" {
						if !polyTermIs(lenPoly(buf), n, 6, s) {
							why = "there is not one peer for each entry"
						}
					}
					// six bytes for each turn
					if why == "" && !m.all(t, e, n) && !e.it.over(t, lenPoly(buf)) {
						why = "not all entries are read"
					}
					if why == "" && (!known || !form) {
						why = "the form is not noted"
					}
				} else {
					if why == "" && !e.it.over(t, n) {
						why = "not all entries are read"
					}
					if why == "" && buf.Op == "mkslice" && !eqPoly(s, lenPoly(buf), n) {
						why = "there is not one peer for each entry"
					}
					if why == "" && touched && (!known || form) {
						why = "another form is noted"
					}
				}
			}
			kind := "plain"
			if isC {
				kind = "compact"
			}
			c.ob("read", kind+from, why == "", where, why)
		})
	})
}

// none: the text or list decoded into an object that is known to hold no
// entry.
func (m *apiModel) none(s *State, into *Term) *Term {
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			q := a
			if a.Op == "quo" && isIntN(a.Args[1], 6) {
				q = unconv(a.Args[0])
			}
			if q.Op != "len" {
				continue
			}
			x := stripAssert(unconv(q.Args[0]))
			if x.Op == "init" && rootOf(x.Args[0]) == into && entails(s.facts, polyOf(a)) {
				return q.Args[0]
			}
		}
	}
	return nil
}

// polyTermIs: k*a == b, a being the quotient.
func polyTermIs(a, b *Poly, k int64, s *State) bool {
	if len(a.Ms) == 1 && a.C == 0 && a.Ms[0].K == 1 && len(a.Ms[0].Atoms) == 1 {
		if q := a.Ms[0].Atoms[0]; q.Op == "quo" && isIntN(q.Args[1], k) {
			return eqPoly(s, polyOf(q.Args[0]), b)
		}
	}
	return false
}

// sixes: the length of the text is known to be a multiple of six.
func (m *apiModel) sixes(s *State, text *Term) bool {
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if a.Op == "rem" && isIntN(a.Args[1], 6) && eqPoly(s, polyOf(a.Args[0]), lenPoly(text)) {
				if v, known := s.query(mkCompare(token.EQL, a, mkInt(0, nil), types.Typ[types.Int])); known && v {
					return true
				}
			}
		}
	}
	return false
}

// misread: what was decoded is no list of peers.
func (m *apiModel) misread(s *State) bool {
	str, lst := false, false
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			v, known := s.query(a)
			switch {
			case a.Op == "rem" && isIntN(a.Args[1], 6):
				if v, known := s.query(mkCompare(token.EQL, a, mkInt(0, nil), types.Typ[types.Int])); known && !v {
					return true
				}
			case a.Op == "typeis" && known && !v:
				el := a.any(func(x *Term) bool { return x.Op == "iaddr" })
				bad := a.any(func(x *Term) bool {
					return x.Op == "mval" && (isStr(x.Args[1], "ip") || isStr(x.Args[1], "port"))
				})
				id := a.any(func(x *Term) bool { return x.Op == "mval" && isStr(x.Args[1], "peer id") })
				if el && (bad || !id) {
					return true
				}
				str = str || !el && strings.HasSuffix(a.S, "string")
				lst = lst || !el && strings.HasPrefix(a.S, "[]")
			case a.Op == "inmap" && known && !v && (isStr(a.Args[1], "ip") || isStr(a.Args[1], "port")):
				return true
			}
		}
	}
	return str && lst
}

// ---- announces

// literal: the element of a literal list that this turn is about.
func literal(it *iteration, all []*Event) (key string, dest *Term, n int64) {
	for _, e := range it.evs {
		if e.Kind == "rangenext" {
			if k, ok := e.Args[0].isStrConst(); ok {
				return k, e.Val, -1
			}
		}
	}
	for _, e := range all {
		if e.Kind != "store" || e.Addr.Op != "iaddr" || e.Addr.Args[0].Op != "alloc" || e.Val.Op != "struct" {
			continue
		}
		k, ok := e.Addr.Args[1].isIntConst()
		if !ok || !eqPoly(it.s, polyOf(it.iter), polyConst(k)) {
			continue
		}
		for _, a := range e.Val.Args {
			if x, ok := a.isStrConst(); ok && key == "" {
				key = x
			} else {
				dest = a
			}
		}
		if p, ok := e.Addr.Args[0].T.Underlying().(*types.Pointer); ok {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				n = at.Len()
			}
		}
	}
	return
}

// spec: the text of a field.
func (m *apiModel) text(s *State, name string, v *Term) bool {
	f := m.req[name]
	x := unconv(v)
	isF := func(t *Term) bool { o := loadOf(stripConv(t), f); return o != nil && isParam(o) }
	switch name {
	case "InfoHash", "PeerID":
		for x.Op == "string" || x.Op == "arr" || x.Op == "conv" || x.Op == "slice" && x.Args[1] == nil && x.Args[2] == nil {
			x = x.Args[0]
		}
		return isF(x) || x.Op == "faddr" && x.Obj == any(f) && isParam(x.Args[0])
	case "IP", "Event":
		return isF(x)
	case "Compact":
		for n := s.facts; n != nil; n = n.prev {
			for a := range atomsOf(n.t) {
				if isF(a) {
					if b, known := s.query(a); known {
						return b && isStr(v, "1") || !b && (isStr(v, "0") || isStr(v, ""))
					}
				}
			}
		}
		return false
	}
	switch {
	case appOf(x, "strconv.FormatInt"):
		return isF(x.Args[0]) && isIntN(x.Args[1], 10)
	case appOf(x, "fmt.Sprint"), appOf(x, "fmt.Sprintf"):
		if appOf(x, "fmt.Sprintf") && !isStr(x.Args[0], "%d") && !isStr(x.Args[0], "%v") {
			return false
		}
		a := x.Args[len(x.Args)-1]
		return a.Op == "list" && len(a.Args) == 1 && isF(content1(a.Args[0]))
	}
	return false
}

// blank: the field may be left out.
func (m *apiModel) blank(s *State, name string) bool {
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if o := loadOf(a, m.req[name]); o != nil && isParam(o) {
				switch name {
				case "Compact":
					if b, known := s.query(a); known && !b {
						return true
					}
				case "IP", "Event":
					if b, known := s.query(mkEq(a, mkStr(""))); known && b {
						return true
					}
				}
			}
		}
	}
	return false
}

func keyName(key string) string {
	for n, k := range queryKeys {
		if k == key {
			return n
		}
	}
	return ""
}

// rounds: the turns of one loop over the fields.
type rounds struct {
	it   *iteration
	n    int64 // length of the list, -1 for a map
	over *Term // the map
	done map[string]bool
	bad  map[string]string
}

func (r *rounds) ended(t *Trace) bool {
	if r.n > 0 {
		return r.it.over(t, polyConst(r.n))
	}
	for _, e := range t.Ev {
		if e.Kind == "rangeend" && e.Addr == r.over {
			return true
		}
	}
	return false
}

func roundOf(loops map[ssa.Instruction]*rounds, it *iteration, n int64) *rounds {
	r := loops[it.e.In]
	if r == nil {
		r = &rounds{it: it, n: n, done: map[string]bool{}, bad: map[string]string{}}
		loops[it.e.In] = r
	}
	if n != 0 {
		r.n = n
	}
	for _, e := range it.evs {
		if e.Kind == "rangenext" {
			r.over = e.Addr
		}
	}
	return r
}

func (m *apiModel) encode(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	loops := map[ssa.Instruction]*rounds{}
	// what is put under the name
	put := func(s *State, e *Event) (params, key, val *Term) {
		switch {
		case e.Kind == "call" && (strings.HasSuffix(e.Name, "url.Values).Set") || strings.HasSuffix(e.Name, "url.Values).Add")):
			return e.Args[0], e.Args[1], e.Args[2]
		case e.Kind == "mapstore" && e.Addr.T != nil && strings.Contains(e.Addr.T.String(), "[]string") || e.Kind == "mapstore" && e.Addr.T != nil && strings.HasSuffix(e.Addr.T.String(), "url.Values"):
			if e.Val.Op == "list" && len(e.Val.Args) == 1 {
				return e.Addr, e.Args[0], e.Val.Args[0]
			}
			if b, off := baseOf(e.Val); b.Op == "alloc" && len(off.Ms) == 0 && off.C == 0 && isIntN(mkLen(e.Val), 1) {
				return e.Addr, e.Args[0], s.load(mkIaddr(b, mkInt(0, nil), types.Typ[types.String]), types.Typ[types.String])
			}
			return e.Addr, e.Args[0], e.Val
		}
		return nil, nil, nil
	}
	o := m.opts(f)
	o.OnReset = func() { loops = map[ssa.Instruction]*rounds{} }
	c.walk(f, o, func(s *State, e *Event) {
		if p, k, v := put(s, e); p != nil {
			key, ok := k.isStrConst()
			why := ""
			if !ok {
				why = "the name is not known: " + trunc(k.String(), 60)
			} else if n := keyName(key); n != "" && !m.text(s, n, v) {
				why = "\"" + key + "\" is not " + n + ": " + trunc(v.String(), 60)
			}
			c.ob("sent", "set "+key+from, why == "", e.pos(c.p), why)
			return
		}
		if e.Kind != "rearrive" {
			return
		}
		it := goRound(s, e)
		key, val, n := literal(it, before(s, e))
		r := roundOf(loops, it, n)
		set := ""
		for _, x := range it.evs {
			if p, k, _ := put(s, x); p != nil {
				set, _ = k.isStrConst()
			}
		}
		if set != "" {
			r.done[keyName(set)] = true
			return
		}
		if name := keyName(key); name != "" {
			// the value is not empty
			empty := false
			if val != nil {
				b, known := s.query(mkEq(unconv(val), mkStr("")))
				b2, known2 := s.query(condTermLen0(unconv(val)))
				empty = known && b || known2 && b2
			}
			if !empty && !m.blank(s, name) {
				r.bad[name] = "it may be left out"
			}
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 1 {
			return
		}
		s := t.Final
		res := unconv(t.Ret[0])
		if !appOf(res, "(net/url.Values).Encode") || !isLocalRoot(rootOf(res.Args[0])) && res.Args[0].Op != "mkmap" {
			c.ob("sent", "result"+from, false, where, "the result is no query of what was set: "+trunc(res.String(), 80))
			return
		}
		direct := map[string]bool{}
		for _, e := range t.Ev {
			if p, k, _ := put(s, e); p != nil {
				x, _ := k.isStrConst()
				direct[keyName(x)] = true
			}
			if e.Kind == "call" && strings.HasSuffix(e.Name, "url.Values).Del") || e.Kind == "mapdelete" || e.Kind == "clear" {
				c.ob("sent", "delete"+from, false, e.pos(c.p), "what was set is taken out again")
			}
		}
		tr := t
		c.after(func() {
			for _, n := range requestFields {
				ok := direct[n] || m.blank(s, n)
				why := "it is not written"
				for _, r := range loops {
					if r.bad[n] != "" {
						ok, why = false, r.bad[n]
						break
					}
					if r.done[n] && r.ended(tr) {
						ok = true
					}
				}
				if ok {
					why = ""
				}
				c.ob("sent", n+from, ok, where, why)
			}
		})
	})
}

func condTermLen0(t *Term) *Term { return boolTerm(condEq0(polyOf(mkLen(t)))) }

// read: the field is set from its name.
func (m *apiModel) parsed(s *State, name string, v *Term) string {
	key := queryKeys[name]
	get := func(t *Term) bool {
		t = stripConv(unconv(stripConv(t)))
		if appOf(t, "(net/url.Values).Get") && len(t.Args) == 2 {
			return isStr(t.Args[1], key)
		}
		// the first of the values
		if t.Op == "init" && t.Args[0].Op == "iaddr" && isIntN(t.Args[0].Args[1], 0) {
			x := t.Args[0].Args[0]
			if x.Op == "mget" {
				x = x.Args[0]
			}
			return x.Op == "mval" && isStr(x.Args[1], key)
		}
		return false
	}
	switch name {
	case "IP", "Event":
		if get(v) {
			return ""
		}
		return "it is not what \"" + key + "\" says"
	case "InfoHash", "PeerID":
		var src *Term
		for a := range atomsOf(v) {
			if get(a) {
				src = a
			}
		}
		if src == nil {
			return "it is not what \"" + key + "\" says"
		}
		if !eqPoly(s, lenPoly(unconv(src)), polyConst(20)) {
			return "it may have another length"
		}
		return ""
	case "Compact":
		if b, ok := v.isBoolConst(); ok {
			for n := s.facts; n != nil; n = n.prev {
				for a := range atomsOf(n.t) {
					if get(a) {
						if x, known := s.query(mkEq(a, mkStr("1"))); known && x == b {
							return ""
						}
					}
				}
			}
			return "it may not be what \"compact\" says"
		}
		if v.Op == "eq" && len(v.Args) == 2 && (get(v.Args[0]) && isStr(v.Args[1], "1") || get(v.Args[1]) && isStr(v.Args[0], "1")) {
			return ""
		}
		return "it is not what \"compact\" says"
	}
	x := stripConv(v)
	if x.Op != "app" || !strings.HasSuffix(x.S, "#0") || len(x.Args) == 0 || !get(x.Args[0]) {
		return "it is not the number in \"" + key + "\""
	}
	ok := false
	switch strings.TrimSuffix(x.S, "#0") {
	case "strconv.Atoi":
		ok = true
	case "strconv.ParseInt":
		ok = isIntN(x.Args[1], 10) && (isIntN(x.Args[2], 64) || name == "Port" && (isIntN(x.Args[2], 0) || isIntN(x.Args[2], 32)))
	case "strconv.ParseUint":
		ok = isIntN(x.Args[1], 10) && name == "Port"
	}
	if !ok {
		return "the number is read in another base or range"
	}
	e := mk("app", strings.TrimSuffix(x.S, "#0")+"#1", x.Obj, types.Universe.Lookup("error").Type(), x.Args...)
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if a.Op == "app" && a.S == e.S && len(a.Args) == len(x.Args) && a.Args[0] == x.Args[0] && isNilNow(s, a) {
				return ""
			}
		}
	}
	return "it may be no number"
}

func (m *apiModel) decode(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	loops := map[ssa.Instruction]*rounds{}
	// which field is set
	sets := func(e *Event) (string, *Term) {
		var a *Term
		switch e.Kind {
		case "store":
			a = e.Addr
		case "copy":
			a, _ = baseOf(e.Addr)
			if a != nil && a.Op == "arr" {
				a = a.Args[0]
			}
		}
		for a != nil && a.Op == "iaddr" {
			a = a.Args[0]
		}
		if a == nil || a.Op != "faddr" || !isParam(a.Args[0]) {
			return "", nil
		}
		for n, v := range m.req {
			if a.Obj == any(v) {
				return n, e.Val
			}
		}
		return "", nil
	}
	// looked: the text that was got for the key
	looked := func(s *State, evs []*Event) map[string]*Term {
		r := map[string]*Term{}
		for _, e := range evs {
			if e.Kind == "call" && strings.HasSuffix(e.Name, "url.Values).Get") {
				if k, ok := e.Args[1].isStrConst(); ok {
					r[keyName(k)] = e.Res[0]
				}
			}
			if e.Kind == "mapload" {
				if k, ok := e.Args[0].isStrConst(); ok {
					r[keyName(k)] = e.Val
				}
			}
		}
		return r
	}
	none := func(s *State, v *Term, evs []*Event) bool {
		if b, known := s.query(mkEq(v, mkStr(""))); known && b {
			return true
		}
		if entails(s.facts, lenPoly(v)) {
			return true
		}
		for _, e := range evs {
			if e.Kind == "mapload" && e.Val == v {
				if b, known := boolOf(s, e.Res[0]); known && !b {
					return true
				}
			}
			if e.Kind == "call" && strings.HasSuffix(e.Name, "url.Values).Has") {
				if b, known := boolOf(s, e.Res[0]); known && !b {
					return true
				}
			}
		}
		return false
	}
	o := m.opts(f)
	o.OnReset = func() { loops = map[ssa.Instruction]*rounds{} }
	c.walk(f, o, func(s *State, e *Event) {
		if n, v := sets(e); n != "" {
			why := m.parsed(s, n, v)
			if e.Kind == "copy" && why == "" && !eqPoly(s, polyOf(e.Args[0]), polyConst(20)) {
				why = "not all of it is copied"
			}
			c.ob("received", "set "+n+from, why == "", e.pos(c.p), why)
			return
		}
		if e.Kind != "rearrive" {
			return
		}
		it := goRound(s, e)
		_, _, n := literal(it, before(s, e))
		r := roundOf(loops, it, n)
		got := map[string]bool{}
		for _, x := range it.evs {
			if n, _ := sets(x); n != "" {
				got[n] = true
				r.done[n] = true
			}
		}
		for n, v := range looked(s, it.evs) {
			if n != "" && !got[n] && !none(s, v, it.evs) {
				r.bad[n] = "what was sent may be passed over"
			}
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 1 {
			return
		}
		s := t.Final
		var parse *Event
		for _, e := range t.Ev {
			if e.Kind == "call" && e.Name == "net/url.ParseQuery" && isParam(unconv(e.Args[0])) {
				parse = e
			}
		}
		if parse == nil {
			c.ob("received", "parse"+from, false, where, "the query is not parsed")
			return
		}
		if knownNot(s, t.Ret[0]) {
			why := "an announce may be refused although it is well formed"
			if knownNot(s, parse.Res[1]) {
				why = ""
			}
			for n := s.facts; n != nil; n = n.prev {
				for a := range atomsOf(n.t) {
					if a.Op == "app" && strings.HasPrefix(a.S, "strconv.") && strings.HasSuffix(a.S, "#1") && knownNot(s, a) {
						why = ""
					}
					if appOf(a, "(net/url.Values).Get") && (isStr(a.Args[1], "info_hash") || isStr(a.Args[1], "peer_id")) {
						if v, known := s.query(boolTerm(condEq0(polySub(lenPoly(a), polyConst(20))))); known && !v {
							why = ""
						}
					}
				}
			}
			c.ob("received", "refuse"+from, why == "", where, why)
			return
		}
		if !isNilNow(s, t.Ret[0]) || !isNilNow(s, parse.Res[1]) {
			c.ob("received", "end"+from, false, where, "a malformed query may be accepted")
			return
		}
		direct := map[string]bool{}
		for _, e := range t.Ev {
			if n, _ := sets(e); n != "" {
				direct[n] = true
			}
		}
		for n, v := range looked(s, t.Ev) {
			if n != "" && !direct[n] && none(s, v, t.Ev) {
				direct[n] = true
			}
		}
		tr := t
		c.after(func() {
			for _, n := range requestFields {
				ok := direct[n]
				why := "it is not read"
				for _, r := range loops {
					if r.bad[n] != "" {
						ok, why = false, r.bad[n]
						break
					}
					if r.done[n] && r.ended(tr) {
						ok = true
					}
				}
				if ok {
					why = ""
				}
				c.ob("received", n+from, ok, where, why)
			}
		})
	})
}
