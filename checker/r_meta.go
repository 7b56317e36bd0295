package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Torrent files and magnet links.

type metaModel struct {
	c                                 *C
	files, length, pieces, plen, flen *types.Var
	xt, dn, xl, tr, ws, pe            *types.Var
	total                             *ssa.Function
}

func init() {
	register("M01", "Torrent files and magnet links mean what they say", func(c *C) {
		c.rule("names", 15, "the fields of a torrent file have the standard names, and required ones are never left out")
		c.rule("length", 2, "the length of a torrent is that of its one file, or the sum of the lengths of all its files")
		c.rule("piece", 2, "every piece has the common length, and the last one what is left")
		c.rule("hashes", 3, "the hashes of the pieces are written and read one after the other, 20 bytes each, all of them, and nothing else is accepted")
		c.rule("time", 2, "times are written and read as seconds since 1970")
		c.rule("link", 6, "each part of a magnet link is read from its parameter")
		m := &metaModel{c: c}
		for _, f := range []struct {
			to             **types.Var
			pkg, typ, name string
		}{{&m.files, metaPkg, "Info", "Files"}, {&m.length, metaPkg, "Info", "Length"}, {&m.pieces, metaPkg, "Info", "Pieces"}, {&m.plen, metaPkg, "Info", "PieceLength"}, {&m.flen, metaPkg, "File", "Length"},
			{&m.xt, magnetPkg, "Magnet", "ExactTopic"}, {&m.dn, magnetPkg, "Magnet", "Name"}, {&m.xl, magnetPkg, "Magnet", "Length"}, {&m.tr, magnetPkg, "Magnet", "Trackers"}, {&m.ws, magnetPkg, "Magnet", "WebSeed"}, {&m.pe, magnetPkg, "Magnet", "Peers"}} {
			if *f.to = c.field(f.pkg, f.typ, f.name, nil); *f.to == nil {
				return
			}
		}
		c.tags("names", metaPkg, "Metainfo", map[string]string{"Info": "info!", "Announce": "announce", "AnnounceList": "announce-list", "CreationDate": "creation date", "Comment": "comment", "CreatedBy": "created by", "Encoding": "encoding"})
		c.tags("names", metaPkg, "Info", map[string]string{"SHA1": "-", "PieceLength": "piece length!", "Pieces": "pieces!", "Private": "private", "Name": "name!", "Length": "length", "MD5Sum": "md5sum", "Files": "files"})
		c.tags("names", metaPkg, "File", map[string]string{"Length": "length!", "MD5Sum": "md5sum", "Path": "path!"})
		m.total = c.method(metaPkg, "Info", "GetLength")
		for _, x := range []struct {
			typ, name string
			do        func(f *ssa.Function)
		}{{"Info", "GetLength", m.lengthOf}, {"Info", "GetPieceLength", m.pieceOf}, {"Pieces", "MarshalBencoding", m.marshal}, {"Pieces", "UnmarshalBencoding", m.unmarshal}, {"Time", "MarshalBencoding", m.writeTime}, {"Time", "UnmarshalBencoding", m.readTime}} {
			f := c.method(metaPkg, x.typ, x.name)
			if f == nil {
				c.undecide("anchor not found: %s.%s.%s", metaPkg, x.typ, x.name)
				return
			}
			x.do(f)
			c.runAfter()
		}
		f := c.fn(magnetPkg, "ParseMagnetURL")
		if f == nil {
			c.undecide("anchor not found: %s.ParseMagnetURL", magnetPkg)
			return
		}
		m.link(f)
	})
}

func (m *metaModel) opts(root *ssa.Function) Opts {
	return Opts{OneIter: true, Merge: true,
		Keep: func(s *State, e *Event) bool {
			switch e.Kind {
			case "call", "store", "copy", "append", "mapload", "branch", "rearrive", "mkslice":
				return true
			}
			return false
		},
		Opaque: func(fn *ssa.Function) bool { return fn != root && pkgOf(fn) != pkgOf(root) },
		Harmless: func(fn *ssa.Function) bool {
			return pkgOf(fn) == "bencode" && fn.Name() == "Marshal"
		},
		Pure: func(fn *ssa.Function) bool { return root != m.total && fn == m.total },
	}
}

// ofRecv: the receiver's field.
func ofRecv(t *Term, f *types.Var) bool {
	o := loadOf(t, f)
	return o != nil && isParam(o)
}

func (m *metaModel) lengthOf(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	type sum struct {
		it  *iteration
		why string
	}
	sums := map[*Term][]*sum{}
	o := m.opts(f)
	o.OnReset = func() { sums = map[*Term][]*sum{} }
	c.walk(f, o, func(s *State, e *Event) {
		if e.Kind != "rearrive" {
			return
		}
		it := goRound(s, e)
		add := func(g, n *Term) {
			why := ""
			ok := false
			d := polySub(polyOf(n), polyOf(g))
			if len(d.Ms) == 1 && d.C == 0 && d.Ms[0].K == 1 && len(d.Ms[0].Atoms) == 1 {
				if p := loadOf(unconv(d.Ms[0].Atoms[0]), m.flen); p != nil {
					l, i := elemAt(p)
					ok = l != nil && ofRecv(l, m.files) && eqPoly(s, polyOf(i), polyOf(it.iter))
				}
			}
			if !ok {
				why = "not the length of one file after the other is added"
			}
			if z, known := g.Args[0].isIntConst(); !known || z != 0 {
				why = "the sum does not start with nothing"
			}
			sums[g] = append(sums[g], &sum{it, why})
		}
		for ph, g := range e.Gen {
			if g != nil && g.Op == "phi" && len(g.Args) > 0 && g.Args[0] != nil && e.Next[ph] != nil && g.T != nil && isInt(g.T) {
				add(g, e.Next[ph])
			}
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 1 {
			return
		}
		s, ret := t.Final, t.Ret[0]
		c.after(func() {
			var recv *Term
			for n := s.facts; n != nil; n = n.prev {
				for a := range atomsOf(n.t) {
					a.any(func(x *Term) bool {
						if o := loadOf(unconv(x), m.files); o != nil && isParam(o) {
							recv = o
						}
						return false
					})
				}
			}
			if recv == nil {
				c.ob("length", "form"+from, false, where, "the length does not depend on whether there are files")
				return
			}
			n := lenPoly(fieldLoad(s, recv, m.files))
			if entails(s.facts, n) || isNilNow(s, fieldLoad(s, recv, m.files)) {
				// none
				ok := eqPoly(s, polyOf(unconv(ret)), polyOf(fieldLoad(s, recv, m.length)))
				c.ob("length", "one file"+from, ok, where, "without files, the length is "+trunc(ret.String(), 60))
				return
			}
			var phi *Term
			for a := range atomsOf(ret) {
				if len(sums[a]) > 0 {
					phi = a
				}
			}
			why := ""
			if phi == nil {
				why = "the lengths of the files are not added up: " + trunc(ret.String(), 60)
			} else {
				for _, x := range sums[phi] {
					want := polyOf(phi)
					if x.it.past(t) > 0 {
						p := x.it.e.Next[phiOf(x.it.e, phi)]
						want = polyOf(p)
					}
					switch {
					case x.why != "":
						why = x.why
					case !eqPoly(s, polyOf(unconv(ret)), want):
						why = "the length is not the sum: " + trunc(ret.String(), 60)
					case !x.it.over(t, n):
						why = "not all files are counted"
					}
				}
				if !entails(s.facts, polySub(polyConst(1), n)) && why == "" {
					why = "a torrent of one file may have no length"
				}
			}
			c.ob("length", "files"+from, why == "", where, why)
		})
	})
}

func phiOf(e *Event, g *Term) *ssa.Phi {
	for ph, x := range e.Gen {
		if x == g {
			return ph
		}
	}
	return nil
}

func (m *metaModel) pieceOf(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	c.walk(f, m.opts(f), nil, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 1 {
			return
		}
		s := t.Final
		ret := polyOf(unconv(t.Ret[0]))
		var recv, idx, total *Term
		note := func(x *Term) {
			x.any(func(a *Term) bool {
				if a.Op == "param" && a.T != nil && isInt(a.T) {
					idx = a
				}
				if o, ok := a.Obj.(*types.Func); ok && a.Op != "param" && m.total != nil && o == m.total.Object() && len(a.Args) > 0 && isParam(a.Args[0]) {
					total = a
				}
				if o := loadOf(a, m.plen); o != nil && isParam(o) {
					recv = o
				}
				if o := loadOf(a, m.pieces); o != nil && isParam(o) {
					recv = o
				}
				return false
			})
		}
		note(t.Ret[0])
		for n := s.facts; n != nil; n = n.prev {
			note(n.t)
		}
		if recv == nil || idx == nil {
			c.ob("piece", "index"+from, false, where, "the length does not depend on which piece it is")
			return
		}
		pl := fieldLoad(s, recv, m.plen)
		last := polySub(polyConst(1), polySub(lenPoly(fieldLoad(s, recv, m.pieces)), polyOf(idx))) // index+1-len
		isLast := eqPoly(s, last, polyConst(0))
		v, known := s.query(boolTerm(condEq0(last)))
		notLast := known && !v
		var rest *Poly
		if total != nil {
			rest = polySub(polyOf(total), polyOf(mkMul(idx, pl, idx.T)))
			if n := mkSub(mkLen(fieldLoad(s, recv, m.pieces)), mkInt(1, nil), idx.T); isLast && !eqPoly(s, ret, rest) {
				rest = polySub(polyOf(total), polyOf(mkMul(n, pl, idx.T))) // the same
			}
		}
		switch {
		case rest != nil && eqPoly(s, ret, rest):
			ok := isLast || entails(s.facts, polySub(rest, polyOf(pl)))
			c.ob("piece", "last"+from, ok, where, "another piece than the last has what is left")
		case eqPoly(s, ret, polyOf(pl)):
			ok := notLast || entails(s.facts, polyAdd(last, polyConst(1), 1)) || rest != nil && entails(s.facts, polySub(polyOf(pl), rest))
			c.ob("piece", "common"+from, ok, where, "the last piece has the common length")
		default:
			c.ob("piece", "length"+from, false, where, "the length of a piece is "+trunc(t.Ret[0].String(), 80))
		}
	})
}

// hashAt: the hash number i of the receiver.
func (m *metaModel) hashAt(s *State, t *Term, i *Poly) bool {
	for guard := 0; guard < 10; guard++ {
		t = unconv(t)
		switch {
		case t.Op == "arr":
			t = t.Args[0]
		case t.Op == "slice" && t.Args[1] == nil && (t.Args[2] == nil || isIntN(t.Args[2], 20)):
			t = t.Args[0]
		case t.Op == "init" || t.Op == "iaddr":
			l, idx := elemAt(t)
			if t.Op == "iaddr" {
				l, idx = t.Args[0], t.Args[1]
			}
			if l == nil || !eqPoly(s, polyOf(idx), i) {
				return false
			}
			l = unconv(l)
			for l.Op == "init" {
				l = l.Args[0]
			}
			return isParam(l)
		default:
			return false
		}
	}
	return false
}

func (m *metaModel) marshal(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	type written struct {
		it  *iteration
		why string
	}
	made := map[*Term][]*written{}
	var list *Term
	o := m.opts(f)
	o.OnReset = func() { made, list = map[*Term][]*written{}, nil }
	c.walk(f, o, func(s *State, e *Event) {
		if e.Kind != "rearrive" {
			return
		}
		c.turn(s, e, 20, func(it *iteration, k *Term, ts []tok, ok bool) {
			why := ""
			ts = norm(ts)
			switch {
			case !ok:
				why = "what is written is not tracked"
			case len(ts) != 1 || ts[0].kind != "bytes" || !eqPoly(s, ts[0].n, polyConst(20)):
				why = "not 20 bytes are written for each hash"
			case !m.hashAt(s, ts[0].val, polyOf(it.iter)):
				why = "the hashes are not taken one after the other"
			}
			made[k] = append(made[k], &written{it, why})
		})
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 2 {
			return
		}
		s := t.Final
		var enc *Event
		for _, e := range t.Ev {
			if calls(e, "bencode.Marshal") && e.Res[0] == unconv(t.Ret[0]) {
				enc = e
			}
		}
		if enc == nil || t.Ret[1] != enc.Res[1] && !isNilNow(s, enc.Res[1]) {
			c.ob("hashes", "written"+from, false, where, "what is returned is not what was encoded")
			return
		}
		for n := s.facts; n != nil; n = n.prev {
			for a := range atomsOf(n.t) {
				if a.Op == "len" {
					l := unconv(a.Args[0])
					for l.Op == "init" {
						l = l.Args[0]
					}
					if isParam(l) {
						list = unconv(a.Args[0])
					}
				}
			}
		}
		l := list
		c.after(func() {
			why := ""
			if l == nil {
				c.ob("hashes", "written"+from, false, where, "the hashes are not written one after the other")
				return
			}
			v := unconv(content1(enc.Args[0]))
			buf, start := writtenTo(t, v, l, 20)
			ws := made[buf]
			if start != "" {
				why = start
			} else if len(ws) == 0 {
				why = "the hashes are not written one after the other: " + trunc(v.String(), 60)
			}
			for _, w := range ws {
				if w.why != "" {
					why = w.why
				} else if !w.it.over(t, lenPoly(l)) {
					why = "not all hashes are written"
				}
			}
			c.ob("hashes", "written"+from, why == "", where, why)
		})
	})
}

func (m *metaModel) unmarshal(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	type hash struct {
		it   *iteration
		of   *Term
		rest *Term // what is left to read, if hashes are cut off the text
		why  string
	}
	listT := m.pieces.Type().Underlying()
	isList := func(t types.Type) bool { return t != nil && types.Identical(t.Underlying(), listT) }
	made := map[*Term][]*hash{}
	entry := func(it *iteration, v *Term) *hash {
		h := &hash{it: it}
		if v == nil {
			h.why = "not one hash is added for each 20 bytes"
			return h
		}
		x := unconv(v)
		n := polyConst(20)
		for x.Op == "arrof" || x.Op == "toarr" || x.Op == "init" && x.Args[0].Op == "toarr" {
			if x.Op == "arrof" {
				n = polyOf(x.Args[1])
			}
			x = unconv(x.Args[0])
		}
		b, off := baseOf(x)
		at := polyOf(mkMul(it.iter, mkInt(20, nil), types.Typ[types.Int]))
		next := it.e.Mem[b]
		for ph, g := range it.e.Gen {
			if n := it.e.Next[ph]; g == b && n != nil {
				next = n
			}
		}
		if next != nil && (b.Op == "phi" || b.Op == "mphi") {
			nb, no := baseOf(next)
			if nb == b && eqPoly(it.s, no, polyConst(20)) && eqPoly(it.s, polyAdd(lenPoly(next), polyConst(20), 1), lenPoly(b)) {
				h.rest, h.of, at = b, unconv(b.Args[0]), polyConst(0)
			}
		}
		if h.of == nil {
			h.of = b
		}
		enough := eqPoly(it.s, n, polyConst(20)) && (x.Op != "slice" || lePoly(it.s, polyConst(20), lenPoly(x)))
		if !enough {
			// what is left is not empty, and whole
			if y, ok := polyTerm1(n); ok && y.Op == "min" && isIntN(y.Args[0], 20) && y.Args[1].Op == "len" && unconv(y.Args[1].Args[0]) == b && entails(it.s.facts, polySub(polyConst(1), lenPoly(b))) {
				enough = h.rest != nil
			}
		}
		if !enough || x != b && x.Op != "slice" || !eqPoly(it.s, off, at) {
			h.why = "a hash is not made of its 20 bytes: " + trunc(v.String(), 60)
		}
		return h
	}
	o := m.opts(f)
	o.OnReset = func() { made = map[*Term][]*hash{} }
	c.walk(f, o, func(s *State, e *Event) {
		if e.Kind != "rearrive" {
			return
		}
		it := goRound(s, e)
		add := func(k, v *Term) { made[k] = append(made[k], entry(it, v)) }
		for ph, g := range e.Gen {
			if g != nil && g.Op == "phi" && e.Next[ph] != nil && isList(g.T) {
				add(g, grows(e.Next[ph], g))
			}
		}
		for g, n := range e.Mem {
			if isList(g.T) {
				add(g, grows(n, g))
			}
		}
		for _, x := range it.evs {
			var at, v *Term
			switch {
			case x.Kind == "store" && x.Addr.Op == "iaddr" && x.Val != nil:
				at, v = x.Addr, x.Val
			case x.Kind == "copy":
				at, v = unconv(x.Addr), mk("arrof", "", nil, nil, x.Val, x.Args[0])
				if at.Op == "slice" && at.Args[1] == nil && at.Args[2] == nil {
					at = at.Args[0]
				}
				if at.Op == "arr" {
					at = at.Args[0]
				}
				if at.Op != "iaddr" {
					continue
				}
			default:
				continue
			}
			if b := at.Args[0]; b.Op == "mkslice" && isList(b.T) {
				if eqPoly(s, polyOf(at.Args[1]), polyOf(it.iter)) {
					add(b, v)
				} else {
					add(b, nil)
				}
			}
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 1 {
			return
		}
		s := t.Final
		var dec *Event
		for _, e := range t.Ev {
			if calls(e, "bencode.Unmarshal") && isParam(unconv(e.Args[0])) {
				dec = e
			}
		}
		if dec == nil {
			c.ob("hashes", "decode"+from, false, where, "the data are not decoded")
			return
		}
		into := rootOf(unconv(dec.Args[1]))
		var l *Term
		for _, e := range t.Ev {
			if e.Kind == "store" && isParam(unconv(e.Addr)) && e.Val != nil && isList(e.Val.T) {
				l = unconv(e.Val)
			}
		}
		// the remainder of what was decoded
		var rem, text *Term
		for n := s.facts; n != nil; n = n.prev {
			for a := range atomsOf(n.t) {
				if a.Op == "rem" && isIntN(a.Args[1], 20) && a.Args[0].Op == "len" {
					if x := unconv(a.Args[0].Args[0]); x.Op == "init" && rootOf(x.Args[0]) == into {
						rem, text = a, x
					}
				}
			}
		}
		whole, odd := false, false
		if rem != nil {
			v, known := s.query(mkCompare(token.EQL, rem, mkInt(0, nil), types.Typ[types.Int]))
			whole, odd = known && v, known && !v
		}
		if knownNot(s, t.Ret[0]) {
			ok := knownNot(s, dec.Res[0]) || odd
			c.ob("hashes", "refuse"+from, ok, where, "well-formed hashes may be refused")
			return
		}
		if !isNilNow(s, t.Ret[0]) || !isNilNow(s, dec.Res[0]) {
			c.ob("hashes", "decode"+from, false, where, "it is not known whether the hashes could be read")
			return
		}
		c.after(func() {
			why := ""
			switch {
			case !whole:
				why = "an incomplete hash is not refused"
			case l == nil:
				why = "the hashes are not kept"
			default:
				if n, ok := mkLen(l).isIntConst(); ok && n == 0 {
					// no hashes
					q := mk("quo", "", nil, rem.T, rem.Args...)
					if !entails(s.facts, lenPoly(text)) && !entails(s.facts, polyOf(q)) {
						why = "no hashes are kept"
					}
					break
				}
				buf := l
				if buf.Op == "concat" {
					buf = buf.Args[0]
				}
				hs := made[buf]
				if len(hs) == 0 {
					why = "the list is not made of the hashes: " + trunc(l.String(), 80)
					break
				}
				if buf.Op == "phi" || buf.Op == "mphi" {
					if n, ok := mkLen(buf.Args[0]).isIntConst(); !ok || n != 0 {
						why = "there is something before the first hash"
					}
				} else if !polyTermIs(lenPoly(buf), lenPoly(text), 20, s) {
					why = "there is not one hash for each 20 bytes"
				}
				for _, h := range hs {
					switch {
					case h.why != "":
						why = h.why
					case h.of != text:
						why = "something else is read: " + trunc(h.of.String(), 60)
					case !m.all(t, h.it, h.rest, lenPoly(text), buf):
						why = "not all hashes are read"
					}
				}
			}
			c.ob("hashes", "read"+from, why == "", where, why)
		})
	})
}

// all: every hash of the text was read.
func (m *metaModel) all(t *Trace, it *iteration, rest *Term, n *Poly, buf *Term) bool {
	fs := t.Final.facts
	if rest != nil {
		return entails(fs, polySub(lenPoly(rest), polyConst(20*it.past(t))))
	}
	if entails(fs, polySub(n, polyOf(mkMul(mkAdd(it.iter, mkInt(it.past(t), nil), types.Typ[types.Int]), mkInt(20, nil), types.Typ[types.Int])))) {
		return true
	}
	if buf.Op == "mkslice" && it.over(t, lenPoly(buf)) {
		return true
	}
	for f := fs; f != nil; f = f.prev {
		for a := range atomsOf(f.t) {
			if a.Op == "quo" && isIntN(a.Args[1], 20) && eqPoly(t.Final, polyOf(a.Args[0]), n) && it.over(t, polyOf(a)) {
				return true
			}
		}
	}
	return false
}

func (m *metaModel) writeTime(f *ssa.Function) {
	c := m.c
	c.walk(f, m.opts(f), nil, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 2 {
			return
		}
		ok := false
		for _, e := range t.Ev {
			if calls(e, "bencode.Marshal") && e.Res[0] == unconv(t.Ret[0]) {
				v := unconv(content1(e.Args[0]))
				ok = appOf(v, "(time.Time).Unix") || callName(v) == "(time.Time).Unix"
				ok = ok && v.any(isParam) && (t.Ret[1] == e.Res[1] || isNilNow(t.Final, e.Res[1]))
			}
		}
		c.ob("time", "written from "+shortName(f), ok, c.p.pos(f.Pos()), "not the seconds are written")
	})
}

func (m *metaModel) readTime(f *ssa.Function) {
	c := m.c
	c.walk(f, m.opts(f), nil, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 1 || knownNot(t.Final, t.Ret[0]) {
			return
		}
		s := t.Final
		why := "the time is not read"
		for _, e := range t.Ev {
			if !calls(e, "bencode.Unmarshal") || !isParam(unconv(e.Args[0])) {
				continue
			}
			for _, x := range t.Ev {
				if x.Kind != "store" || !isParam(rootOf(x.Addr)) || x.Val == nil {
					continue
				}
				v := unconv(x.Val)
				if v.Op == "struct" && len(v.Args) == 1 {
					v = unconv(v.Args[0])
				}
				why = "the time is not that of the seconds: " + trunc(v.String(), 60)
				if (appOf(v, "time.Unix") || callName(v) == "time.Unix") && len(v.Args) == 2 && isIntN(v.Args[1], 0) {
					if n := unconv(v.Args[0]); n.Op == "init" && n.Args[0] == unconv(e.Args[1]) && isInt(n.T) {
						why = ""
					}
				}
			}
			if !isNilNow(s, e.Res[0]) && t.Ret[0] != e.Res[0] {
				why = "it is not known whether the seconds could be read"
			}
		}
		c.ob("time", "read from "+shortName(f), why == "", c.p.pos(f.Pos()), why)
	})
}

func (m *metaModel) link(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	c.walk(f, m.opts(f), nil, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 || len(t.Ret) != 2 {
			return
		}
		s := t.Final
		// the parameters of the link
		isQuery := func(q *Term) bool {
			q = unconv(q)
			if appOf(q, "(*net/url.URL).Query") || callName(q) == "(*net/url.URL).Query" {
				u := q.Args[0]
				return callName(u) == "net/url.Parse" || appOf(u, "net/url.Parse")
			}
			return false
		}
		get := func(v *Term, key string) bool {
			v = unconv(v)
			return (appOf(v, "(net/url.Values).Get") || callName(v) == "(net/url.Values).Get") && isQuery(v.Args[0]) && isStr(v.Args[1], key)
		}
		var parse *Event
		for _, e := range t.Ev {
			if calls(e, "net/url.Parse") && isParam(unconv(e.Args[0])) {
				parse = e
			}
		}
		if parse == nil {
			c.ob("link", "parsed"+from, false, where, "the link is not parsed")
			return
		}
		if knownNot(s, t.Ret[1]) {
			ok := knownNot(s, parse.Res[1])
			for n := s.facts; n != nil; n = n.prev {
				for a := range atomsOf(n.t) {
					x := a
					if x.Op == "eq" {
						continue
					}
					if (appOf(x, "strconv.Atoi#1") || appOf(x, "strconv.ParseInt#1")) && get(x.Args[0], "xl") && knownNot(s, x) {
						ok = true
					}
				}
			}
			c.ob("link", "refused"+from, ok, where, "a well-formed link may be refused")
			return
		}
		if !isNilNow(s, t.Ret[1]) || !isNilNow(s, parse.Res[1]) || !isLocalRoot(unconv(t.Ret[0])) {
			c.ob("link", "parsed"+from, false, where, "what is returned is not what was read")
			return
		}
		ma := unconv(t.Ret[0])
		for _, x := range []struct {
			f   *types.Var
			key string
		}{{m.xt, "xt"}, {m.dn, "dn"}, {m.ws, "ws"}} {
			v := fieldLoad(s, ma, x.f)
			c.ob("link", x.f.Name()+from, get(v, x.key), where, "it is not the parameter "+x.key+": "+trunc(v.String(), 60))
		}
		for _, x := range []struct {
			f   *types.Var
			key string
		}{{m.tr, "tr"}, {m.pe, "x.pe"}} {
			v := unconv(fieldLoad(s, ma, x.f))
			if v.Op == "mget" {
				v = v.Args[0]
			}
			ok := v.Op == "mval" && isQuery(v.Args[0]) && isStr(v.Args[1], x.key)
			c.ob("link", x.f.Name()+from, ok, where, "it is not all of the parameters "+x.key+": "+trunc(v.String(), 60))
		}
		v := stripConv(fieldLoad(s, ma, m.xl))
		ok := (appOf(v, "strconv.Atoi#0") || appOf(v, "strconv.ParseInt#0")) && get(v.Args[0], "xl")
		if ok && v.Op == "app" && strings.HasPrefix(v.S, "strconv.ParseInt") {
			b, known := v.Args[1].isIntConst()
			ok = known && b == 10
		}
		if n, known := v.isIntConst(); known && n == 0 {
			// none is given
			for q := s.facts; q != nil; q = q.prev {
				for a := range atomsOf(q.t) {
					if a.Op == "len" && get(a.Args[0], "xl") && entails(s.facts, polyOf(a)) {
						ok = true
					}
				}
			}
		}
		c.ob("link", m.xl.Name()+from, ok, where, "it is not the number in xl: "+trunc(v.String(), 60))
	})
}

// polyTerm1: the polynomial is one term.
func polyTerm1(p *Poly) (*Term, bool) {
	if len(p.Ms) == 1 && p.C == 0 && p.Ms[0].K == 1 && len(p.Ms[0].Atoms) == 1 {
		return p.Ms[0].Atoms[0], true
	}
	return nil, false
}
