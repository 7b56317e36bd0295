package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const blockLen = 1 << 14

// pieceLenFn: the method of the metainfo that tells how long a piece is.
func (c *C) pieceLenFn() *ssa.Function { return c.method("api/metainfo", "Info", "GetPieceLength") }

// opaquePieceLen keeps piece lengths symbolic.
func (m *storeModel) opaquePieceLen(o Opts) Opts {
	f := m.c.pieceLenFn()
	o.Pure = func(fn *ssa.Function) bool { return fn == f }
	return o
}

// lengthsOf: terms for the length of the piece with this index, known on the path.
func (m *storeModel) lengthsOf(s *State, index *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	see := func(a *Term) {
		if seen[a] {
			return
		}
		seen[a] = true
		if m.isPieceLen(a) {
			if len(a.Args) == 2 && eqPoly(s, polyOf(a.Args[1]), polyOf(index)) {
				out = append(out, a)
			}
		}
		if b := loadOf(a, m.plen); b != nil && m.isPiece(s, b, index) {
			out = append(out, a)
		}
	}
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			see(a)
		}
	}
	return out
}

func (m *storeModel) isPieceLen(a *Term) bool {
	f := m.c.pieceLenFn()
	return f != nil && a.Op == "call" && a.Obj == any(fnObj(f))
}

// isPiece: p is the torrent's piece with this index.
func (m *storeModel) isPiece(s *State, p, index *Term) bool {
	if p == nil || p.Op != "init" || p.Args[0].Op != "iaddr" || loadOf(p.Args[0].Args[0], m.pieces) == nil {
		return false
	}
	return index == nil || eqPoly(s, polyOf(p.Args[0].Args[1]), polyOf(index))
}

func paramOf(f *ssa.Function, s *State, name string) *ssa.Parameter {
	for _, p := range f.Params {
		if p.Name() == name {
			return p
		}
	}
	return nil
}

func ints(f *ssa.Function) []*ssa.Parameter {
	var out []*ssa.Parameter
	for _, p := range f.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			out = append(out, p)
		}
	}
	return out
}

func bytesParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if isByteSlice(p.Type()) {
			return p
		}
	}
	return nil
}

func init() {
	register("S04", "Only whole, aligned, new blocks are taken, each once", func(c *C) {
		c.rule("slot", 1, "a block is kept only in the slot of its piece that its offset names")
		c.rule("aligned", 1, "the offset of a block that is kept is a multiple of the block length")
		c.rule("exact", 1, "a block that is kept is exactly as long as the piece's block at this offset: one block length, or what is left of the piece")
		c.rule("new", 1, "a block is kept only when neither the torrent nor the piece is complete and its slot is empty")
		c.rule("data", 1, "what is kept is the data that was given")
		c.rule("count", 1, "the number of blocks goes up by one exactly when a block is kept")
		c.rule("whole", 1, "a piece is assembled exactly when the number of its blocks is the number of its slots")
		c.rule("piece", 3, "each piece of a torrent has the hash, index and length its metainfo names, and slots for all of its length")
		m := c.storeModel()
		if !m.ok {
			return
		}
		put := c.method(storagePkg, "Storage", "PutBlock")
		if put == nil {
			return
		}
		nblk := c.field(storagePkg, "Piece", "completeBlocks", isBasicKind(types.Int))
		slots := c.field(storagePkg, "Piece", "numBlocks", isBasicKind(types.Int))
		is := ints(put)
		data := bytesParam(put)
		if nblk == nil || slots == nil || len(is) != 2 || data == nil {
			c.undecide("PutBlock does not take an index, an offset and data")
			return
		}
		var index, begin, dat, dlen *Term
		o := m.opaquePieceLen(m.opts())
		o.Assume = func(s *State, fr *Frame) {
			index, begin, dat = fr.env[is[0]], fr.env[is[1]], fr.env[data]
			dlen = mkLen(dat)
		}
		isSlot := func(e *Event) *Term {
			if e.Kind != "store" || e.Addr == nil || e.Addr.Op != "iaddr" {
				return nil
			}
			return e.Addr.Args[1]
		}
		o.Keep = func(s *State, e *Event) bool {
			if e.Kind == "branch" {
				// keep apart what is decided about lengths
				for a := range atomsOf(e.Args[0]) {
					if m.isPieceLen(a) || a == dlen || loadOf(a, nblk) != nil {
						return true
					}
				}
				return false
			}
			if e.Kind == "store" && (e.Field == nblk || e.Field == m.coalP) {
				return true
			}
			if i := isSlot(e); i != nil {
				et := elemType(e.Addr.Args[0].T)
				return et != nil && types.Identical(et, elemType(m.blocks.Type()))
			}
			return e.Kind == "call" && (strings.HasPrefix(e.Name, "os.") || strings.HasPrefix(e.Name, "io.Copy"))
		}
		var piece *Term
		c.walk(put, o, func(s *State, e *Event) {
			i := isSlot(e)
			if i == nil || !o.Keep(s, e) {
				return
			}
			base := e.Addr.Args[0]
			p := loadOf(base, m.blocks)
			if p == nil {
				// slots made on this path: the piece they belong to
				for k, v := range s.mem.cells {
					if v == base && k.Op == "faddr" && k.Obj == any(m.blocks) {
						p = k.Args[0]
					}
				}
			}
			where := e.pos(c.p)
			q := fnName(e) + ": " + stableSite(c, e)
			if p == nil {
				// a list of blocks that is not (yet) a piece's
				return
			}
			piece = p
			c.ob("slot", q+": the piece", m.isPiece(s, p, index), where, "the block is kept in "+trunc(p.String(), 80)+", not in the piece with the given index")
			want := mk("quo", "", nil, i.T, begin, mkInt(blockLen, begin.T))
			c.ob("slot", q+": the slot", eqPoly(s, polyOf(i), polyOf(want)), where, "the slot is "+trunc(i.String(), 80))
			rem := mk("rem", "", nil, begin.T, begin, mkInt(blockLen, begin.T))
			c.ob("aligned", q, eqPoly(s, polyOf(rem), polyConst(0)) && entails(s.facts, polySub(polyConst(0), polyOf(begin))), where, "the offset may be misaligned or negative")
			why := "the piece's length is not looked at"
			for _, L := range m.lengthsOf(s, index) {
				end := polyAdd(polyOf(begin), polyOf(dlen), 1)
				in := entails(s.facts, polySub(end, polyOf(L))) && entails(s.facts, polySub(polyAdd(polyOf(begin), polyConst(1), 1), polyOf(L)))
				full := eqPoly(s, polyOf(dlen), polyConst(blockLen))
				last := eqPoly(s, end, polyOf(L))
				low := last && (entails(s.facts, polySub(polyConst(0), polyOf(dlen))))
				if in && (full || low) {
					why = ""
					break
				}
				// the length is the smaller of the two
				if in && m.isMin(s, dlen, polySub(polyOf(L), polyOf(begin))) {
					why = ""
					break
				}
				why = "the length may differ from that of the piece's block at the offset"
			}
			c.ob("exact", q, why == "", where, why)
			tor := mk("none", "", nil, nil)
			if p.Op == "init" && p.Args[0].Op == "iaddr" {
				if x := loadOf(p.Args[0].Args[0], m.pieces); x != nil {
					tor = x
				}
			}
			fresh := base.Op == "mkslice" || base.Op == "alloc"
			if !fresh {
				v, ok := s.query(mkEq(s.load(e.Addr, elemType(base.T)), mkNil()))
				fresh = ok && v || m.wasNil(s, e)
			}
			why = ""
			switch {
			case !known(s, s.load(mkFaddr(p, m.coalP), m.coalP.Type()), false):
				why = "the piece may be complete"
			case tor.Op == "none" || !known(s, s.load(mkFaddr(tor, m.coalT), m.coalT.Type()), false):
				why = "the torrent may be complete"
			case !fresh:
				why = "the slot may be taken"
			}
			c.ob("new", q, why == "", where, why)
			c.ob("data", q, m.holds(s, e.Val, dat, 0), where, "what is kept is "+trunc(e.Val.String(), 80))
		}, func(t *Trace) {
			kept, counted := 0, 0
			inc := true
			counts := map[*Term]*Term{}
			asm := -1
			for i, e := range t.Ev {
				if isSlot(e) != nil && piece != nil && (loadOf(e.Addr.Args[0], m.blocks) != nil || e.Addr.Args[0].Op == "mkslice") {
					kept++
				}
				if e.Kind == "store" && e.Field == nblk {
					counted++
					old := mk("init", "", nil, nil, e.Addr)
					d := polySub(polyOf(e.Val), polyOf(stripVer(old)))
					_ = d
					inc = inc && isIncrement(e.Val, e.Addr)
					counts[e.Addr] = e.Val
				}
				if e.Kind == "store" && e.Field == m.coalP && asm < 0 {
					asm = i
				}
			}
			why := ""
			switch {
			case kept > 1:
				why = "more than one block may be kept"
			case kept != counted:
				why = fmt.Sprintf("%d blocks are kept and %d counted", kept, counted)
			case !inc:
				why = "the number of blocks does not go up by one"
			}
			if t.End == "return" {
				c.ob("count", "PutBlock: each path", why == "", c.p.pos(put.Pos()), why)
			}
			if t.End != "return" || kept == 0 {
				return
			}
			// assembled <=> all there
			s := t.Final
			for a, v := range counts {
				p := a.Args[0]
				isLen := func(x *Term) bool {
					return x.Op == "len" && (loadOf(x.Args[0], m.blocks) != nil && sameObj(loadOf(x.Args[0], m.blocks), p) || x.Args[0].Op == "mkslice") || loadOf(x, slots) != nil
				}
				if asm >= 0 {
					c.ob("whole", "a piece is marked complete", m.relates(t.Ev[asm].Facts, v, isLen, true), c.p.pos(put.Pos()), "blocks may be missing when the piece is marked complete")
				} else if succeeds(t) {
					c.ob("whole", "a piece stays incomplete", m.relates(s.facts, v, isLen, false), c.p.pos(put.Pos()), "success may be returned although all blocks are there and the piece was not completed")
				}
			}
		})
		c.newPieces(m, slots)
	})
}

// wasNil: the value in the slot was found to be nil before the store.
func (m *storeModel) wasNil(s *State, e *Event) bool {
	for n := s.facts; n != nil; n = n.prev {
		if n.val && n.t.Op == "eq" {
			for i, x := range n.t.Args {
				if x.Op == "init" && stripVer(x.Args[0]) == stripVer(e.Addr) && n.t.Args[1-i].Op == "nil" {
					return true
				}
			}
		}
	}
	return false
}

// isMin: t is the smaller of a block length and rest.
func (m *storeModel) isMin(s *State, t *Term, rest *Poly) bool {
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if a.Op != "min" || len(a.Args) != 2 {
				continue
			}
			for i, x := range a.Args {
				if k, ok := x.isIntConst(); ok && k == blockLen && eqPoly(s, polyOf(a.Args[1-i]), rest) && eqPoly(s, polyOf(t), polyOf(a)) {
					return true
				}
			}
		}
	}
	return false
}

// holds: the value is, or points to a struct that holds, v or a copy of it.
func (m *storeModel) holds(s *State, t, v *Term, depth int) bool {
	t = unconv(t)
	if t == v || copyOf(t, v) {
		return true
	}
	if depth > 2 {
		return false
	}
	if p, ok := t.T.Underlying().(*types.Pointer); ok {
		if st, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if types.Identical(f.Type(), v.T) && m.holds(s, s.load(mkFaddr(t, f), f.Type()), v, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// isIncrement: val is one more than what was at addr.
func isIncrement(val, addr *Term) bool {
	p := polyOf(val)
	if p.C != 1 || len(p.Ms) != 1 || p.Ms[0].K != 1 || len(p.Ms[0].Atoms) != 1 {
		return false
	}
	a := p.Ms[0].Atoms[0]
	return a.Op == "init" && stripVer(a.Args[0]) == stripVer(addr)
}

// relates: v is known to be equal (or not) to a term that satisfies is.
func (m *storeModel) relates(fs *Facts, v *Term, is func(*Term) bool, eq bool) bool {
	for n := fs; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if !is(a) {
				continue
			}
			d := polySub(polyOf(v), polyOf(a))
			if val, ok := queryFacts(fs, boolTerm(condEq0(d))); ok && val == eq {
				return true
			}
		}
	}
	return false
}

// newPieces: how the pieces of a torrent are made.
func (c *C) newPieces(m *storeModel, slots *types.Var) {
	f := c.fn(storagePkg, "New")
	if f == nil {
		return
	}
	o := m.opaquePieceLen(m.opts())
	o.MergeMem = false
	l := newLists()
	o.OnReset = l.reset
	isElem := func(e *Event) bool {
		return e.Kind == "store" && e.Addr != nil && e.Addr.Op == "iaddr" && elemType(e.Addr.Args[0].T) != nil && isPtrTo(storagePkg, "Piece")(elemType(e.Addr.Args[0].T))
	}
	o.Keep = func(s *State, e *Event) bool { return isElem(e) }
	c.walk(f, o, func(s *State, e *Event) {
		l.on(s, e)
		var p, idx *Term
		switch {
		case isElem(e):
			p, idx = e.Val, e.Addr.Args[1]
			if e.Addr.Args[0].Op == "alloc" {
				return // arguments of append
			}
		case e.Kind == "append" && len(e.Args) == 2 && e.Args[1].Op == "list" && len(e.Args[1].Args) == 1 && e.Args[1].Args[0].T != nil && isPtrTo(storagePkg, "Piece")(e.Args[1].Args[0].T):
			p, idx = e.Args[1].Args[0], mkLen(e.Args[0])
		default:
			return
		}
		where := e.pos(c.p)
		ld := func(v *types.Var) *Term { return s.load(mkFaddr(p, v), v.Type()) }
		n := polyOf(ld(m.pindex))
		// appended: the position is the iteration
		if !eqPoly(s, n, polyOf(idx)) {
			for a := range atomsOf(ld(m.pindex)) {
				if a.Op == "iter" && len(n.Ms) == 1 && n.C == 0 && e.Kind == "append" {
					idx = a
				}
			}
		}
		c.ob("piece", "New: index", eqPoly(s, n, polyOf(idx)), where, "a piece has the index "+trunc(ld(m.pindex).String(), 60)+" at position "+trunc(idx.String(), 60))
		h := ld(m.sha)
		okh := h.Op == "init" && h.Args[0].Op == "iaddr" && loadOf(h.Args[0].Args[0], m.infoPieces) != nil && eqPoly(s, polyOf(h.Args[0].Args[1]), n)
		c.ob("piece", "New: hash", okh, where, "the hash of a piece is "+trunc(h.String(), 80))
		L := ld(m.plen)
		pl := c.pieceLenFn()
		okl := L.Op == "call" && L.Obj == any(fnObj(pl)) && eqPoly(s, polyOf(L.Args[1]), n)
		c.ob("piece", "New: length", okl, where, "the length of a piece is "+trunc(L.String(), 80))
		sl := polyOf(ld(slots))
		if entails(s.facts, polySub(polyConst(1), polyOf(L))) || true {
			s2 := s.clone()
			s2.assume(boolTerm(condLe0(polySub(polyConst(1), polyOf(L)))), true)
			B := polyScale(sl, blockLen)
			enough := entails(s2.facts, polySub(polyOf(L), B))
			tight := entails(s2.facts, polySub(polyAdd(B, polyConst(1-blockLen), 1), polyOf(L)))
			c.ob("piece", "New: slots", enough && tight, where, "the number of block slots does not cover the piece exactly: "+trunc(ld(slots).String(), 80))
		}
	}, func(t *Trace) {
		if t.End != "return" {
			return
		}
		tor := t.Ret[0]
		tf := c.field(storagePkg, "Storage", "Torrent", isPtrTo(storagePkg, "Torrent"))
		if tf == nil {
			return
		}
		s := t.Final
		ps := s.load(mkFaddr(s.load(mkFaddr(tor, tf), tf.Type()), m.pieces), m.pieces.Type())
		r := l.resolve(t, &Event{Facts: s.facts}, ps)
		if r.bad == "" {
			r.bad = ""
			if loadOf(r.over, m.infoPieces) == nil {
				r.bad = "it is made from " + trunc(r.over.String(), 60)
			}
		}
		if ps.Op == "mkslice" && len(t.Ev) == 0 {
			// no iteration on this path: the torrent has no pieces
			return
		}
		c.ob("piece", "New: all pieces", r.bad == "", c.p.pos(f.Pos()), "the list of pieces: "+r.bad)
	})
}
