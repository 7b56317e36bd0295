package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const pieceLen = "(*api/metainfo.Info).GetPieceLength"

func init() {
	register("P06", "Pieces are requested whole when missing and announced when complete", func(c *C) {
		c.rule("missing", 1, "a piece is requested only from a peer that has it, and only if it is missing")
		c.rule("blocks", 3, "a piece is requested as consecutive blocks from its start to its end, after it was emptied")
		c.rule("covered", 1, "a piece is waited for only after all its blocks were requested")
		c.rule("announced", 1, "a piece is announced only when it is complete")
		c.rule("everyone", 2, "a complete piece is announced to every active peer, even if that fails for others")
		c.rule("interested", 1, "the peer is told of our interest once it is known to have a piece that is missing")
		c.rule("bored", 1, "our interest is taken back only when the peer has no missing piece, which cannot change until it is told")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			from := " from " + shortName(f)
			o := m.opts(mm, f, p2pStops...)
			opaque := o.Opaque
			o.Opaque = func(fn *ssa.Function) bool { return shortName(fn) == pieceLen || opaque(fn) }
			pure := o.Pure
			o.Pure = func(fn *ssa.Function) bool {
				return shortName(fn) == pieceLen || strings.HasPrefix(shortName(fn), "(bitfield.Bitfield).") && fn.Name() != "Add" || pure(fn)
			}
			o.Keep = func(s *State, e *Event) bool {
				return m.keep(s, e) || e.Kind == "call" && (strings.HasPrefix(e.Name, "(bitfield.Bitfield).") || strings.HasSuffix(e.Name, "errgroup.Group).Wait") || e.Name == pieceLen || e.Name == "maps.Clone")
			}
			asked := map[ssa.Instruction]bool{}
			with := map[*ssa.BasicBlock]bool{}
			without := map[*ssa.BasicBlock]*Event{}
			spawned := map[*ssa.BasicBlock][]ssa.Instruction{}
			type skip struct {
				h *ssa.BasicBlock
				e *Event
			}
			var skips []skip
			m.begins = nil
			c.walk(f, o, func(s *State, e *Event) {
				evs := before(s, e)
				switch {
				case e.Kind == "mapstore" && loadOf(e.Addr, m.inflight) != nil && e.Val.Op != "nil":
					ok := m.missing(s, evs, e.Val, e.Args[0])
					c.ob("missing", fnName(e)+from, ok, e.pos(c.p), "the piece "+trunc(e.Args[0].String(), 60)+" may not be missing, or the peer may not have it")
				case e.Kind == "call" && (strings.HasSuffix(e.Name, "storage.Piece).WaitContext") || strings.HasSuffix(e.Name, "storage.Piece).Wait")):
					e, ok := e, m.covered(s, evs, e)
					c.after(func() {
						c.ob("covered", fnName(e)+from, ok(), e.pos(c.p), "the end of the piece may not have been requested")
					})
				case e.Kind == "call":
					p, msg := m.sends(s, e)
					if p == nil || isHandshake(msg) || msg.Op == "param" {
						return
					}
					if yes, known := mm.is(s, msg, "REQUEST"); known && yes {
						if in := threadOf(evs); in != nil {
							asked[in] = true
						}
						i, b, l := mm.get(s, msg, "Index"), mm.get(s, msg, "Begin"), mm.get(s, msg, "Length")
						m.blockOf(s, evs, e, p, i, b, l, from)
					}
					if yes, known := mm.is(s, msg, "HAVE"); known && yes {
						e.Tag = "HAVE"
						c.ob("announced", fnName(e)+from, m.complete(s, evs, mm.get(s, msg, "Index")), e.pos(c.p), "the piece may not be complete")
					}
				case e.Kind == "atomic" && e.Field == m.interested && !isFresh(e.Addr.Args[0]):
					to, known := boolOf(s, e.Args[len(e.Args)-1])
					if op, ok := flagOpOf(s, e); ok && op.perhaps && !(known && to) {
						c.ob("bored", fnName(e)+from, m.bored(s, evs, e), e.pos(c.p), "the peer may have a missing piece")
					}
				case e.Kind == "rearrive":
					w := since(evs, e.Entry)
					h := e.In.Block()
					n := 0
					for _, x := range threadEvents(w) {
						if x.Kind == "spawn" {
							spawned[h] = append(spawned[h], x.In)
							n++
						}
					}
					if n == 0 {
						skips = append(skips, skip{h, e})
					}
					m.toAll(s, threadEvents(w), with, without, h)
					m.interest(s, f, threadEvents(w), nil, from)
				}
			}, func(t *Trace) {
				if t.End != "return" || t.Start > 0 && t.Start >= len(t.Ev) {
					return
				}
				own := t.Ev[t.Start:]
				m.interest(t.Final, f, own, t.Ret, from)
				for i, e := range own {
					if e.Kind != "call" || !strings.HasSuffix(e.Name, "storage.Piece).WaitContext") && !strings.HasSuffix(e.Name, "storage.Piece).Wait") {
						continue
					}
					if v, known := t.Final.query(mkEq(e.Res[0], mkNil())); !known || !v || f.Name() == "Wait" {
						continue
					}
					all := false
					for _, x := range own[i+1:] {
						if x.Kind == "rangeend" && m.activeOf(own, x.Addr) {
							all = true
						}
					}
					c.ob("everyone", fnName(e)+from, all, e.pos(c.p), "the complete piece is not announced to all active peers")
				}
			})
			c.runAfter()
			for h := range with {
				e := without[h]
				pos := ""
				if e != nil {
					pos = e.pos(c.p)
				}
				c.ob("everyone", shortName(h.Parent())+": each"+from, e == nil, pos, "an active peer is left out")
			}
			for _, sk := range skips {
				for _, in := range spawned[sk.h] {
					if asked[in] {
						c.ob("blocks", shortName(sk.h.Parent())+": each"+from, false, c.p.pos(in.Pos()), "a block may be left out")
					}
				}
			}
		}
	})
}

// threadOf: where the current goroutine was started.
func threadOf(evs []*Event) ssa.Instruction {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "thread" {
			return evs[i].In
		}
	}
	return nil
}

// itemsOf: the event that listed the set the element is of.
func itemsOf(evs []*Event, list *Term) *Event {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if e.Kind == "call" && e.Name == "(bitfield.Bitfield).Items" && len(e.Res) > 0 && e.Res[0] == list {
			return e
		}
	}
	return nil
}

// lack: the set is what p has and we do not.
func (m *p2pModel) lack(evs []*Event, set, p *Term) *Event {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if e.Kind != "call" || e.Name != "(bitfield.Bitfield).Difference" || e.Res[0] != set || loadOf(e.Args[0], m.bits) != p {
			continue
		}
		for _, x := range evs {
			if x.Kind == "call" && x.Name == "(*storage.Torrent).Pieces" && x.Res[0] == e.Args[1] {
				return e
			}
		}
	}
	return nil
}

// missing: the peer has the piece and we do not.
func (m *p2pModel) missing(s *State, evs []*Event, p, index *Term) bool {
	x := unconv(index)
	for x.Op == "init" || x.Op == "havoc" {
		x = unconv(x.Args[0])
	}
	var list *Event
	if x.Op == "iaddr" {
		list = itemsOf(evs, stripVer(x.Args[0]))
		if list == nil {
			list = itemsOf(evs, x.Args[0])
		}
	}
	if list != nil && m.lack(evs, list.Args[0], p) != nil {
		return true
	}
	has := list != nil && loadOf(list.Args[0], m.bits) == p
	lacks := false
	for _, e := range evs {
		if e.Kind != "call" || len(e.Res) == 0 || len(e.Args) < 2 || e.Args[1] != index {
			continue
		}
		v, known := boolOf(s, e.Res[0])
		switch {
		case e.Name == "(bitfield.Bitfield).Has" && loadOf(e.Args[0], m.bits) == p && known && v:
			has = true
		case e.Name == "(*storage.Torrent).HasPiece" && known && !v:
			lacks = true
		}
	}
	return has && lacks
}

// blockOf: the request is for the next part of a piece.
func (m *p2pModel) blockOf(s *State, evs []*Event, e *Event, p, i, b, l *Term, from string) {
	c := m.c
	where := fnName(e)
	reset, length := m.emptied(s, evs, p, i)
	c.ob("blocks", where+": emptied"+from, reset, e.pos(c.p), "the piece was not emptied before, or it is another one")
	if length == nil {
		c.ob("blocks", where+": length"+from, false, e.pos(c.p), "the length of the piece is not known")
		return
	}
	bp := polyOf(b)
	okBegin := bp.C == 0 && len(bp.Ms) > 0
	for _, mo := range bp.Ms {
		okBegin = okBegin && mo.K > 0 && mo.K == bp.Ms[0].K && len(mo.Atoms) == 1 && mo.Atoms[0].Op == "iter"
	}
	c.ob("blocks", where+": begin"+from, okBegin, e.pos(c.p), "the block starts at "+trunc(b.String(), 80)+", not at a multiple of the iteration")
	if !okBegin {
		return
	}
	m.begins = append(m.begins, bp)
	step := polyConst(bp.Ms[0].K)
	rest := polySub(polyOf(length), bp)
	ok := false
	lt := unconv(l)
	if lt.Op == "min" && len(lt.Args) == 2 {
		for j, a := range lt.Args {
			if isPoly(a, step) && isPoly(lt.Args[1-j], rest) {
				ok = true
			}
		}
	}
	fits := func(p, q *Poly) bool { return entails(s.facts, polySub(p, q)) }
	lp := polyOf(l)
	if fits(lp, rest) && fits(rest, lp) && fits(lp, step) || fits(lp, step) && fits(step, lp) && fits(lp, rest) {
		ok = true
	}
	c.ob("blocks", where+": size"+from, ok, e.pos(c.p), "the block is "+trunc(l.String(), 80)+" long: the next one does not start where it ends, or it does not end with the piece")
}

func isPoly(t *Term, p *Poly) bool {
	d := polySub(polyOf(t), p)
	return d.C == 0 && len(d.Ms) == 0
}

// emptied: the piece was emptied, and its length looked up.
func (m *p2pModel) emptied(s *State, evs []*Event, p, i *Term) (reset bool, length *Term) {
	srv := fieldLoad(s, p, m.server)
	for _, e := range evs {
		if e.Kind != "call" || len(e.Args) < 2 || e.Args[1] != i {
			continue
		}
		switch e.Name {
		case "(*storage.Storage).ResetPiece":
			reset = reset || loadOf(stripVer(e.Args[0]), m.storage) == stripVer(srv) || e.Args[0] == fieldLoad(s, srv, m.storage)
		case pieceLen:
			length = e.Res[0]
		}
	}
	return
}

// covered: the requests reach the end of the piece that is waited for.
func (m *p2pModel) covered(s *State, evs []*Event, wait *Event) func() bool {
	no := func() bool { return false }
	var index *Term
	for _, e := range evs {
		if e.Kind == "call" && strings.HasSuffix(e.Name, "Piece") && len(e.Res) > 0 && e.Res[0] == wait.Args[0] && len(e.Args) == 2 {
			index = e.Args[1]
		}
	}
	if index == nil {
		return no
	}
	var length *Term
	for _, e := range evs {
		if e.Kind == "call" && e.Name == pieceLen && e.Args[1] == index {
			length = e.Res[0]
		}
	}
	if length == nil {
		return no
	}
	spawns := 0
	for _, e := range threadEvents(evs) {
		if e.Kind == "spawn" {
			spawns++
		}
	}
	facts := s.facts
	return func() bool {
		for _, at := range m.begins {
			if entails(facts, polySub(polyOf(length), at)) {
				return true
			}
			if spawns > 0 && entails(facts, polySub(polyOf(length), polyAdd(at, polyConst(at.Ms[0].K), 1))) {
				return true
			}
		}
		return false
	}
}

// complete: the piece was waited for, or found complete.
func (m *p2pModel) complete(s *State, evs []*Event, index *Term) bool {
	for _, e := range evs {
		if e.Kind != "call" || len(e.Res) == 0 {
			continue
		}
		switch {
		case strings.HasSuffix(e.Name, "storage.Piece).WaitContext") || strings.HasSuffix(e.Name, "storage.Piece).Wait"):
			if v, known := s.query(mkEq(e.Res[0], mkNil())); !known || !v {
				continue
			}
			for _, x := range evs {
				if x.Kind == "call" && (x.Name == "(*storage.Storage).ResetPiece" || x.Name == "(*storage.Storage).GetPiece" || x.Name == "(*storage.Torrent).GetPiece") && x.Res[0] == e.Args[0] && x.Args[1] == index {
					return true
				}
			}
		case e.Name == "(*storage.Torrent).HasPiece" && len(e.Args) == 2 && e.Args[1] == index:
			if v, known := boolOf(s, e.Res[0]); known && v {
				return true
			}
		}
	}
	return false
}

// activeOf: the map is that of the active peers, or a copy of it.
func (m *p2pModel) activeOf(evs []*Event, mp *Term) bool {
	if loadOf(mp, m.active) != nil {
		return true
	}
	if callName(mp) == "maps.Clone" {
		return loadOf(mp.Args[0], m.active) != nil
	}
	for _, e := range evs {
		if e.Kind == "call" && e.Name == "maps.Clone" && len(e.Res) > 0 && e.Res[0] == mp {
			return loadOf(e.Args[0], m.active) != nil
		}
	}
	return false
}

// toAll: a piece that is announced to one is announced to all.
func (m *p2pModel) toAll(s *State, w []*Event, with map[*ssa.BasicBlock]bool, without map[*ssa.BasicBlock]*Event, h *ssa.BasicBlock) {
	var next *Event
	for _, e := range w {
		if e.Kind == "rangenext" && e.Val != nil && isPeerPtr(e.Val.T) {
			next = e
		}
	}
	if next == nil {
		return
	}
	told := false
	for _, e := range w {
		switch {
		case e.Tag == "HAVE":
			if p, _ := m.sends(s, e); p == next.Val {
				with[h], told = true, true
			}
		case e.Kind == "atomic" && e.Addr == mkFaddr(next.Val, m.closed):
			if op, ok := flagOpOf(s, e); ok && op.set && op.val {
				told = true
			}
		}
	}
	if !told {
		without[h] = next
	}
}

func isPeerPtr(t types.Type) bool { return t != nil && strings.HasSuffix(t.String(), "p2p.Peer") }

// bored: while the peer cannot be told anything else, it was found to have
// nothing we miss.
func (m *p2pModel) bored(s *State, evs []*Event, e *Event) bool {
	p := e.Addr.Args[0]
	lock := mkFaddr(p, m.pMu)
	for i := len(evs) - 1; i >= 0; i-- {
		x := evs[i]
		if x.Kind != "call" || x.Name != "(bitfield.Bitfield).Items" {
			continue
		}
		d := m.lack(evs, x.Args[0], p)
		if d == nil || !sameHold(evs, d, e, lock) {
			continue
		}
		if v, known := boolOf(s, boolTerm(condEq0(polyOf(mkLen(x.Res[0]))))); known && v || entails(s.facts, polyOf(mkLen(x.Res[0]))) {
			return true
		}
	}
	return false
}

// interest: when the peer has got a missing piece, our interest is announced.
func (m *p2pModel) interest(s *State, root *ssa.Function, evs []*Event, ret []*Term, from string) {
	if root.Name() == "RecordIndex" {
		return
	}
	if len(ret) > 0 && isErrorType(ret[len(ret)-1].T) {
		if v, known := s.query(mkEq(ret[len(ret)-1], mkNil())); known && !v {
			return // the connection ends
		}
	}
	for i, e := range evs {
		if !isBitAdd(e) {
			continue
		}
		p := loadOf(e.Args[0], m.bits)
		if p == nil {
			continue
		}
		ok := false
		for _, x := range evs[i+1:] {
			switch {
			case x.Kind == "atomic" && x.Addr == mkFaddr(p, m.interested):
				if op, k := flagOpOf(s, x); k && (op.set && op.val || x.Name == "CompareAndSwap") {
					ok = true
				}
			case x.Kind == "call" && x.Name == "(*storage.Torrent).HasPiece" && polyTermEq(x.Args[1], e.Args[1]):
				if v, known := boolOf(s, x.Res[0]); known && v {
					ok = true
				}
			}
		}
		m.c.ob("interested", fnName(e)+from, ok, e.pos(m.c.p), "our interest is not announced afterwards")
	}
}
