package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const putBlock = "(*storage.Storage).PutBlock"

func init() {
	register("P04", "Only requested data is stored and counted, liars are blocked", func(c *C) {
		c.rule("asked", 2, "a block is stored only while a request for just this block is outstanding with the peer that sent it")
		c.rule("counted", 6, "every new block is counted once, and so is every block that was sent")
		c.rule("blamed", 2, "a peer that completes a piece with wrong data is disconnected and all known addresses of it are blocked, others are not")
		c.rule("known", 2, "the address of every peer that takes part is known under its identity")
		c.rule("avoided", 2, "blocked addresses are neither queued nor dialled")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		counters := map[*types.Var]bool{m.pDown: true, m.sDown: true, m.pUp: true, m.sUp: true}
		type sentence struct {
			e      *Event
			from   string
			walked []*ssa.BasicBlock
		}
		var wrong []sentence
		m.blocks, m.spares = map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]*Event{}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			from := " from " + shortName(f)
			o := m.opts(mm, f, p2pStops...)
			o.Keep = func(s *State, e *Event) bool {
				return m.keep(s, e) || e.Kind == "call" && e.Name == "maps.Copy"
			}
			c.walk(f, o, func(s *State, e *Event) {
				switch {
				case e.Kind == "call" && e.Name == putBlock:
					p, ok := m.asked(s, e)
					c.ob("asked", fnName(e)+from, ok, e.pos(c.p), "a block is stored that was not requested as it is, or may not be outstanding any more")
					if p != nil {
						m.to[e] = p
						c.ob("asked", fnName(e)+": storage"+from, e.Args[0] == fieldLoad(s, fieldLoad(s, p, m.server), m.storage), e.pos(c.p), "the block is stored elsewhere")
					}
					if f.Name() == "HandleMessage" && len(f.Params) == 2 {
						msg := m.msgParam(s, e)
						same := msg != nil && e.Args[1] == mm.get(s, msg, "Index") && e.Args[2] == mm.get(s, msg, "Begin")
						c.ob("asked", fnName(e)+": message", same, e.pos(c.p), "the block is not stored where its message says")
					}
				case e.Kind == "mapstore" && loadOf(e.Addr, m.blocked) != nil:
					if f.Name() != "Block" {
						c.ob("blamed", fnName(e)+": only"+from, m.guilty(s, before(s, e)) != nil, e.pos(c.p), "an address is blocked though its peer sent nothing wrong")
					}
				case e.Kind == "rearrive":
					m.allBlocked(s, e, from)
				case e.Kind == "mapstore" && loadOf(e.Addr, m.active) != nil:
					c.ob("known", fnName(e)+from, m.addrKnown(s, e), e.pos(c.p), "the address of the peer is not recorded under its identity")
				case (e.Kind == "select" && e.Name == "send" || e.Kind == "send") && loadOf(e.Addr, m.newQ) != nil:
					c.ob("avoided", fnName(e)+from, m.notBlocked(s, e.Val, nil), e.pos(c.p), "a blocked address may be queued")
				case e.Kind == "call" && (strings.HasPrefix(e.Name, "net.Dial") || strings.HasPrefix(e.Name, "(*net.Dialer).Dial")):
					ok := false
					for _, a := range e.Args {
						if m.notBlocked(s, nil, a) {
							ok = true
						}
					}
					c.ob("avoided", fnName(e)+from, ok, e.pos(c.p), "a blocked address may be dialled")
				case e.Kind == "atomic" && counters[e.Field] && e.Name != "Load" && e.Name != "Add":
					c.ob("counted", fnName(e)+": "+e.Name+from, false, e.pos(c.p), "a counter is changed by other means than adding to it")
				case e.Kind == "atomic" && counters[e.Field] && e.Name == "Add":
					up := e.Field == m.pUp || e.Field == m.sUp
					ok := m.countable(s, mm, e, up)
					c.ob("counted", fnName(e)+": "+e.Field.Name()+from, ok, e.pos(c.p), "bytes are counted that are not those of one block that was just transferred, or twice")
				}
			}, func(t *Trace) {
				if t.End != "return" || t.Start > 0 && t.Start >= len(t.Ev) {
					return
				}
				s, evs := t.Final, t.Ev[t.Start:]
				for i, e := range evs {
					if e.Kind == "call" && e.Name == putBlock && m.to[e] != nil {
						p := m.to[e]
						if v, known := s.query(mkEq(e.Res[0], mkNil())); known && v {
							n := m.adds(s, evs[i:], p, m.pDown, m.sDown, e.Args[3])
							c.ob("counted", fnName(e)+": stored"+from, n == 2, e.pos(c.p), "a block that was stored is not counted for the peer and for the server")
						}
						if isChecksum(s, e.Res[0]) {
							walked, closed := m.punished(s, evs[i+1:], p)
							c.ob("blamed", fnName(e)+": closed"+from, closed, e.pos(c.p), "the peer that sent wrong data is not disconnected")
							wrong = append(wrong, sentence{e, from, walked})
						}
					}
					if p, msg := m.sends(s, e); p != nil && !isHandshake(msg) {
						if yes, known := mm.is(s, msg, "PIECE"); known && yes {
							if v, k := s.query(mkEq(e.Res[0], mkNil())); k && v {
								n := m.adds(s, evs[i:], p, m.pUp, m.sUp, mm.get(s, msg, "Piece"))
								c.ob("counted", fnName(e)+": sent"+from, n == 2, e.pos(c.p), "a block that was sent is not counted for the peer and for the server")
							}
						}
					}
				}
			})
		}
		for b := range m.blocks {
			e := m.spares[b]
			pos := ""
			if e != nil {
				pos = e.pos(c.p)
			}
			c.ob("blamed", shortName(b.Parent())+": all", e == nil, pos, "an address of the peer is left out")
		}
		for _, w := range wrong {
			ok := false
			for _, b := range w.walked {
				if b == nil || m.blocks[b] {
					ok = true
				}
			}
			c.ob("blamed", fnName(w.e)+": blocked"+w.from, ok, w.e.pos(c.p), "the known addresses of the peer that sent wrong data are not blocked")
		}
	})
}

// msgParam: the message that is handled.
func (m *p2pModel) msgParam(s *State, e *Event) *Term {
	var msg *Term
	for _, a := range e.Args {
		a.any(func(x *Term) bool {
			if x.Op == "param" && x.T != nil && strings.HasSuffix(x.T.String(), "peer.Message") {
				msg = x
			}
			return false
		})
	}
	return msg
}

// asked: a request for exactly this block is outstanding.
func (m *p2pModel) asked(s *State, e *Event) (peer *Term, ok bool) {
	for n := s.facts; n != nil; n = n.prev {
		if n.t.Op != "inmap" || !n.val {
			continue
		}
		p := loadOf(n.t.Args[0], m.reqs)
		if p == nil {
			continue
		}
		// nothing was removed since, and nobody else can
		if in, _ := m.outstanding(s, n.t.Args[0], n.t.Args[1]); in != n.t {
			continue
		}
		if e.Locks.find(mkFaddr(p, m.pMu)) == nil {
			continue
		}
		k := s.parts(n.t.Args[1])
		if len(k) != 3 {
			continue
		}
		if k[0] == e.Args[1] && k[1] == e.Args[2] && polyTermEq(k[2], mkLen(e.Args[3])) {
			return p, true
		}
		peer = p
	}
	return peer, false
}

// outstanding: whether the map has the key now.
func (m *p2pModel) outstanding(s *State, mp, key *Term) (in *Term, known bool) {
	_, in = s.mapGet(mp, key, mp.T.Underlying().(*types.Map).Elem())
	v, known := boolOf(s, in)
	if known && v && in.Op != "inmap" {
		in = s.mapIn(mp, key)
	}
	return in, known
}

// parts are the fields of a struct value.
func (s *State) parts(t *Term) []*Term {
	if t.Op == "struct" {
		return t.Args
	}
	st, ok := t.T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var out []*Term
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, mkFval(t, st.Field(i), i))
	}
	return out
}

// isChecksum: the error says that a piece has a wrong hash.
func isChecksum(s *State, err *Term) bool {
	return fileFact(s.facts, func(t *Term) bool {
		switch {
		case t.Op == "typeis" && t.Args[0] == err:
			return strings.HasSuffix(t.S, "storage.ChecksumError")
		case t.Op == "app" && strings.HasPrefix(t.S, "errors.As:") && t.Args[0] == err:
			return strings.HasSuffix(t.S, "storage.ChecksumError")
		}
		return false
	})
}

// guilty: the peer whose block turned out wrong.
func (m *p2pModel) guilty(s *State, evs []*Event) *Term {
	for _, e := range evs {
		if e.Kind == "call" && e.Name == putBlock && isChecksum(s, e.Res[0]) {
			return m.to[e]
		}
	}
	return nil
}

// knownOf: the addresses known of a peer.
func (m *p2pModel) knownOf(t *Term) bool {
	return t.any(func(x *Term) bool { return loadOf(x, m.addrs) != nil })
}

// allBlocked: every address of a peer that is looked at gets blocked.
func (m *p2pModel) allBlocked(s *State, e *Event, from string) {
	evs := before(s, e)
	for i, x := range evs {
		if x == e.Entry {
			evs = evs[i+1:]
			break
		}
	}
	var next *Event
	blocks := false
	for _, x := range evs {
		if x.Kind == "rangenext" && m.knownOf(x.Addr) {
			next = x
		}
		if x.Kind == "mapstore" && loadOf(x.Addr, m.blocked) != nil {
			blocks = true
			ok := next != nil && x.Args[0] == next.Args[0]
			m.c.ob("blamed", fnName(x)+": address"+from, ok, x.pos(m.c.p), "what is blocked is not an address of the peer")
		}
	}
	if next != nil && blocks {
		m.blocks[e.In.Block()] = true
	} else if next != nil {
		m.spares[e.In.Block()] = next
	}
}

// punished: all known addresses of the peer are blocked and its connection is
// closed.
func (m *p2pModel) punished(s *State, evs []*Event, p *Term) (walked []*ssa.BasicBlock, closed bool) {
	for _, e := range evs {
		switch {
		case e.Kind == "rangeend" && m.knownOf(e.Addr) && !closed:
			walked = append(walked, e.In.Block())
		case e.Kind == "call" && e.Name == "maps.Copy" && loadOf(e.Args[0], m.blocked) != nil && m.knownOf(e.Args[1]):
			walked = append(walked, nil)
		case e.Kind == "atomic" && e.Addr == mkFaddr(p, m.closed) && e.Name != "Load":
			closed = true
		}
	}
	return walked, closed
}

// addrKnown: the peer's address was entered among those of its identity.
func (m *p2pModel) addrKnown(s *State, e *Event) bool {
	evs := before(s, e)
	for i := len(evs) - 1; i >= 0; i-- {
		x := evs[i]
		if x.Kind == "unlock" && fieldOfAddr(x.Addr) == m.sMu {
			break
		}
		if x.Kind != "mapstore" || x.Args[0] == nil || len(x.Args[0].Args) == 0 {
			continue
		}
		if mt, ok := x.Addr.T.Underlying().(*types.Map); !ok || !types.Identical(mt, m.addrs.Type().Underlying().(*types.Map).Elem()) {
			continue
		}
		if !m.addrOf(x.Args[0], e.Val) {
			continue
		}
		// a set of the identity's: looked up, or entered
		if m.knownOf(x.Addr) {
			return true
		}
		for _, y := range evs {
			if y.Kind == "mapstore" && loadOf(y.Addr, m.addrs) != nil && y.Val == x.Addr && y.Args[0] == e.Args[0] {
				return true
			}
		}
		if x.Addr.Op == "phi" || x.Addr.Op == "join" {
			return true
		}
	}
	return false
}

// addrOf: the key is the address of the peer at the other end, with its port.
func (m *p2pModel) addrOf(k, p *Term) bool {
	for k.Op == "conv" {
		k = k.Args[0]
	}
	return callName(k) == "(net.Addr).String"
}

// notBlocked: neither the address of a tracker's peer, nor this one, is
// blocked.
func (m *p2pModel) notBlocked(s *State, tp, address *Term) bool {
	for n := s.facts; n != nil; n = n.prev {
		if n.t.Op != "inmap" || n.val || loadOf(n.t.Args[0], m.blocked) == nil {
			continue
		}
		k := n.t.Args[1]
		of := map[*Term]int{}
		norm := false
		k.any(func(x *Term) bool {
			if strings.HasPrefix(callName(x), "net.ParseIP") || strings.HasPrefix(callName(x), "net/netip.") || strings.HasPrefix(callName(x), "(net/netip.") {
				norm = true
			}
			if b, v := fieldLoadOf(x); b != nil && v.Pkg() != nil && strings.HasSuffix(v.Pkg().Path(), "/tracker") {
				switch v.Name() {
				case "IP":
					of[b] |= 1
				case "Port":
					of[b] |= 2
				}
			}
			return false
		})
		if !norm {
			continue
		}
		for b, what := range of {
			if what != 3 {
				continue
			}
			if tp != nil && b == tp {
				return true
			}
			if address != nil {
				seen := 0
				address.any(func(x *Term) bool {
					if b2, v := fieldLoadOf(x); b2 == b {
						switch v.Name() {
						case "IP":
							seen |= 1
						case "Port":
							seen |= 2
						}
					}
					return false
				})
				if seen == 3 || address == k || address.any(func(x *Term) bool { return x == k }) {
					return true
				}
			}
		}
	}
	return false
}

// fieldLoadOf: the object and field whose value this is.
func fieldLoadOf(t *Term) (*Term, *types.Var) {
	if t.Op == "init" && t.Args[0].Op == "faddr" {
		if v, ok := t.Args[0].Obj.(*types.Var); ok {
			return t.Args[0].Args[0], v
		}
	}
	if t.Op == "fval" {
		if v, ok := t.Obj.(*types.Var); ok {
			return t.Args[0], v
		}
	}
	return nil, nil
}

// countable: a block was just transferred, and this counter does not count it
// yet.
func (m *p2pModel) countable(s *State, mm *msgModel, e *Event, up bool) bool {
	evs := before(s, e)
	for i := len(evs) - 1; i >= 0; i-- {
		x := evs[i]
		if x.Kind == "atomic" && x.Addr == e.Addr && x.Name == "Add" {
			return false
		}
		if !up && x.Kind == "call" && x.Name == putBlock {
			v, known := s.query(mkEq(x.Res[0], mkNil()))
			return known && v && polyTermEq(e.Args[1], mkLen(x.Args[3]))
		}
		if up {
			if p, msg := m.sends(s, x); p != nil && !isHandshake(msg) {
				if yes, known := mm.is(s, msg, "PIECE"); known && yes {
					v, k := s.query(mkEq(x.Res[0], mkNil()))
					return k && v && polyTermEq(e.Args[1], mkLen(mm.get(s, msg, "Piece")))
				}
			}
		}
	}
	return false
}

// adds: how many of the counters of the peer and its server the data is added
// to.
func (m *p2pModel) adds(s *State, evs []*Event, p *Term, own, total *types.Var, data *Term) int {
	n := 0
	a, b := mkFaddr(p, own), mkFaddr(fieldLoad(s, p, m.server), total)
	for _, e := range evs {
		if e.Kind == "atomic" && e.Name == "Add" && (e.Addr == a || e.Addr == b) && polyTermEq(e.Args[1], mkLen(data)) {
			n++
		}
	}
	return n
}
