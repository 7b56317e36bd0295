package main

import (
	"go/types"
	"strings"
)

func init() {
	register("P01", "Only peers of this torrent with a valid handshake take part, each once", func(c *C) {
		c.rule("handshake", 3, "a peer becomes active only after its handshake was read without an error and names this torrent")
		c.rule("identity", 3, "a peer becomes active only under its own identity, which is neither ours nor another one than expected")
		c.rule("introduced", 3, "the peer was sent our handshake for this torrent before")
		c.rule("once", 3, "a peer becomes active only if its identity is not active yet and there is room, checked while nobody else can become active")
		c.rule("bitfield", 3, "the first message to an active peer is the bitfield of all pieces complete by then")
		c.rule("dialled", 1, "a dialled peer is expected to have the ID that the tracker told, if it told one")
		c.rule("after", 2, "messages of a peer are handled only after it became active")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		listedID, listedIP := c.field(trackerPkg, "Peer", "ID", nil), c.field(trackerPkg, "Peer", "IP", nil)
		if listedID == nil || listedIP == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			var expected map[*Event]*Term
			o := m.opts(mm, f, p2pStops...)
			o.Keep = func(s *State, e *Event) bool {
				switch e.Kind {
				case "store":
					return e.Field == m.id
				case "call":
					return isDial(e.Name) || m.keep(s, e)
				case "copy":
					return e.Addr.Op == "slice" && e.Addr.Args[0].Op == "faddr" && e.Addr.Args[0].Obj == any(m.id) || e.Val != nil && loadOf(unconv(e.Val), listedID) != nil
				case "branch":
					return e.Args[0].any(func(x *Term) bool {
						return x.Op == "faddr" && (x.Obj == any(m.id) || x.Obj == any(mm.id)) || x.T != nil && types.Identical(x.T, m.id.Type())
					})
				}
				return m.keep(s, e)
			}
			o.OnReset = func() { expected = map[*Event]*Term{} }
			expected = map[*Event]*Term{}
			c.walk(f, o, func(s *State, e *Event) {
				from := " from " + shortName(f)
				if e.Kind == "call" && e.Name == peerPkg+".ReadHandshake" {
					p := m.peerOf(s, e.Args[0])
					m.to[e] = p
					expected[e] = fieldLoad(s, p, m.id)
					if p == nil {
						return
					}
					dialled, tp := m.dialledAt(s, fieldLoad(s, p, m.conn), before(s, e), listedIP)
					if dialled {
						ok := false
						for _, x := range before(s, e) {
							told := func(y *Term) bool {
								q := loadOf(unconv(y), listedID)
								return q != nil && (q == tp || tp == nil)
							}
							switch {
							case x.Kind == "copy" && x.Val != nil && told(x.Val) && x.Addr.Op == "slice" && x.Addr.Args[1] == nil && x.Addr.Args[2] == nil:
								ok = ok || x.Addr.Args[0] == mkFaddr(p, m.id) || isFresh(x.Addr.Args[0])
							case x.Kind == "store" && x.Addr == mkFaddr(p, m.id):
								ok = ok || x.Val.any(told)
							}
						}
						if tp != nil && !ok {
							// no ID, or not one
							for n := s.facts; n != nil && !ok; n = n.prev {
								for a := range atomsOf(n.t) {
									if a.Op != "len" || loadOf(a.Args[0], listedID) != tp {
										continue
									}
									other := false
									if n.t.Op == "eq0" && !n.val {
										d := polySub(polyOf(n.t.Args[0]), polyOf(a))
										other = len(d.Ms) == 0 && d.C == -20
									}
									ok = ok || other || entails(s.facts, polySub(polyOf(a), polyConst(19))) || entails(s.facts, polySub(polyConst(21), polyOf(a)))
								}
							}
						}
						c.ob("dialled", fnName(e)+from, ok, e.pos(c.p), "the peer that was dialled is not expected to have the ID that the tracker told")
					}
				}
				if e.Kind == "call" && e.Name == "(*p2p.Peer).HandleMessage" {
					ok := false
					evs := before(s, e)
					for i, x := range evs {
						if x.Kind == "mapstore" && loadOf(x.Addr, m.active) != nil && x.Val == e.Args[0] {
							ok = len(m.written(s, evs[i+1:], x.Val)) > 0
						}
						if x.Kind == "mapdelete" && loadOf(x.Addr, m.active) != nil {
							ok = false
						}
					}
					c.ob("after", fnName(e)+from, ok, e.pos(c.p), "a message is handled though the peer is not active")
				}
				if p, msg := m.sends(s, e); p != nil && isHandshake(msg) {
					e.Tag = "handshake"
					srv := fieldLoad(s, p, m.server)
					ok := fieldLoad(s, msg, mm.hash) == fieldLoad(s, fieldLoad(s, srv, m.info), m.sha) && fieldLoad(s, msg, mm.id) == fieldLoad(s, srv, m.serverID)
					c.ob("introduced", fnName(e)+": content"+from, ok, e.pos(c.p), "the handshake does not carry the hash of the torrent and our own ID")
				} else if p != nil {
					if yes, known := mm.is(s, msg, "BITFIELD"); known && yes {
						e.Tag = "BITFIELD"
						b := mm.get(s, msg, "Bitfield")
						for _, x := range before(s, e) {
							if x.Kind == "call" && x.Name == "(*storage.Torrent).Pieces" && x.Res[0] == b {
								e.Tag = "BITFIELD of " + x.Args[0].String()
							}
						}
					}
				}
				if e.Kind == "copy" && e.Addr.Op == "slice" && e.Addr.Args[1] == nil && e.Addr.Args[2] == nil {
					// the event comes before the copy
					if a := e.Val; a.Op == "slice" && a.Args[1] == nil && a.Args[2] == nil {
						e.Tag = "ID"
						m.to[e] = s.load(a.Args[0], m.id.Type())
					} else if a.Op == "arr" {
						e.Tag = "ID"
						m.to[e] = a.Args[0]
					}
				}
				if e.Kind != "mapstore" || loadOf(e.Addr, m.active) == nil {
					return
				}
				p := e.Val
				srv := loadOf(e.Addr, m.active)
				where := fnName(e) + from
				evs := before(s, e)
				var read, hello *Event
				for _, x := range evs {
					if x.Kind == "call" && x.Name == peerPkg+".ReadHandshake" && m.to[x] == p {
						read = x
					}
					if q, _ := m.sends(s, x); q == p && x.Tag == "handshake" {
						hello = x
					}
				}
				ok := read != nil
				if ok {
					v, known := s.query(mkEq(read.Res[1], mkNil()))
					ok = known && v
				}
				c.ob("handshake", where+": read", ok, e.pos(c.p), "the peer becomes active though its handshake was not read, or with an error")
				if read == nil {
					return
				}
				own := fieldLoad(s, p, m.server)
				hash := fieldLoad(s, read.Res[0], mm.hash)
				yes, known := s.query(mkEq(hash, fieldLoad(s, fieldLoad(s, own, m.info), m.sha)))
				c.ob("handshake", where+": torrent", known && yes, e.pos(c.p), "the peer becomes active though it may be of another torrent")
				if isFresh(p) {
					c.ob("handshake", where+": server", own == srv, e.pos(c.p), "the peer becomes active at another server than its own")
				}
				var id *Term
				for _, x := range evs {
					if x.Kind == "store" && x.Addr == mkFaddr(p, m.id) {
						id = x.Val
					}
					if x.Tag == "ID" && x.Addr.Args[0] == mkFaddr(p, m.id) {
						id = m.to[x]
					}
				}
				rid := fieldLoad(s, read.Res[0], mm.id)
				c.ob("identity", where+": taken", id == rid || fieldLoad(s, p, m.id) == rid, e.pos(c.p), "the peer's identity is not that of its handshake")
				yes, known = s.query(mkEq(rid, fieldLoad(s, own, m.serverID)))
				c.ob("identity", where+": own", known && !yes, e.pos(c.p), "the peer may be ourselves")
				c.ob("identity", where+": expected", m.asExpected(s, expected[read], rid), e.pos(c.p), "the peer may be another one than expected")
				key := e.Args[0]
				c.ob("identity", where+": key", m.identityKey(s, key, id, p), e.pos(c.p), "the peer is active under "+trunc(key.String(), 100))
				ok = hello != nil
				if ok {
					v, known := s.query(mkEq(hello.Res[0], mkNil()))
					ok = known && v
				}
				c.ob("introduced", where, ok, e.pos(c.p), "the peer becomes active without a handshake of ours")
				had, known := boolOf(s, e.Res[0])
				if !known {
					// only peers are entered
					v, k := s.query(mkEq(s.mapOld(e.Addr, key, 1), mkNil()))
					had, known = !v, k && v
				}
				c.ob("once", where, known && !had, e.pos(c.p), "another connection of the same peer may be active")
				c.ob("once", where+": room", m.bounded(s, e.Addr), e.pos(c.p), "the number of active peers is not bounded")
			}, func(t *Trace) {
				if t.End != "return" || t.Start >= len(t.Ev) && t.Start > 0 {
					return
				}
				s, evs := t.Final, t.Ev[t.Start:]
				for i, e := range evs {
					if e.Kind != "mapstore" || loadOf(e.Addr, m.active) == nil {
						continue
					}
					p := e.Val
					lock := mkFaddr(p, m.pMu)
					var first, taken *Event
					for _, x := range evs[i+1:] {
						if x.Kind == "call" && x.Name == "(*storage.Torrent).Pieces" {
							taken = x
						}
						if q, _ := m.sends(s, x); q == p && first == nil {
							first = x
							break
						}
					}
					where := fnName(e) + " from " + shortName(f)
					ok := first != nil && taken != nil && first.Tag == "BITFIELD of "+taken.Args[0].String()
					c.ob("bitfield", where, ok, e.pos(c.p), "the first message to an active peer is not the bitfield of what is complete by then")
					if first != nil {
						c.ob("bitfield", where+": first", sameHold(evs, e, first, lock), first.pos(c.p), "others may send messages to the active peer before")
					}
				}
			})
		}
	})
}

func isHandshake(msg *Term) bool {
	return msg != nil && msg.T != nil && strings.HasSuffix(msg.T.String(), "peer.Handshake")
}

// written: messages written to the peer without an error.
func (m *p2pModel) written(s *State, evs []*Event, p *Term) []*Event {
	var out []*Event
	for _, e := range evs {
		if q, _ := m.sends(s, e); q == p {
			if v, known := s.query(mkEq(e.Res[0], mkNil())); known && v {
				out = append(out, e)
			}
		}
	}
	return out
}

// asExpected: no identity was expected before the handshake was read, or this
// one.
func (m *p2pModel) asExpected(s *State, exp, got *Term) bool {
	if exp == nil {
		return false
	}
	if exp.Op == "zero" {
		return true
	}
	if v, known := s.query(mkEq(exp, got)); known && v {
		return true
	}
	v, known := s.query(mkEq(exp, zeroOf(m.id.Type())))
	return known && v
}

// identityKey: the key is made of the peer's ID and its IP address only.
func (m *p2pModel) identityKey(s *State, key, id, p *Term) bool {
	hasID, hasIP, port := false, false, false
	key.any(func(x *Term) bool {
		if x == id || loadOf(x, m.id) == p || x == mkFaddr(p, m.id) {
			hasID = true
		}
		if x.Op == "faddr" {
			if v, ok := x.Obj.(*types.Var); ok && v.Pkg() != nil && v.Pkg().Path() == "net" {
				switch v.Name() {
				case "IP":
					hasIP = true
				case "Port":
					port = true
				}
			}
		}
		if callName(x) == "net.SplitHostPort" {
			hasIP = true
		}
		return false
	})
	return hasID && hasIP && !port
}

// bounded: the map has a limited number of entries after one was added.
func (m *p2pModel) bounded(s *State, mp *Term) bool {
	n := polyOf(s.mapLen(mp, 1))
	for max := int64(0); max < 200; max++ {
		if entails(s.facts, polySub(n, polyConst(max))) {
			return true
		}
	}
	return false
}

func isDial(n string) bool {
	return strings.HasPrefix(n, "net.Dial") || strings.HasPrefix(n, "(*net.Dialer).Dial")
}

// dialledAt: whether the connection was dialled, and the listed peer whose
// address it was dialled at.
func (m *p2pModel) dialledAt(s *State, conn *Term, evs []*Event, ip *types.Var) (bool, *Term) {
	conn = unconv(conn)
	if !isDial(callName(conn)) {
		return false, nil
	}
	for _, e := range evs {
		if e.Kind != "call" || len(e.Res) == 0 || unconv(e.Res[0]) != conn {
			continue
		}
		for _, a := range e.Args {
			var tp *Term
			a.any(func(x *Term) bool {
				if p := loadOf(x, ip); p != nil {
					tp = p
				}
				return tp != nil
			})
			if tp != nil {
				return true, tp
			}
		}
	}
	return true, nil
}
