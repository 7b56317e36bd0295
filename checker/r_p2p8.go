package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P07", "Connections end cleanly, and the client stops completely", func(c *C) {
		c.rule("closed", 2, "a connection that was accepted or dialled is closed when whoever serves it is done")
		c.rule("close", 2, "closing a peer marks it closed once, ends what runs for it and closes its connection")
		c.rule("removed", 2, "a peer is closed only together with taking it out of the lists of active peers and of who has which piece")
		c.rule("own", 1, "only the peer that is closed is taken out")
		c.rule("registered", 1, "a goroutine that registered a peer closes it")
		c.rule("slot", 2, "each slot for a peer is given back exactly once, by whoever took it, and peers are served only with a slot")
		c.rule("contexts", 2, "every context is cancelled, or whoever can is kept")
		c.rule("stop", 1, "stopping cancels everything, closes the listener, tells the trackers, and closes every active peer")
		c.rule("ends", 1, "the client stops however its start or run ends")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			from := " from " + shortName(f)
			o := m.opts(mm, f, append([]string{"Announce", "UnchokePeers"}, p2pStops...)...)
			o.Preserve[m.pCancel], o.Preserve[m.bits] = true, true
			o.MergeMem = false
			m.holds = map[*Term]ssa.Instruction{}
			o.OnLoad = func(s *State, x, t *Term) {
				if x.Op == "faddr" && x.Obj == any(m.sCancel) {
					if a := m.serverLock(s.locks); a != nil {
						m.holds[t] = s.locks.find(a).At
					}
				}
			}
			opaque := o.Opaque
			o.Opaque = func(fn *ssa.Function) bool {
				return fn != f && strings.HasPrefix(shortName(fn), "(*p2p.Multitracker)") && isExportedFn(fn) || opaque(fn)
			}
			o.Keep = func(s *State, e *Event) bool {
				switch e.Kind {
				case "call":
					if e.Name == "dynamic" || strings.HasPrefix(e.Name, "context.With") || strings.HasPrefix(e.Name, "net.") || isConnOp(e) || e.Name == "(bitfield.Bitfield).Items" {
						return true
					}
				case "store":
					return e.Field == m.pCancel || e.Field == m.sCancel || e.Field == m.tcp || e.Field == m.conn
				case "mapload":
					return loadOf(e.Addr, m.active) != nil
				}
				return m.keep(s, e)
			}
			conns := &duty{m: m, takes: m.obtains, ends: m.ends}
			slots := &duty{m: m, takes: m.takesSlot, ends: m.endsSlot}
			m.begins = nil
			m.conns = map[*Term]*Term{}
			m.everyone, m.someone = map[*ssa.BasicBlock]bool{}, map[*ssa.BasicBlock]bool{}
			m.blocks = map[*ssa.BasicBlock]bool{}
			m.spares = map[*ssa.BasicBlock]*Event{}
			stops := map[ssa.Instruction][]func() bool{}
			outs := map[*Event]removal{}
			entries := map[*Event][]*Term{}
			closing := func(own []*Event, i int, p *Term, at *Event, rule string) {
				var last *Event
				for _, x := range own[i:] {
					if isClosing(x) && p != nil && x.Addr == mkFaddr(p, m.closed) && outs[x].all != nil && (last == nil || outs[x].out || !outs[last].out) {
						last = x
					}
				}
				c.ob(rule, fnName(at)+from, last != nil, at.pos(c.p), "the peer stays registered when nobody serves it any more")
				if last != nil {
					r := outs[last]
					c.ob("removed", fnName(at)+from, r.out, last.pos(c.p), "the peer may still be registered as active")
					c.after(func() {
						c.ob("removed", fnName(at)+": pieces"+from, r.all(), last.pos(c.p), "the peer may still be registered for a piece")
					})
				}
			}
			c.walk(f, o, func(s *State, e *Event) {
				evs := before(s, e)
				switch {
				case e.Kind == "atomic" && e.Field == m.closed && e.Name != "Load":
					old, k1 := boolOf(s, e.Args[1])
					nw, k2 := boolOf(s, e.Args[len(e.Args)-1])
					ok := e.Name == "CompareAndSwap" && k1 && k2 && !old && nw || e.Name == "Swap" && k2 && nw
					c.ob("close", fnName(e)+": once"+from, ok, e.pos(c.p), "a peer may be marked closed twice, or as open again")
					if isClosing(e) {
						outs[e] = m.removed(s, evs, e)
					}
				case e.Kind == "store" && e.Field == m.conn:
					m.conns[e.Addr.Args[0]] = unconv(e.Val)
				case e.Kind == "store" && (e.Field == m.pCancel || e.Field == m.bits):
					c.ob("close", fnName(e)+": "+e.Field.Name()+from, isFresh(e.Addr.Args[0]), e.pos(c.p), e.Field.Name()+" of a peer that may be known is replaced")
				case e.Kind == "call" && e.Name == "(net.Conn).Close":
					p := m.connOf(e.Args[len(e.Args)-1])
					if !m.isPeer(p) {
						p = m.peerWith(s, evs, p)
					}
					if p == nil {
						return
					}
					ok := false
					for _, x := range evs {
						ok = ok || m.marks(s, x, p)
					}
					c.ob("close", fnName(e)+": marked"+from, ok, e.pos(c.p), "the connection of a peer is closed, but the peer is not marked so")
				case e.Kind == "call" && strings.HasSuffix(e.Name, "p2p.Peer).HandleMessage"), e.Kind == "call" && strings.HasSuffix(e.Name, "p2p.Peer).Handshake"):
					if e.Thread > 0 {
						c.ob("slot", fnName(e)+": held"+from, m.heldSlots(evs) == 1, e.pos(c.p), "a peer is served without a slot")
					}
				case e.Kind == "mapdelete" && loadOf(e.Addr, m.active) != nil:
					entries[e] = m.entries(s, evs, e)
				case m.endsSlot(s, e, nil):
					c.ob("slot", fnName(e)+": own"+from, m.heldSlots(evs) >= 1, e.pos(c.p), "a slot is given back that is not held")
				case e.Kind == "rearrive":
					w := since(evs, e.Entry)
					conns.window(s, w, e)
					slots.window(s, w, e)
					m.forgets(threadEvents(w), e)
					for _, x := range w {
						if x.Kind == "rangenext" && x.In.Block() == e.In.Block() && m.activeOf(evs, x.Addr) {
							all := false
							for _, y := range w {
								all = all || isClosing(y) && y.Addr == mkFaddr(x.Val, m.closed)
							}
							if all {
								m.everyone[e.In.Block()] = true
							} else {
								m.someone[e.In.Block()] = true
							}
						}
					}
					m.contexts(s, threadEvents(w), from)
				}
			}, func(t *Trace) {
				if t.End != "return" || t.Start > 0 && t.Start >= len(t.Ev) {
					return
				}
				s := t.Final
				own := t.Ev[t.Start:]
				conns.trace(t, own)
				slots.trace(t, own)
				m.contexts(s, own, from)
				m.ownEntry(s, own, entries, from)
				for i, e := range own {
					switch {
					case e.Kind == "atomic" && e.Field == m.closed && m.marks(s, e, e.Addr.Args[0]):
						n, k := 0, 0
						for _, x := range own[i+1:] {
							if x.Kind == "atomic" && x.Addr == e.Addr {
								break
							}
							if x.Kind == "call" && x.Name == "(net.Conn).Close" && m.connIs(s, t.Ev, x.Args[len(x.Args)-1], e.Addr.Args[0]) {
								n++
							}
							if m.cancels(s, t.Ev, x, e.Addr.Args[0]) {
								k++
							}
						}
						c.ob("close", fnName(e)+": connection"+from, n == 1, e.pos(c.p), "the connection of the closed peer stays open, or is closed twice")
						c.ob("close", fnName(e)+": cancel"+from, k >= 1, e.pos(c.p), "what runs for the closed peer is not cancelled")
					case e.Kind == "mapstore" && loadOf(e.Addr, m.active) != nil && e.Thread > 0:
						closing(own, i+1, e.Val, e, "registered")
					}
				}
				if n := shortName(f); t.Start == 0 && (n == "(*p2p.Server).Disconnect" || n == "(*p2p.Server).Block") {
					var p *Term
					for _, x := range own {
						if isClosing(x) && x.Field == m.closed && x.Addr.Args[0].Op == "param" {
							p = x.Addr.Args[0]
						}
					}
					closing(own, 0, p, &Event{Fn: f}, "registered")
				}
				if t.Start > 0 {
					in := t.Ev[t.Start-1].In
					stops[in] = append(stops[in], m.shutdown(s, own))
				}
				if f.Name() == "Stop" && t.Start == 0 && strings.HasSuffix(shortName(f), "p2p.Server).Stop") {
					down := m.shutdown(s, own)
					c.after(func() {
						c.ob("stop", shortName(f), down(), c.p.pos(f.Pos()), "something goes on after the client was stopped")
					})
				}
				var listen *Event
				for _, e := range own {
					if e.Kind == "call" && e.Name == "net.Listen" {
						if v, known := s.query(mkEq(e.Res[1], mkNil())); !known || v {
							listen = e
						}
					}
				}
				if listen != nil {
					own := own
					c.after(func() {
						c.ob("ends", fnName(listen)+from, m.willStop(s, own, listen, stops), listen.pos(c.p), "the client may go on, or keep its port, when its start or run ends")
					})
				}
			})
			c.runAfter()
			for h := range m.everyone {
				c.ob("stop", shortName(h.Parent())+": each"+from, !m.someone[h], c.p.pos(h.Parent().Pos()), "an active peer may not be closed")
			}
			for h := range m.blocks {
				if e := m.spares[h]; e != nil {
					c.ob("removed", shortName(h.Parent())+": each"+from, false, e.pos(c.p), "the peer may still be registered for a piece")
				}
			}
			conns.check(func(e *Event, n int) {
				c.ob("closed", fnName(e)+from, n >= 1, e.pos(c.p), "the connection may never be closed")
			})
			slots.check(func(e *Event, n int) {
				c.ob("slot", fnName(e)+from, n == 1, e.pos(c.p), "the slot is not given back on every path, or twice")
			})
		}
	})
}

// duty: what is taken has to be ended by its owner, on every path.
type duty struct {
	m     *p2pModel
	takes func(s *State, e *Event) bool
	ends  func(s *State, e, of *Event) bool
	roots []turn
	hands map[ssa.Instruction][]turn
	seen  map[ssa.Instruction]bool
}

func (d *duty) last(s *State, evs []*Event) *Event {
	for i := len(evs) - 1; i >= 0; i-- {
		if d.takes(s, evs[i]) {
			return evs[i]
		}
	}
	return nil
}

func (d *duty) turn(s *State, evs []*Event, of *Event) turn {
	t := turn{e: of}
	for _, e := range evs {
		switch {
		case e == of:
			t.n, t.spawns = 0, nil
		case d.ends(s, e, of):
			t.n++
		case e.Kind == "spawn":
			t.spawns = append(t.spawns, e.In)
		}
	}
	return t
}

func (d *duty) window(s *State, w []*Event, e *Event) {
	if x := d.last(s, w); x != nil && x.Thread == e.Thread {
		d.roots = append(d.roots, d.turn(s, w, x))
	}
}

func (d *duty) trace(t *Trace, own []*Event) {
	x := d.last(t.Final, t.Ev)
	if x == nil {
		return
	}
	tn := d.turn(t.Final, own, x)
	if t.Start == 0 || d.last(t.Final, own) == x {
		if x.Thread == t.Final.thread || t.Start == 0 {
			d.roots = append(d.roots, tn)
		}
		return
	}
	if d.hands == nil {
		d.hands = map[ssa.Instruction][]turn{}
	}
	in := t.Ev[t.Start-1].In
	d.hands[in] = append(d.hands[in], tn)
}

func (d *duty) check(report func(e *Event, n int)) {
	for _, r := range d.roots {
		n, _ := r.total(d.hands, 0)
		report(r.e, n)
	}
}

func isConnOp(e *Event) bool {
	return strings.HasSuffix(e.Name, ").Accept") || strings.HasSuffix(e.Name, ").Close") && strings.HasPrefix(e.Name, "(net.") || strings.HasPrefix(e.Name, "(*net.Dialer).Dial")
}

// obtains: there is a new connection.
func (m *p2pModel) obtains(s *State, e *Event) bool {
	if e.Kind != "call" || len(e.Res) != 2 || !(strings.HasSuffix(e.Name, ").Accept") || strings.HasPrefix(e.Name, "net.Dial") || strings.HasPrefix(e.Name, "(*net.Dialer).Dial")) {
		return false
	}
	v, known := s.query(mkEq(e.Res[1], mkNil()))
	return !known || v
}

// ends: the connection is closed, or was.
func (m *p2pModel) ends(s *State, e, of *Event) bool {
	switch {
	case e.Kind == "call" && e.Name == "(net.Conn).Close":
		return m.rawConn(s, e.Args[len(e.Args)-1]) == of.Res[0]
	case isClosing(e) && e.Field == m.closed:
		op, ok := flagOpOf(s, e)
		return ok && !op.perhaps && op.set && op.val && m.conns[e.Addr.Args[0]] == of.Res[0]
	}
	return false
}

// isClosing: the event may change the flag, and tells whether it did.
func isClosing(e *Event) bool {
	return e.Kind == "atomic" && (e.Name == "CompareAndSwap" || e.Name == "Swap")
}

func (m *p2pModel) rawConn(s *State, t *Term) *Term {
	t = unconv(t)
	if p := loadOf(t, m.conn); p != nil && m.conns[p] != nil {
		return m.conns[p]
	}
	return t
}

func (m *p2pModel) isPeer(t *Term) bool { return t != nil && isPeerPtr(t.T) }

// peerWith: the peer that was made for the connection.
func (m *p2pModel) peerWith(s *State, evs []*Event, conn *Term) *Term {
	for _, e := range evs {
		if e.Kind == "store" && e.Field == m.conn && unconv(e.Val) == conn {
			return e.Addr.Args[0]
		}
	}
	return nil
}

func (m *p2pModel) connIs(s *State, evs []*Event, conn, p *Term) bool {
	k := m.connOf(conn)
	return k == p || m.peerWith(s, evs, unconv(conn)) == p
}

// marks: the event marks the peer closed.
func (m *p2pModel) marks(s *State, e *Event, p *Term) bool {
	if e.Kind != "atomic" || e.Addr != mkFaddr(p, m.closed) {
		return false
	}
	op, ok := flagOpOf(s, e)
	return ok && op.changed && op.set && op.val
}

// cancels: the event cancels what runs for the peer.
func (m *p2pModel) cancels(s *State, evs []*Event, e *Event, p *Term) bool {
	if e.Kind != "call" || e.Name != "dynamic" || e.Val == nil {
		return false
	}
	if loadOf(e.Val, m.pCancel) == p {
		return true
	}
	for _, x := range evs {
		if x.Kind == "store" && x.Addr == mkFaddr(p, m.pCancel) && x.Val == e.Val {
			return true
		}
	}
	return false
}

func (m *p2pModel) takesSlot(s *State, e *Event) bool {
	return (e.Kind == "select" && e.Name == "send" || e.Kind == "send") && e.Addr != nil && loadOf(e.Addr, m.sem) != nil
}

func (m *p2pModel) endsSlot(s *State, e, of *Event) bool {
	return (e.Kind == "select" && e.Name == "recv" || e.Kind == "recv") && e.Addr != nil && loadOf(e.Addr, m.sem) != nil
}

func (m *p2pModel) heldSlots(evs []*Event) int {
	n := 0
	for _, e := range evs {
		switch {
		case m.takesSlot(nil, e):
			n = 1
		case m.endsSlot(nil, e, nil):
			n--
		}
	}
	return n
}

// removed: in the same hold of the server's lock, the peer was taken out of
// the active ones, or found not to be there, and out of the peers of every
// piece it has.
func (m *p2pModel) removed(s *State, evs []*Event, e *Event) removal {
	out := false
	p := e.Addr.Args[0]
	srv := fieldLoad(s, p, m.server)
	var lock *Term
	for l := e.Locks; l != nil; l = l.prev {
		if l.Addr.Op == "faddr" && l.Addr.Obj == any(m.sMu) {
			lock = l.Addr
		}
	}
	all := func() bool { return false }
	if lock == nil {
		return removal{false, all}
	}
	if srv == nil || lock.Args[0] != srv && stripVer(lock.Args[0]) != stripVer(srv) {
		// the server that is asked is the peer's: checked where they meet (C03)
		srv = lock.Args[0]
	}
	var hold []*Event
	for i := len(evs) - 1; i >= 0; i-- {
		if !sameHold(append(evs[i:len(evs):len(evs)], e), evs[i], e, lock) {
			break
		}
		hold = evs[i:]
	}
	for _, x := range hold {
		if x.Addr == nil || loadOf(x.Addr, m.active) == nil {
			continue
		}
		switch x.Kind {
		case "mapdelete":
			out = true
		case "mapload", "rangenext":
			if eq, known := m.entryIs(s, x, p); known && !eq {
				out = true
			}
			if x.Kind == "mapload" && len(x.Res) > 0 {
				if had, known := boolOf(s, x.Res[len(x.Res)-1]); known && !had {
					out = true
				}
			}
		}
	}
	var items *Term
	for _, x := range hold {
		if x.Kind == "call" && x.Name == "(bitfield.Bitfield).Items" && (loadOf(x.Args[0], m.bits) == p || fieldLoad(s, p, m.bits) == x.Args[0]) {
			items = x.Res[0]
		}
		if x.Kind == "rangeend" && loadOf(x.Addr, m.indexPeers) != nil {
			all = func() bool { return len(m.blocks) > 0 }
		}
	}
	if items != nil {
		facts := s.facts
		all = func() bool {
			for _, at := range m.begins {
				n := polyOf(mkLen(items))
				if entails(facts, polySub(n, at)) || entails(facts, polySub(n, polyAdd(at, polyConst(1), 1))) {
					return true
				}
			}
			return false
		}
	}
	return removal{out, all}
}

// entryIs: what the event found in a map is p.
func (m *p2pModel) entryIs(s *State, e *Event, p *Term) (eq, known bool) {
	v := e.Val
	if v == p {
		return true, true
	}
	if eq, known := s.query(mkEq(v, p)); known {
		return eq, true
	}
	if e.Kind == "mapload" && len(e.Res) > 0 {
		if had, known := boolOf(s, e.Res[len(e.Res)-1]); known && !had {
			return false, true
		}
	}
	for n := s.facts; n != nil; n = n.prev {
		if n.t.Op != "eq" || len(n.t.Args) != 2 {
			continue
		}
		for i, a := range n.t.Args {
			if a == p && n.t.Args[1-i].Op == "mget" && n.t.Args[1-i].Args[0] == v {
				return n.val, true
			}
		}
	}
	return false, false
}

// removal says whether the peer is out of the active peers and of those of
// every piece.
type removal struct {
	out bool
	all func() bool
}

// forgets: an iteration takes the peer out of the peers of a piece.
func (m *p2pModel) forgets(w []*Event, at *Event) {
	h := at.In.Block()
	did := false
	for _, e := range w {
		if e.Kind != "mapdelete" || loadOf(e.Addr, m.indexPeers) != nil {
			continue
		}
		inner := e.Addr.any(func(x *Term) bool { return loadOf(x, m.indexPeers) != nil })
		for _, x := range w {
			if inner && x.Kind == "rangenext" && x.In.Block() == h && loadOf(x.Addr, m.indexPeers) != nil && e.Addr.any(func(y *Term) bool { return y == x.Args[0] || y == x.Val }) {
				did = true
			}
		}
		if inner && at.Iter != nil {
			e.Addr.any(func(x *Term) bool {
				if x.Op == "iaddr" && len(x.Args) == 2 {
					if i := polyOf(x.Args[1]); isPoly(at.Iter, i) {
						m.begins = append(m.begins, i)
						did = true
					}
				}
				return false
			})
		}
	}
	if did {
		m.blocks[h] = true
	} else if m.spares[h] == nil {
		m.spares[h] = at
	}
}

// entries are the peers that the entry is known to be.
func (m *p2pModel) entries(s *State, evs []*Event, e *Event) (out []*Term) {
	for _, y := range evs {
		if y.Kind != "mapload" && y.Kind != "rangenext" || y.Addr != e.Addr || !sameKey(y.Args[0], e.Args[0]) || !sameHold(append(evs[:len(evs):len(evs)], e), y, e, lockOf(y, m)) {
			continue
		}
		out = append(out, y.Val)
		for n := s.facts; n != nil; n = n.prev {
			if n.t.Op != "eq" || len(n.t.Args) != 2 || !n.val {
				continue
			}
			for _, a := range n.t.Args {
				if eq, known := m.entryIs(s, y, a); known && eq {
					out = append(out, a)
				}
			}
		}
	}
	return
}

// ownEntry: what is taken out of the active peers is closed.
func (m *p2pModel) ownEntry(s *State, own []*Event, entries map[*Event][]*Term, from string) {
	for _, e := range own {
		if e.Kind != "mapdelete" || e.Addr == nil || loadOf(e.Addr, m.active) == nil {
			continue
		}
		ok := false
		for _, x := range own {
			if x.Kind != "atomic" || x.Field != m.closed || x.Name == "Load" {
				continue
			}
			for _, p := range entries[e] {
				ok = ok || p == x.Addr.Args[0] && (sameHold(own, x, e, lockOf(e, m)) || sameHold(own, e, x, lockOf(e, m)))
			}
		}
		m.c.ob("own", fnName(e)+from, ok, e.pos(m.c.p), "another peer than the one that is closed may be taken out")
	}
}

func lockOf(e *Event, m *p2pModel) *Term {
	return m.serverLock(e.Locks)
}

// serverLock: the server's lock, if it is one of those held.
func (m *p2pModel) serverLock(l *Lock) *Term {
	for ; l != nil; l = l.prev {
		if l.Addr.Op == "faddr" && l.Addr.Obj == any(m.sMu) {
			return l.Addr
		}
	}
	return nil
}

// takenOut: v was loaded in the hold of the server's lock in which e replaced
// it.
func (m *p2pModel) takenOut(v *Term, e *Event) bool {
	a := lockOf(e, m)
	return a != nil && m.holds[v] != nil && m.holds[v] == e.Locks.find(a).At
}

// contexts: what can be cancelled is, or is kept by a peer or the server.
func (m *p2pModel) contexts(s *State, evs []*Event, from string) {
	for i, e := range evs {
		if e.Kind != "call" || !strings.HasPrefix(e.Name, "context.With") || len(e.Res) != 2 {
			continue
		}
		ok := false
		for _, x := range evs[i+1:] {
			ok = ok || x.Kind == "call" && x.Name == "dynamic" && x.Val == e.Res[1]
			ok = ok || x.Kind == "store" && (x.Field == m.pCancel || x.Field == m.sCancel) && x.Val == e.Res[1]
		}
		m.c.ob("contexts", fnName(e)+from, ok, e.pos(m.c.p), "the context is never cancelled")
	}
}

// shutdown: the events stop the client, or find it stopped.
func (m *p2pModel) shutdown(s *State, own []*Event) func() bool {
	is := func(v bool) func() bool { return func() bool { return v } }
	var cancel, tcp, tracker, reset bool
	var loops []*ssa.BasicBlock
	for _, e := range own {
		switch {
		case e.Kind == "call" && e.Name == "dynamic" && e.Val != nil && loadOf(e.Val, m.sCancel) != nil:
			cancel = true
			for _, x := range own {
				if x.Kind == "store" && x.Field == m.sCancel && x.Val.Op == "nil" {
					reset = reset || m.takenOut(e.Val, x) || sameHold(own, e, x, lockOf(e, m)) || sameHold(own, x, e, lockOf(e, m))
				}
			}
		case e.Kind == "call" && e.Name == "(net.Listener).Close" && loadOf(unconv(e.Args[len(e.Args)-1]), m.tcp) != nil:
			tcp = true
		case e.Kind == "call" && strings.HasSuffix(e.Name, "p2p.Multitracker).Stop"):
			tracker = true
		case e.Kind == "rangeend" && m.activeOf(own, e.Addr):
			loops = append(loops, e.In.Block())
		}
	}
	if cancel && reset && tcp && tracker {
		every := m.everyone
		return func() bool {
			for _, h := range loops {
				if every[h] {
					return true
				}
			}
			return false
		}
	}
	if cancel || tcp || reset {
		return is(false)
	}
	// not started
	for n := s.facts; n != nil; n = n.prev {
		if n.t.Op == "eq" && n.val && len(n.t.Args) == 2 {
			for i, a := range n.t.Args {
				if loadOf(a, m.sCancel) != nil && n.t.Args[1-i].Op == "nil" {
					return is(true)
				}
			}
		}
	}
	return is(false)
}

// willStop: what was started ends.
func (m *p2pModel) willStop(s *State, own []*Event, listen *Event, stops map[ssa.Instruction][]func() bool) bool {
	kept, stored, cancelled, runs := false, false, false, false
	var ctx, cancel *Term
	for _, e := range own {
		switch {
		case e.Kind == "call" && e.Name == "(net.Listener).Close" && unconv(e.Args[len(e.Args)-1]) == listen.Res[0]:
			return true
		case e.Kind == "store" && e.Field == m.tcp && unconv(e.Val) == listen.Res[0]:
			kept = true
		case e.Kind == "call" && strings.HasPrefix(e.Name, "context.With") && len(e.Res) == 2:
			ctx, cancel = e.Res[0], e.Res[1]
		case e.Kind == "store" && e.Field == m.sCancel && e.Val == cancel:
			stored = true
		case e.Kind == "call" && e.Name == "dynamic" && e.Val == cancel:
			cancelled = true
		}
	}
	_ = ctx
	for _, e := range own {
		if e.Kind != "spawn" || len(stops[e.In]) == 0 {
			continue
		}
		ok := true
		for _, v := range stops[e.In] {
			ok = ok && v()
		}
		runs = runs || ok
	}
	return kept && stored && cancelled && runs
}
