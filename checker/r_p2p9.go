package main

import (
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P09", "While it runs, the client keeps accepting, dialling and unchoking", func(c *C) {
		c.rule("listed", 2, "every peer that a tracker lists is handed on")
		c.rule("queued", 1, "a peer that is handed on is put into the queue, unless it is full, the peer is known, blocked or has no address; it is known exactly if it was put there")
		c.rule("dialled", 1, "every peer taken from the queue is dialled, unless it is blocked, has no address, or the client stops")
		c.rule("served", 2, "a handshake is tried on every connection there is room for")
		c.rule("handled", 1, "messages are received from an active peer, and each is handled, until that fails")
		c.rule("unchoked", 1, "every active peer that is choked and not closed is unchoked")
		c.rule("again", 1, "what is done periodically is done at every tick, whatever came of it before")
		c.rule("lasting", 4, "what keeps the client going ends only when it stops, or nothing can be accepted any more")
		c.rule("started", 5, "a client that was started does all of this")
		c.borrow("P07", "slot")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			if n := shortName(f); !strings.Contains(n, "p2p.Server)") && !strings.Contains(n, "p2p.Peer)") {
				continue
			}
			from := " from " + shortName(f)
			o := m.opts(mm, f, append([]string{"AddPeer", "Announce", "UnchokePeers", "Handshake", "Receive"}, p2pStops...)...)
			o.Preserve[m.bits] = true
			o.MergeMem = false
			opaque := o.Opaque
			o.Opaque = func(fn *ssa.Function) bool {
				return fn != f && strings.HasPrefix(shortName(fn), "(*p2p.Multitracker)") && isExportedFn(fn) || opaque(fn)
			}
			o.Keep = func(s *State, e *Event) bool {
				switch e.Kind {
				case "call":
					if strings.HasPrefix(e.Name, "net.") || isConnOp(e) || strings.Contains(e.Name, "errgroup") || strings.HasPrefix(e.Name, "time.") || strings.HasPrefix(e.Name, "maps.") || strings.Contains(e.Name, "p2p.") {
						return true
					}
				case "store":
					return e.Field == m.conn
				case "mapload":
					return true
				case "rearrive":
					return f.Name() == "UnchokePeers"
				}
				return m.keep(s, e)
			}
			m.conns = map[*Term]*Term{}
			work := &ongoing{p2pModel: m, c: c, root: f, from: from, threads: map[ssa.Instruction][]*Trace{}, lists: map[*ssa.BasicBlock][]*Poly{}, spare: map[*ssa.BasicBlock]*Event{}, all: map[*ssa.BasicBlock]bool{}, some: map[*ssa.BasicBlock]*Event{}, copied: map[*Term]bool{}, rounds: map[*ssa.BasicBlock][]*copyRound{}}
			c.walk(f, o, func(s *State, e *Event) {
				switch {
				case e.Kind == "store" && e.Field == m.conn:
					m.conns[e.Addr.Args[0]] = unconv(e.Val)
				case e.Kind == "rearrive":
					work.window(s, e)
				}
			}, func(t *Trace) {
				if t.End != "return" || t.Start > 0 && t.Start >= len(t.Ev) {
					return
				}
				work.trace(t)
			})
			c.runAfter()
			for _, do := range work.atlast {
				do()
			}
		}
	})
}

// ongoing: what the client does all the time.
type ongoing struct {
	*p2pModel
	c       *C
	root    *ssa.Function
	from    string
	threads map[ssa.Instruction][]*Trace // by where they are started
	lists   map[*ssa.BasicBlock][]*Poly  // loops that hand on peers, and their counters
	spare   map[*ssa.BasicBlock]*Event   // loops that leave one out
	all     map[*ssa.BasicBlock]bool     // loops that unchoke
	some    map[*ssa.BasicBlock]*Event   // loops that leave one choked
	atlast  []func()
	copied  map[*Term]bool                   // lists that grow by each active peer
	rounds  map[*ssa.BasicBlock][]*copyRound // loops over such lists
}

type copyRound struct {
	it   *iteration
	list *Term
}

func calls(e *Event, name string) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, name)
}

func isPeriodic(e *Event) bool {
	return calls(e, "Server).UnchokePeers") || calls(e, "Server).Announce")
}

// listing: the trackers answered with a list of peers.
func (m *ongoing) listing(s *State, e *Event) bool {
	if e.Kind != "call" || len(e.Res) != 2 || !strings.Contains(e.Name, "p2p.Multitracker).") || strings.HasSuffix(e.Name, ").Stop") {
		return false
	}
	v, known := s.query(mkEq(e.Res[1], mkNil()))
	return !known || v
}

// timer: what is received is the time.
func timer(t *Term) bool {
	ct, ok := t.T.Underlying().(*types.Chan)
	return ok && strings.HasSuffix(ct.Elem().String(), "time.Time")
}

func waited(e *Event, on func(ch *Term) bool) bool {
	return (e.Kind == "recv" || e.Kind == "select" && e.Name == "recv") && e.Addr != nil && on(e.Addr)
}

// after: the events behind e.
func after(evs []*Event, e *Event) []*Event {
	for i, x := range evs {
		if x == e {
			return evs[i+1:]
		}
	}
	return nil
}

// ownOf: the events of the goroutine of at.
func ownOf(evs []*Event, at *Event) (out []*Event) {
	for _, e := range evs {
		if e.Thread == at.Thread {
			out = append(out, e)
		}
	}
	return
}

func (m *ongoing) window(s *State, at *Event) {
	evs := before(s, at)
	w := ownOf(since(evs, at.Entry), at)
	h := at.In.Block()
	c := m.c
	for _, e := range w {
		switch {
		case calls(e, "Server).AddPeer") && at.Iter != nil:
			for _, x := range evs {
				if m.listing(s, x) && m.elemOf(s, e.Args[len(e.Args)-1], x.Res[0], at.Iter) != nil {
					m.lists[h] = append(m.lists[h], m.elemOf(s, e.Args[len(e.Args)-1], x.Res[0], at.Iter))
				}
			}
		case waited(e, func(ch *Term) bool { return loadOf(ch, m.newQ) != nil }):
			m.taken(s, after(w, e), e)
		case m.obtains(s, e):
			m.serve(s, after(w, e), e)
		case waited(e, timer):
			if m.root.Name() != "Start" {
				break
			}
			ok := false
			for _, x := range after(w, e) {
				ok = ok || isPeriodic(x)
			}
			c.ob("again", fnName(e)+m.from, ok, e.pos(c.p), "nothing may be done at a tick")
		case calls(e, "p2p.Peer).Receive") && len(e.Res) == 2:
			if v, known := s.query(mkEq(e.Res[1], mkNil())); known && !v {
				c.ob("handled", fnName(e)+": failed"+m.from, false, e.pos(c.p), "receiving goes on after an error")
				break
			}
			ok := false
			for _, x := range after(w, e) {
				ok = ok || calls(x, "p2p.Peer).HandleMessage") && x.Args[len(x.Args)-1] == e.Res[0] && x.Args[0] == e.Args[0]
			}
			c.ob("handled", fnName(e)+m.from, ok, e.pos(c.p), "a message may not be handled")
		}
	}
	if len(m.lists[h]) == 0 || !hasCall(w, "Server).AddPeer") {
		m.spare[h] = at
	}
	for _, e := range w {
		if e.Kind != "rangenext" || e.In.Block() != h || !m.activeOf(evs, e.Addr) {
			continue
		}
		m.copying(at, e.Val)
		m.unchoked(s, w, e, h, e.Val)
	}
	// each element of a list of them
	if at.Iter != nil {
		seen := map[*Term]bool{}
		var ys []*Term
		for _, x := range w {
			for _, a := range append(append([]*Term{x.Val, x.Addr}, x.Args...), x.Res...) {
				a.any(func(y *Term) bool {
					list, idx := elemAt(y)
					if list != nil && !seen[y] && isPeerPtr(y.T) && m.copyOf(list) != nil && eqPoly(s, polyOf(idx), polyOf(at.Iter)) {
						seen[y] = true
						m.rounds[h] = append(m.rounds[h], &copyRound{goRound(s, at), list})
						ys = append(ys, y)
					}
					return false
				})
			}
		}
		if len(ys) > 0 {
			m.unchoked(s, w, at, h, ys...)
		} else {
			m.rounds[h] = append(m.rounds[h], nil)
		}
	}
}

// copyOf: the list is one that grows by each active peer.
func (m *ongoing) copyOf(list *Term) *Term {
	if list.Op == "concat" && len(list.Args) == 2 {
		list = list.Args[0]
	}
	if list.Op != "phi" && list.Op != "mphi" {
		return nil
	}
	if n, ok := mkLen(list.Args[0]).isIntConst(); !ok || n != 0 || !m.copied[list] {
		return nil
	}
	return list
}

// copying: lists that the iteration adds the peer to.
func (m *ongoing) copying(at *Event, peer *Term) {
	note := func(g, v *Term) {
		ok := grows(v, g) == peer
		if old, seen := m.copied[g]; seen {
			ok = ok && old
		}
		m.copied[g] = ok
	}
	for ph, g := range at.Gen {
		if g != nil && g.Op == "phi" && at.Next[ph] != nil {
			note(g, at.Next[ph])
		}
	}
	for g, v := range at.Mem {
		note(g, v)
	}
}

func (m *ongoing) unchoked(s *State, w []*Event, e *Event, h *ssa.BasicBlock, peers ...*Term) {
	{
		did := false
		var started []ssa.Instruction
		done := func(s *State, x *Event) bool {
			for _, peer := range peers {
				if m.unchokes(s, x, peer) || m.excused(s, x, peer) {
					return true
				}
			}
			return false
		}
		for _, x := range w {
			did = did || done(s, x)
			if x.Kind == "spawn" {
				started = append(started, x.In)
			}
		}
		m.c.after(func() {
			for _, in := range started {
				n, of := 0, 0
				for _, t := range m.threads[in] {
					yes, other := false, false
					for _, x := range t.Ev[t.Start:] {
						yes = yes || done(t.Final, x)
						for _, a := range append([]*Term{x.Addr}, x.Args...) {
							other = other || a.any(func(y *Term) bool {
								list, _ := elemAt(y)
								return list != nil && m.copyOf(list) != nil && !slices.Contains(peers, y)
							})
						}
					}
					if yes {
						n++
					}
					if yes || !other {
						of++
					}
				}
				did = did || n > 0 && n == of
			}
			if did {
				m.all[h] = true
			} else if m.some[h] == nil {
				m.some[h] = e
			}
		})
	}
}

func hasCall(evs []*Event, name string) bool {
	for _, e := range evs {
		if calls(e, name) {
			return true
		}
	}
	return false
}

// elemOf: the value is an element of the list in the answer; its index.
func (m *ongoing) elemOf(s *State, v, res, iter *Term) *Poly {
	if v.Op != "init" || !v.any(func(x *Term) bool { return x == res }) {
		return nil
	}
	var i *Poly
	v.any(func(x *Term) bool {
		if x.Op == "iaddr" && len(x.Args) == 2 {
			if p := polyOf(x.Args[1]); isPoly(iter, p) || lenIs(s, polyAdd(polyAdd(p, polyOf(iter), 1), polyConst(1), 1), res) {
				i = polyOf(iter)
			}
		}
		return false
	})
	return i
}

// lenIs: the number is the length of a list in the answer.
func lenIs(s *State, p *Poly, res *Term) bool {
	for n := range lenOfList(s.facts, res) {
		if isPoly(n, p) {
			return true
		}
	}
	return false
}

// unchokes: the event takes back the choke of the peer.
func (m *ongoing) unchokes(s *State, e *Event, p *Term) bool {
	if e.Kind != "atomic" || e.Addr != mkFaddr(p, m.choked) || e.Name == "Load" {
		return calls(e, "p2p.Peer).Unchoke") && e.Args[0] == p
	}
	v, known := boolOf(s, e.Args[len(e.Args)-1])
	return known && !v
}

// excused: the peer was found closed, or not choked.
func (m *ongoing) excused(s *State, e *Event, p *Term) bool {
	if e.Kind != "atomic" || e.Name != "Load" || len(e.Res) == 0 {
		return false
	}
	v, known := boolOf(s, e.Res[0])
	return known && (e.Addr == mkFaddr(p, m.closed) && v || e.Addr == mkFaddr(p, m.choked) && !v)
}

// taken: the peer from the queue is dialled.
func (m *ongoing) taken(s *State, evs []*Event, of *Event) {
	m.each(s, evs, func(s *State, x *Event) bool {
		switch {
		case x.Kind == "call" && (strings.HasPrefix(x.Name, "net.Dial") || strings.HasPrefix(x.Name, "(*net.Dialer).Dial")):
			for _, a := range x.Args {
				if a.any(func(y *Term) bool { return y == of.Val }) {
					return true
				}
			}
		case x.Kind == "call" && x.Name == "net.ParseIP" && x.Args[0].any(func(y *Term) bool { return y == of.Val }):
			v, known := s.query(mkEq(x.Res[0], mkNil()))
			return known && v
		case x.Kind == "mapload" && loadOf(x.Addr, m.blocked) != nil && len(x.Res) > 0:
			had, known := boolOf(s, x.Res[len(x.Res)-1])
			return known && had
		case waited(x, isCtxDone):
			return true
		}
		return false
	}, func(ok bool) {
		m.c.ob("dialled", fnName(of)+m.from, ok, of.pos(m.c.p), "a peer from the queue may not be dialled")
	})
}

// serve: a handshake is made on the connection.
func (m *ongoing) serve(s *State, evs []*Event, of *Event) {
	m.each(s, evs, func(s *State, x *Event) bool {
		switch {
		case calls(x, "p2p.Peer).Handshake"):
			return m.conns[x.Args[0]] == of.Res[0]
		case x.Kind == "mapload" && loadOf(x.Addr, m.active) != nil && len(x.Res) > 0 && hasFullOrDup(s, m, x):
			return true
		case x.Kind == "select" && !x.OK && x.Name == "" && len(x.Args) > 0 && loadOf(x.Args[0], m.sem) != nil:
			return true // no slot is free
		case x.Kind == "unlock":
			return m.full(s)
		}
		return false
	}, func(ok bool) {
		m.c.ob("served", fnName(of)+m.from, ok, of.pos(m.c.p), "a connection there is room for may be dropped")
	})
}

func hasFullOrDup(s *State, m *ongoing, x *Event) bool {
	had, known := boolOf(s, x.Res[len(x.Res)-1])
	return known && had
}

// full: there are active peers already.
func (m *ongoing) full(s *State) bool {
	for n := s.facts; n != nil; n = n.prev {
		var l *Term
		n.t.any(func(x *Term) bool {
			if x.Op == "len" && len(x.Args) == 1 && loadOf(x.Args[0], m.active) != nil {
				l = x
			}
			return false
		})
		if l != nil && entails(s.facts, polySub(polyConst(1), polyOf(l))) {
			return true
		}
	}
	return false
}

// each: the events, or all runs of a goroutine they start, have one that is.
func (m *ongoing) each(s *State, evs []*Event, is func(s *State, x *Event) bool, report func(ok bool)) {
	ok := false
	var started []ssa.Instruction
	for _, x := range evs {
		ok = ok || is(s, x)
		if x.Kind == "spawn" {
			started = append(started, x.In)
		}
	}
	if ok || len(started) == 0 {
		report(ok)
		return
	}
	m.c.after(func() {
		for _, in := range started {
			n := 0
			for _, t := range m.threads[in] {
				yes := false
				for _, x := range t.Ev[t.Start:] {
					yes = yes || is(t.Final, x)
				}
				if yes {
					n++
				}
			}
			ok = ok || n > 0 && n == len(m.threads[in])
		}
		report(ok)
	})
}

func (m *ongoing) trace(t *Trace) {
	c, s := m.c, t.Final
	own := t.Ev[t.Start:]
	if t.Start > 0 {
		in := t.Ev[t.Start-1].In
		m.threads[in] = append(m.threads[in], t)
	}
	loops := false
	var last *Event
	for i, e := range own {
		switch {
		case waited(e, func(ch *Term) bool {
			return loadOf(ch, m.newQ) != nil || loadOf(ch, m.downQ) != nil || m.root.Name() == "Start" && timer(ch)
		}), calls(e, ").Accept"):
			loops = true
			last = e
		case m.listing(s, e):
			e, facts := e, s.facts
			lists, spare := m.lists, m.spare
			c.after(func() {
				ok := false
				for h, its := range lists {
					for _, it := range its {
						for n := range lenOfList(facts, e.Res[0]) {
							k := polyOf(n)
							ok = ok || spare[h] == nil && (entails(facts, polySub(k, it)) || entails(facts, polySub(k, polyAdd(it, polyConst(1), 1))))
						}
					}
				}
				c.ob("listed", fnName(e)+m.from, ok, e.pos(c.p), "peers in the answer of the trackers may be left out")
			})
		case m.obtains(s, e) && e.Thread > 0:
			m.serve(s, own[i+1:], e)
		case e.Kind == "mapstore" && loadOf(e.Addr, m.active) != nil && e.Thread > 0:
			ok := false
			for _, x := range own[i:] {
				if x.Kind != "call" || len(x.Res) == 0 || !(calls(x, "p2p.Peer).Receive") || calls(x, "p2p.Peer).HandleMessage") || x.Name == "api/peer.Write") {
					continue
				}
				v, known := s.query(mkEq(x.Res[len(x.Res)-1], mkNil()))
				ok = known && !v
			}
			for _, x := range own[i:] {
				ok = ok || waited(x, isCtxDone)
			}
			c.ob("handled", fnName(e)+": until"+m.from, ok, e.pos(c.p), "an active peer may not be served until that fails")
		}
	}
	if loops {
		ok := false
		for _, e := range own {
			ok = ok || waited(e, isCtxDone)
			if calls(e, ").Accept") {
				v, known := s.query(mkEq(e.Res[1], mkNil()))
				ok = ok || known && !v
			}
		}
		c.ob("lasting", fnName(last)+m.from, ok, last.pos(c.p), "this may end while the client runs")
	}
	if t.Start > 0 {
		return
	}
	name := shortName(m.root)
	if strings.HasSuffix(name, "p2p.Server).AddPeer") {
		m.handedOn(t)
	}
	if strings.HasSuffix(name, "p2p.Server).UnchokePeers") {
		var over *Event
		for _, e := range own {
			if e.Kind == "rangeend" && m.activeOf(own, e.Addr) {
				over = e
			}
		}
		m.atlast = append(m.atlast, func() {
			ok := over != nil && m.all[over.In.Block()] && m.some[over.In.Block()] == nil
			for h, rs := range m.rounds {
				if !m.all[h] || m.some[h] != nil {
					continue
				}
				if slices.Contains(rs, nil) {
					continue // not one of the peers each time
				}
				for _, r := range rs {
					ok = ok || over != nil && m.copyOf(r.list) != nil && r.it.over(t, lenPoly(r.list))
				}
			}
			c.ob("unchoked", name, ok, c.p.pos(m.root.Pos()), "an active peer may stay choked")
		})
	}
	if strings.HasSuffix(name, "p2p.Server).Start") {
		waits := false
		var from *Event
		for _, e := range own {
			if calls(e, "errgroup.Group).Wait") {
				m.startedAll(own, e)
				waits = true
			}
			if m.listing(s, e) {
				from = e
			}
		}
		if from != nil && !waits && len(t.Ret) > 0 {
			v, known := s.query(mkEq(t.Ret[len(t.Ret)-1], mkNil()))
			c.ob("started", name+": waits", known && !v, from.pos(c.p), "the client may end without a reason")
		}
	}
}

// lenOfList: lengths of lists in the answer that something is known of.
func lenOfList(f *Facts, res *Term) map[*Term]bool {
	out := map[*Term]bool{}
	for n := f; n != nil; n = n.prev {
		n.t.any(func(x *Term) bool {
			if x.Op == "len" && len(x.Args) == 1 && x.Args[0].any(func(y *Term) bool { return y == res }) {
				out[x] = true
			}
			return false
		})
	}
	return out
}

// handedOn: the peer is put into the queue, or need not be.
func (m *ongoing) handedOn(t *Trace) {
	c, s := m.c, t.Final
	var sent, stored *Event
	ok := false
	for _, e := range t.Ev {
		switch {
		case (e.Kind == "select" && e.Name == "send" || e.Kind == "send") && loadOf(e.Addr, m.newQ) != nil:
			sent, ok = e, true
		case e.Kind == "select" && e.Name == "" && !e.OK && len(e.Args) > 0 && loadOf(e.Args[0], m.newQ) != nil:
			ok = true // the queue is full
		case e.Kind == "mapstore" && loadOf(e.Addr, m.known) != nil:
			stored = e
		case e.Kind == "mapload" && (loadOf(e.Addr, m.known) != nil || loadOf(e.Addr, m.blocked) != nil) && len(e.Res) > 0:
			had, known := boolOf(s, e.Res[len(e.Res)-1])
			ok = ok || known && had
		case e.Kind == "call" && e.Name == "net.ParseIP":
			v, known := s.query(mkEq(e.Res[0], mkNil()))
			ok = ok || known && v
		}
	}
	where := c.p.pos(m.root.Pos())
	c.ob("queued", shortName(m.root), ok, where, "a peer may not be put into the queue")
	c.ob("queued", shortName(m.root)+": known", (sent == nil) == (stored == nil), where, "a peer may be known that is not in the queue, or the other way round")
	if sent != nil && stored != nil {
		c.ob("queued", shortName(m.root)+": same", sent.Val == stored.Val && sent.Val.Op == "param", where, "another peer may be put into the queue")
	}
}

// startedAll: everything runs when the client waits for its end.
func (m *ongoing) startedAll(own []*Event, wait *Event) {
	var started []ssa.Instruction
	var interval *Term
	for _, e := range own {
		if e.Kind == "spawn" {
			started = append(started, e.In)
		}
		if strings.Contains(e.Name, "p2p.Multitracker).Start") && len(e.Res) == 2 {
			interval = e.Res[0]
		}
	}
	m.c.after(func() {
		c := m.c
		for _, w := range []string{"Serve", "DialPeers", "RequestPieces", "UnchokePeers", "Announce"} {
			ok := false
			for _, in := range started {
				n, ticks := 0, 0
				for _, t := range m.threads[in] {
					for _, x := range t.Ev[t.Start:] {
						if x.Kind == "call" && strings.HasPrefix(x.Name, "time.") && len(x.Args) > 0 && x.Args[0].any(func(y *Term) bool { return y == interval }) {
							ticks++
						}
						if calls(x, "p2p.Server)."+w) {
							n++
						}
					}
				}
				ok = ok || n > 0 && (w != "Announce" || ticks > 0)
			}
			c.ob("started", w, ok, wait.pos(c.p), "the client may run without "+w)
		}
	})
}
