package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P05", "No request, piece or peer is forgotten", func(c *C) {
		c.rule("registered", 2, "a block is requested only while its request is registered, and the request is forgotten when the requester ends")
		c.rule("delivered", 2, "a request is forgotten by others only when its requester is told")
		c.rule("answered", 2, "a requester is told whether its block was stored")
		c.rule("result", 1, "who requests a block reports success only if it was told so")
		c.rule("exclusive", 1, "a piece is requested from one peer at a time")
		c.rule("released", 1, "whoever requests a piece says when it ends")
		c.rule("queued", 2, "a peer is in the download queue or being asked exactly if it is known to be")
		c.rule("idle", 1, "a peer is left out of the download queue only if it is closed, chokes us, or was found to have nothing for us")
		c.rule("woken", 2, "a peer that unchokes us or has a new piece for us is put into the download queue after that is known")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			from := " from " + shortName(f)
			o := m.opts(mm, f, p2pStops...)
			o.Keep = func(s *State, e *Event) bool {
				return m.keep(s, e) || e.Kind == "mapload" && (loadOf(e.Addr, m.queued) != nil || loadOf(e.Addr, m.reqs) != nil) ||
					e.Kind == "call" && strings.HasPrefix(e.Name, "(bitfield.Bitfield).")
			}
			turns := map[ssa.Instruction][]turn{}
			lands := map[ssa.Instruction][]turn{}
			var roots, starts []turn
			c.walk(f, o, func(s *State, e *Event) {
				evs := threadEvents(before(s, e))
				switch {
				case e.Kind == "call":
					if p, msg := m.sends(s, e); p != nil && !isHandshake(msg) && msg.Op != "param" {
						if yes, known := mm.is(s, msg, "REQUEST"); !known || yes {
							e.Tag = "REQUEST"
							k := m.registered(s, mm, evs, p, msg)
							c.ob("registered", fnName(e)+from, k != nil, e.pos(c.p), "the block is requested though the request is not registered")
						}
					}
				case e.Kind == "mapstore" && loadOf(e.Addr, m.inflight) != nil && e.Val.Op != "nil":
					srv := loadOf(e.Addr, m.inflight)
					was, known := s.query(mkEq(s.mapOld(e.Addr, e.Args[0], 1), mkNil()))
					if !known {
						var in bool
						in, known = boolOf(s, s.mapInOld(e.Addr, e.Args[0], 1))
						was = !in
					}
					ok := known && was && e.Locks.find(mkFaddr(srv, m.sMu)) != nil
					c.ob("exclusive", fnName(e)+from, ok, e.pos(c.p), "the piece may be in flight already")
				case e.Kind == "mapdelete" && loadOf(e.Addr, m.queued) != nil:
					c.ob("idle", fnName(e)+from, m.idle(s, before(s, e), e), e.pos(c.p), "the peer is left out of the queue though it may have pieces for us by now")
				case e.Kind == "mapstore" && loadOf(e.Addr, m.queued) != nil:
					srv := loadOf(e.Addr, m.queued)
					in, known := boolOf(s, s.mapInOld(e.Addr, e.Args[0], 1))
					ok := known && !in && e.Locks.find(mkFaddr(srv, m.sMu)) != nil
					c.ob("queued", fnName(e)+": once"+from, ok, e.pos(c.p), "the peer may be queued already")
				case e.Kind == "rearrive":
					w := since(before(s, e), e.Entry)
					m.windows(s, mm, f, threadEvents(w), nil, from)
					if fl := m.flight(w); fl != nil && fl.Thread == e.Thread {
						starts = append(starts, m.landing(w, fl))
					}
					if r := m.received(w); r != nil && r.Thread == e.Thread {
						roots = append(roots, m.turnOf(s, w, r))
					}
				}
			}, func(t *Trace) {
				if t.End != "return" || t.Start > 0 && t.Start >= len(t.Ev) {
					return
				}
				own := t.Ev[t.Start:]
				m.windows(t.Final, mm, f, own, t.Ret, from)
				m.ended(t, mm, own, from)
				if fl := m.flight(t.Ev); fl != nil {
					tn := m.landing(own, fl)
					if t.Start == 0 || m.flight(own) == fl {
						starts = append(starts, tn)
					} else {
						in := t.Ev[t.Start-1].In
						lands[in] = append(lands[in], tn)
					}
				}
				if r := m.received(t.Ev); r != nil {
					tn := m.turnOf(t.Final, own, r)
					if t.Start == 0 || m.received(own) == r {
						roots = append(roots, tn)
					} else {
						in := t.Ev[t.Start-1].In
						turns[in] = append(turns[in], tn)
					}
				} else {
					m.balance(t.Final, own, from)
				}
			})
			for _, r := range starts {
				n, _ := r.total(lands, 0)
				c.ob("released", fnName(r.e)+from, n == 1, r.e.pos(c.p), "the piece may stay in flight forever")
			}
			for _, r := range roots {
				n, stop := r.total(turns, 0)
				c.ob("queued", fnName(r.e)+": "+r.e.Kind+from, n == 1 || n == 0 && stop, r.e.pos(c.p), "a peer that was taken from the queue is neither put back nor known to be out of it on every path, or twice")
			}
		}
	})
}

// since are the events after e.
func since(evs []*Event, e *Event) []*Event {
	for i, x := range evs {
		if x == e {
			return evs[i+1:]
		}
	}
	return evs
}

// mapInOld says whether the map had the key before the last changes.
func (s *State) mapInOld(m, k *Term, back int) *Term {
	t := s.mapOld(m, k, back)
	return t.Args[1]
}

// ---- turns of peers taken from the download queue

type turn struct {
	e      *Event
	n      int
	stop   bool
	spawns []ssa.Instruction
}

// total: how often the peer is passed on, unless the client ends.
func (t turn) total(turns map[ssa.Instruction][]turn, depth int) (n int, stop bool) {
	n, stop = t.n, t.stop
	for _, sp := range t.spawns {
		all := turns[sp]
		if len(all) == 0 || depth > 4 {
			continue
		}
		k, ends := -1, 0
		for _, x := range all {
			kx, sx := x.total(turns, depth+1)
			switch {
			case sx && kx == 0:
				ends++
			case k >= 0 && k != kx:
				return 99, false
			default:
				k = kx
			}
		}
		if k > 0 {
			n += k
		}
		stop = stop || ends == len(all)
	}
	return n, stop
}

// received is where a peer was taken from the queue last.
func (m *p2pModel) received(evs []*Event) *Event {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if (e.Kind == "select" && e.Name == "recv" || e.Kind == "recv") && e.Addr != nil && loadOf(e.Addr, m.downQ) != nil {
			return e
		}
	}
	return nil
}

func (m *p2pModel) turnOf(s *State, evs []*Event, r *Event) turn {
	t := turn{e: r}
	on := true
	for _, e := range evs {
		if e == r {
			on = true
			t.n, t.stop, t.spawns = 0, false, nil
			continue
		}
		if !on {
			continue
		}
		switch {
		case (e.Kind == "select" && e.Name == "send" || e.Kind == "send") && loadOf(e.Addr, m.downQ) != nil && e.Val == r.Val:
			t.n++
		case (e.Kind == "select" && e.Name == "recv" || e.Kind == "recv") && isCtxDone(e.Addr):
			t.stop = true
		case e.Kind == "mapdelete" && loadOf(e.Addr, m.queued) != nil && e.Args[0] == r.Val:
			t.n++
		case e.Kind == "mapstore" && loadOf(e.Addr, m.queued) != nil && e.Args[0] == r.Val:
			t.n--
		case e.Kind == "spawn":
			t.spawns = append(t.spawns, e.In)
		}
	}
	return t
}

func isCtxDone(t *Term) bool { return t != nil && callName(t) == "(context.Context).Done" }

// balance: peers enter the queue as they become known to be in it.
func (m *p2pModel) balance(s *State, evs []*Event, from string) {
	n := map[*Term]int{}
	at := map[*Term]*Event{}
	var order []*Term
	add := func(p *Term, e *Event, d int) {
		if at[p] == nil {
			at[p] = e
			order = append(order, p)
		}
		n[p] += d
	}
	for _, e := range evs {
		switch {
		case (e.Kind == "select" && e.Name == "send" || e.Kind == "send") && loadOf(e.Addr, m.downQ) != nil:
			add(e.Val, e, 1)
			held := e.Locks.find(mkFaddr(loadOf(e.Addr, m.downQ), m.sMu)) != nil
			m.c.ob("queued", fnName(e)+": locked"+from, held, e.pos(m.c.p), "the peer may be taken from the queue before it is known to be in it")
		case e.Kind == "mapdelete" && loadOf(e.Addr, m.queued) != nil:
			add(e.Args[0], e, 1)
		case e.Kind == "mapstore" && loadOf(e.Addr, m.queued) != nil:
			add(e.Args[0], e, -1)
		}
	}
	for _, p := range order {
		m.c.ob("queued", fnName(at[p])+from, n[p] == 0, at[p].pos(m.c.p), "a peer is queued but not known to be, or the other way around")
	}
}

// idle: under the lock, the peer was found closed, choking, or of no use.
func (m *p2pModel) idle(s *State, evs []*Event, del *Event) bool {
	srv := loadOf(del.Addr, m.queued)
	lock := mkFaddr(srv, m.sMu)
	if del.Locks.find(lock) == nil {
		return false
	}
	p := del.Args[0]
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if !sameHold(append(evs[i:len(evs):len(evs)], del), e, del, lock) {
			break
		}
		switch {
		case e.Kind == "atomic" && (e.Addr == mkFaddr(p, m.closed) || e.Addr == mkFaddr(p, m.rChoked)):
			if op, ok := flagOpOf(s, e); ok && op.set && op.val {
				return true
			}
		case e.Kind == "call" && strings.HasPrefix(e.Name, "(bitfield.Bitfield)."):
			for _, a := range e.Args {
				if loadOf(a, m.bits) == p {
					return true
				}
			}
		}
	}
	return false
}

// ---- requests

// reqKey: the key is that of the block.
func (m *p2pModel) reqKey(s *State, k, index, begin, length *Term) bool {
	ps := s.parts(k)
	return len(ps) == 3 && polyTermEq(ps[0], index) && polyTermEq(ps[1], begin) && polyTermEq(ps[2], length)
}

// registered: the key under which the requester registered the request.
func (m *p2pModel) registered(s *State, mm *msgModel, evs []*Event, p, msg *Term) (key *Term) {
	i, b, l := mm.get(s, msg, "Index"), mm.get(s, msg, "Begin"), mm.get(s, msg, "Length")
	lock := mkFaddr(p, m.pMu)
	for _, e := range evs {
		if e.Addr == nil || loadOf(e.Addr, m.reqs) != p {
			continue
		}
		switch e.Kind {
		case "mapstore":
			if e.Locks.find(lock) != nil && m.reqKey(s, e.Args[0], i, b, l) {
				key = e.Args[0]
			}
		case "mapload":
			if in, known := boolOf(s, e.Res[len(e.Res)-1]); known && in && e.Locks.find(lock) != nil && m.reqKey(s, e.Args[0], i, b, l) {
				key = e.Args[0]
			}
		case "mapdelete", "clear":
			key = nil
		}
	}
	return
}

// ended: a requester has forgotten its requests, pieces and reports what it was
// told.
func (m *p2pModel) ended(t *Trace, mm *msgModel, own []*Event, from string) {
	s := t.Final
	for i, e := range own {
		switch {
		case e.Kind == "mapstore" && loadOf(e.Addr, m.reqs) != nil:
			p := loadOf(e.Addr, m.reqs)
			ok := false
			for _, x := range own[i+1:] {
				if x.Kind == "mapdelete" && loadOf(x.Addr, m.reqs) == p && sameKey(x.Args[0], e.Args[0]) && x.Locks.find(mkFaddr(p, m.pMu)) != nil {
					ok = true
				}
			}
			m.c.ob("registered", fnName(e)+": forgotten"+from, ok, e.pos(m.c.p), "the request stays registered when nobody waits for it any more")
		case e.Kind == "call":
			if e.Tag != "REQUEST" || len(t.Ret) == 0 {
				continue
			}
			r := t.Ret[len(t.Ret)-1]
			if r == nil || !isErrorType(r.T) && r.Op != "nil" {
				continue
			}
			isNil, known := s.query(mkEq(r, mkNil()))
			if known && !isNil {
				continue
			}
			ok := false
			for _, x := range own[i+1:] {
				if (x.Kind == "recv" || x.Kind == "select" && x.Name == "recv") && m.valueOf(s, r, x.Addr) {
					ok = true
				}
			}
			m.c.ob("result", fnName(e)+from, ok, e.pos(m.c.p), "success is reported though the block may not have been stored")
		}
	}
}

// flight is the last piece that was entered among those in flight.
func (m *p2pModel) flight(evs []*Event) *Event {
	for i := len(evs) - 1; i >= 0; i-- {
		if e := evs[i]; e.Kind == "mapstore" && loadOf(e.Addr, m.inflight) != nil && e.Val.Op != "nil" {
			return e
		}
	}
	return nil
}

// landing: what the events do about the piece.
func (m *p2pModel) landing(evs []*Event, e *Event) turn {
	t := turn{e: e}
	lock := mkFaddr(loadOf(e.Addr, m.inflight), m.sMu)
	for _, x := range evs {
		switch {
		case x == e:
			t.n, t.spawns = 0, nil
		case (x.Kind == "mapdelete" || x.Kind == "mapstore" && x.Val.Op == "nil") && x.Addr == e.Addr && sameKey(x.Args[0], e.Args[0]) && x.Locks.find(lock) != nil:
			t.n = 1
		case x.Kind == "spawn":
			t.spawns = append(t.spawns, x.In)
		}
	}
	return t
}

// valueOf: the value is the one of the future that this channel announces.
func (m *p2pModel) valueOf(s *State, v, ch *Term) bool {
	v, ch = stripVer(v), stripVer(ch)
	if ch.Op == "init" && v.Op == "init" && ch.Args[0].Op == "faddr" && v.Args[0].Op == "faddr" {
		return ch.Args[0].Args[0] == v.Args[0].Args[0]
	}
	if v.Op == "init" && v.Args[0].Op == "faddr" {
		for a, x := range s.mem.cells {
			if a.Op == "faddr" && a.Args[0] == v.Args[0].Args[0] && x == ch {
				return true
			}
		}
	}
	return v == ch
}

// windows: what others do with requests, in one piece of history.
func (m *p2pModel) windows(s *State, mm *msgModel, root *ssa.Function, evs []*Event, ret []*Term, from string) {
	c := m.c
	mine := func(i int, key *Term) bool {
		for _, x := range evs[:i] {
			if (x.Kind == "mapstore" || x.Kind == "mapload" && !sameHold(evs, x, evs[i], mkFaddr(loadOf(x.Addr, m.reqs), m.pMu))) && loadOf(x.Addr, m.reqs) != nil && sameKey(x.Args[0], key) {
				return true
			}
		}
		return false
	}
	for i, e := range evs {
		switch {
		case e.Kind == "mapdelete" && loadOf(e.Addr, m.reqs) != nil:
			if had, known := boolOf(s, e.Res[0]); known && !had || mine(i, e.Args[0]) {
				continue
			}
			lock := mkFaddr(loadOf(e.Addr, m.reqs), m.pMu)
			ok := false
			for _, x := range evs {
				if isDeliver(x) && m.futureOf(x.Args[0], evs, e.Addr, e.Args[0]) && (sameHold(evs, x, e, lock) || sameHold(evs, e, x, lock)) {
					ok = true
				}
			}
			c.ob("delivered", fnName(e)+from, ok, e.pos(c.p), "the request is forgotten though its requester is not told")
		case e.Kind == "call" && e.Name == putBlock:
			var told *Event
			for _, x := range evs[i+1:] {
				if !isDeliver(x) || told != nil {
					continue
				}
				for _, y := range evs {
					if y.Kind == "mapdelete" && loadOf(y.Addr, m.reqs) != nil && m.futureOf(x.Args[0], evs, y.Addr, y.Args[0]) && m.reqKey(s, y.Args[0], e.Args[1], e.Args[2], mkLen(e.Args[3])) {
						told = x
					}
				}
			}
			if told == nil {
				c.ob("answered", fnName(e)+from, false, e.pos(c.p), "the requester of a block that arrived is not told")
				continue
			}
			a, b := s.query(mkEq(e.Res[0], mkNil()))
			x, y := s.query(mkEq(told.Args[1], mkNil()))
			ok := told.Args[1] == e.Res[0] || b && y && a == x || y && x && isErr(s, e.Res[0], "storage.ErrBlockExists")
			c.ob("answered", fnName(e)+": what"+from, ok, e.pos(c.p), "the requester is told something else than whether its block was stored")
		}
	}
	m.woken(s, mm, root, evs, ret, from)
}

// futureOf: the future is the one registered under the key.
func (m *p2pModel) futureOf(fut *Term, evs []*Event, mp, key *Term) bool {
	for _, x := range evs {
		if x.Kind == "rangenext" && x.Addr == mp && sameKey(x.Args[0], key) && x.Val == fut {
			return true
		}
	}
	return fut.any(func(x *Term) bool {
		return (x.Op == "mval" || x.Op == "mget") && len(x.Args) > 1 && x.Args[0] == mp && sameKey(x.Args[1], key)
	})
}

// woken: once the peer no longer chokes us, or has a piece we miss, it is put
// into the queue, unless it cannot be or is there.
func (m *p2pModel) woken(s *State, mm *msgModel, root *ssa.Function, evs []*Event, ret []*Term, from string) {
	if len(ret) > 0 && isErrorType(ret[len(ret)-1].T) {
		if v, known := s.query(mkEq(ret[len(ret)-1], mkNil())); known && !v {
			return // the connection ends
		}
	}
	for i, e := range evs {
		var p *Term
		what := ""
		switch {
		case e.Kind == "atomic" && e.Field == m.rChoked && !isFresh(e.Addr.Args[0]):
			if op, ok := flagOpOf(s, e); ok && op.perhaps && op.set && !op.val {
				p, what = e.Addr.Args[0], "unchoked"
			}
		case isBitAdd(e):
			p, what = loadOf(e.Args[0], m.bits), "bit"
			if root.Name() == "RecordIndex" {
				p = nil
			}
		}
		if p == nil {
			continue
		}
		ok := false
		for _, x := range evs[i+1:] {
			switch {
			case x.Kind == "select" && hasChan(x, m.downQ):
				ok = true
			case x.Kind == "send" && loadOf(x.Addr, m.downQ) != nil:
				ok = true
			case x.Kind == "mapload" && loadOf(x.Addr, m.queued) != nil && x.Args[0] == p:
				if in, known := boolOf(s, x.Res[len(x.Res)-1]); known && in {
					ok = true
				}
			case x.Kind == "atomic" && (x.Addr == mkFaddr(p, m.closed) || x.Addr == mkFaddr(p, m.rChoked)):
				if op, k := flagOpOf(s, x); k && op.set && op.val {
					ok = true
				}
			case what == "bit" && x.Kind == "call" && x.Name == "(*storage.Torrent).HasPiece" && polyTermEq(x.Args[1], e.Args[1]):
				if v, known := boolOf(s, x.Res[0]); known && v {
					ok = true
				}
			}
		}
		m.c.ob("woken", fnName(e)+": "+what+from, ok, e.pos(m.c.p), "the peer is not put into the download queue afterwards")
	}
}

func hasChan(e *Event, f *types.Var) bool {
	for _, a := range e.Args {
		if a != nil && loadOf(a, f) != nil {
			return true
		}
	}
	return false
}
