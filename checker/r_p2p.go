package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const p2pPkg = "p2p"

// p2pModel: the state of server and peers.
type p2pModel struct {
	c  *C
	ok bool
	to map[*Event]*Term // who messages are sent to

	active, addrs, idips, known, blocked, indexPeers, queued, inflight *types.Var
	sem, newQ, downQ                                                   *types.Var
	info, serverID, storage, sDown, sUp, tcp, sCancel, sMu             *types.Var
	id, rChoked, rInterested, closed, choked, interested, bits         *types.Var
	server, pCancel, pDown, pUp, pMu, conn, reqs                       *types.Var
	tiers                                                              *types.Var
	pieces, sha                                                        *types.Var

	begins []*Poly         // where requested blocks start
	conns  map[*Term]*Term // connections of new peers

	everyone, someone map[*ssa.BasicBlock]bool  // loops that close all peers, or some
	holds             map[*Term]ssa.Instruction // by what was loaded: the hold of the lock

	blocks map[*ssa.BasicBlock]bool   // loops that block addresses
	spares map[*ssa.BasicBlock]*Event // loops that leave out addresses
}

func (c *C) p2pModel() *p2pModel {
	m := &p2pModel{c: c, to: map[*Event]*Term{}}
	ok := true
	get := func(typ, name string, pred func(types.Type) bool) *types.Var {
		v := c.field(p2pPkg, typ, name, pred)
		if v == nil {
			ok = false
		}
		return v
	}
	mapOf := func(k, v string) func(types.Type) bool {
		return func(t types.Type) bool {
			mt, ok := t.Underlying().(*types.Map)
			return ok && strings.HasSuffix(mt.Key().String(), k) && strings.HasSuffix(mt.Elem().String(), v)
		}
	}
	chanOf := func(e string) func(types.Type) bool {
		return func(t types.Type) bool {
			ct, ok := t.Underlying().(*types.Chan)
			return ok && strings.HasSuffix(ct.Elem().String(), e)
		}
	}
	is := func(s string) func(types.Type) bool {
		return func(t types.Type) bool { return strings.HasSuffix(t.String(), s) }
	}
	m.active = get("Server", "activePeers", mapOf("p2p.idip", "p2p.Peer"))
	m.addrs = get("Server", "knownAddrs", mapOf("p2p.idip", "struct{}"))
	m.idips = get("Server", "knownIDIPs", mapOf("p2p.addr", "p2p.idip"))
	m.known = get("Server", "knownPeers", mapOf("p2p.addr", "tracker.Peer"))
	m.blocked = get("Server", "blockedPeers", mapOf("p2p.addr", "struct{}"))
	m.indexPeers = get("Server", "indexToPeers", mapOf("int", "struct{}"))
	m.queued = get("Server", "queuedPeers", mapOf("p2p.Peer", "struct{}"))
	m.inflight = get("Server", "inflight", mapOf("int", "p2p.Peer"))
	m.sem = get("Server", "peerSemaphore", chanOf("struct{}"))
	m.newQ = get("Server", "newPeerQueue", chanOf("tracker.Peer"))
	m.downQ = get("Server", "downloadQueue", chanOf("p2p.Peer"))
	m.info = get("Server", "Info", is("metainfo.Info"))
	m.serverID = get("Server", "PeerID", is("[20]byte"))
	m.storage = get("Server", "Storage", is("storage.Storage"))
	m.sDown = get("Server", "downloaded", nil)
	m.sUp = get("Server", "uploaded", nil)
	m.tcp = get("Server", "tcp", is("net.Listener"))
	m.sCancel = get("Server", "cancel", is("context.CancelFunc"))
	m.sMu = get("Server", "mu", isMutexType)
	m.id = get("Peer", "ID", is("[20]byte"))
	m.rChoked = get("Peer", "RemoteChoked", nil)
	m.rInterested = get("Peer", "RemoteInterested", nil)
	m.closed = get("Peer", "Closed", nil)
	m.choked = get("Peer", "Choked", nil)
	m.interested = get("Peer", "Interested", nil)
	m.bits = get("Peer", "Bitfield", is("bitfield.Bitfield"))
	m.server = get("Peer", "server", is("p2p.Server"))
	m.pCancel = get("Peer", "cancel", is("context.CancelFunc"))
	m.pDown = get("Peer", "downloaded", nil)
	m.pUp = get("Peer", "uploaded", nil)
	m.pMu = get("Peer", "mu", isMutexType)
	m.conn = get("Peer", "Conn", is("net.Conn"))
	m.reqs = get("Peer", "inflightRequests", mapOf("p2p.blockRequest", "]"))
	m.tiers = get("Multitracker", "TrackerTiers", is("p2p.Tracker"))
	m.pieces = c.field("api/metainfo", "Info", "Pieces", is("metainfo.Pieces"))
	m.sha = c.field("api/metainfo", "Info", "SHA1", is("[20]byte"))
	m.ok = ok && m.pieces != nil && m.sha != nil
	return m
}

// p2pOpaque: other packages are summarised (they have properties of their
// own), except for small data types; so are the exported functions of this
// package that stop names.
func p2pOpaque(root *ssa.Function, stop ...string) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if fn == root {
			return false
		}
		k := pkgOf(fn)
		switch {
		case k == p2pPkg:
			for _, n := range stop {
				if fn.Name() == n && isExportedFn(fn) {
					return true
				}
			}
			return false
		case k == "bitfield":
			return true
		case leafPkgs[k]:
			return false
		case k == peerPkg:
			return fn.Name() == "Write" || strings.HasPrefix(fn.Name(), "Read")
		}
		return isExportedFn(fn)
	}
}

func init() {
	register("P10", "The client never crashes and loses no error", func(c *C) {
		c.rule("no-panic", 100, "no index, slice, conversion, type assertion, nil dereference, message accessor or explicit panic can fail on any path of server, peers and tracker client")
		c.rule("errors", 20, "no error is lost")
		c.rule("index", 1, "a piece is asked for by its index only if the index was found valid")
		c.rule("bits", 1, "the bitfield of a peer has a bit for every piece, and only bits of pieces are set")
		c.rule("conn", 2, "connections of peers are TCP connections, and a peer can be cancelled before anybody knows it")
		c.rule("ticks", 1, "the time between two ticks is positive")
		m := c.p2pModel()
		if !m.ok {
			return
		}
		interval := c.field(trackerPkg, "Response", "Interval", nil)
		// T01: what the tracker client returns can be waited for, in seconds
		isInterval := func(d *Term) bool {
			p := polyOf(unconv(d))
			if p.C != 0 || len(p.Ms) != 1 || len(p.Ms[0].Atoms) != 1 || p.Ms[0].K < 1 || p.Ms[0].K > 1000000000 {
				return false
			}
			a := unconv(p.Ms[0].Atoms[0])
			if a.Op == "init" || a.Op == "havoc" {
				return a.Args[0].Op == "faddr" && a.Args[0].Obj == any(interval)
			}
			return loadOf(a, interval) != nil
		}
		valid := func(s *State, srv, i *Term) bool {
			n := polyOf(mkLen(fieldLoad(s, fieldLoad(s, srv, m.info), m.pieces)))
			return entails(s.facts, polyNeg(polyOf(i))) && entails(s.facts, polyAdd(polySub(polyOf(i), n), polyConst(1), 1))
		}
		// the piece is one the peer has
		peersOwn := func(i *Term) bool {
			x := unconv(i)
			for x.Op == "init" || x.Op == "havoc" {
				x = unconv(x.Args[0])
			}
			if x.Op != "iaddr" {
				return false
			}
			return x.Args[0].any(func(a *Term) bool { return loadOf(a, m.bits) != nil })
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			opts := func(o *Opts) {
				o.Opaque = p2pOpaque(f, "Serve", "DialPeers", "RequestPieces", "HandleMessage")
			}
			c.total(f, panicCfg{opts: opts, allow: func(root *ssa.Function, s *State, e *Event) bool {
				switch e.Name {
				case "typeassert":
					a := unconv(e.Args[0])
					if a.Op != "app" || !strings.HasSuffix(a.S, "(net.Conn).RemoteAddr") {
						return false
					}
					// rule conn
					return loadOf(unconv(a.Args[0]), m.conn) != nil || m.isTCP(a.Args[0])
				case "slice", "index":
					return m.memberIndex(s, e)
				}
				// cancelled only when known: rule conn
				return (e.Kind == "panic" || e.Name == "panic") && m.noCancel(s)
			}, onEvent: func(s *State, e *Event) {
				switch {
				case e.Kind == "store" && e.Field == m.conn:
					c.ob("conn", fnName(e)+": "+m.conn.Name(), m.isTCP(e.Val), e.pos(c.p), "the connection of a peer is "+trunc(e.Val.String(), 60))
				case e.Kind == "store" && e.Field == m.tcp:
					c.ob("conn", fnName(e)+": "+m.tcp.Name(), callName(e.Val) == "net.Listen", e.pos(c.p), "the listener is "+trunc(e.Val.String(), 60))
				case e.Kind == "call" && (e.Name == "net.Listen" || strings.HasPrefix(e.Name, "net.Dial")):
					n, _ := e.Args[0].isStrConst()
					c.ob("conn", fnName(e)+": "+shortCall(e), strings.HasPrefix(n, "tcp"), e.pos(c.p), "the network is "+trunc(e.Args[0].String(), 60))
				case e.Kind == "mapstore" && loadOf(e.Addr, m.active) != nil && isFresh(e.Val):
					v := fieldLoad(s, e.Val, m.pCancel)
					c.ob("conn", fnName(e)+": cancel", callName(v) == "context.WithCancel" || nonNil(v), e.pos(c.p), "a peer is known before it can be cancelled")
				}
				if e.Kind == "call" && len(e.Args) > 1 {
					switch e.Name {
					case "(*storage.Torrent).GetPiece", "(*storage.Storage).ResetPiece", "(*storage.Storage).GetPiece":
						ok := peersOwn(e.Args[1])
						if st := loadOf(e.Args[0], m.storage); st != nil && !ok {
							ok = valid(s, st, e.Args[1])
						}
						c.ob("index", fnName(e)+": "+shortCall(e), ok, e.pos(c.p), "the piece "+trunc(e.Args[1].String(), 80)+" is asked for")
					case "(bitfield.Bitfield).Add":
						p := loadOf(e.Args[0], m.bits)
						// the caller's duty
						ok := p != nil && (isExportedFn(f) && e.Args[1].Op == "param" && f.Name() == "RecordIndex" || valid(s, fieldLoad(s, p, m.server), e.Args[1]))
						c.ob("bits", fnName(e)+": "+shortCall(e)+" from "+shortName(f), ok, e.pos(c.p), "the bit "+trunc(e.Args[1].String(), 80)+" is set")
					}
				}
				if e.Kind == "call" && (e.Name == "time.NewTicker" || e.Name == "(*time.Ticker).Reset") {
					d := e.Args[len(e.Args)-1]
					// the caller's duty, or that of the tracker client
					ok := entails(s.facts, polySub(polyConst(1), polyOf(d))) || isExportedFn(f) && d.Op == "param" || isInterval(d)
					c.ob("ticks", fnName(e)+": "+shortCall(e)+" from "+shortName(f), ok, e.pos(c.p), "the time between two ticks is "+trunc(d.String(), 80)+", which may not be positive")
				}
				if e.Kind == "store" && e.Field == m.bits {
					ok := callName(e.Val) == "bitfield.New"
					c.ob("bits", fnName(e)+": "+m.bits.Name(), ok, e.pos(c.p), "the bitfield of a peer is "+trunc(e.Val.String(), 60))
				}
				if e.Kind == "call" && e.Name == "bitfield.New" {
					ok := e.Args[0].Op == "len" && loadOf(e.Args[0].Args[0], m.pieces) != nil
					c.ob("bits", fnName(e)+": "+shortCall(e), ok, e.pos(c.p), "the bitfield has "+trunc(e.Args[0].String(), 60)+" bits")
				}
			}})
			c.noLostErrors("errors", f, errCfg{opts: opts, exempt: func(e *Event) bool {
				if strings.HasPrefix(e.Name, "(net.Conn).Set") && strings.HasSuffix(e.Name, "Deadline") {
					return true // fails only on closed connections, on which all else fails
				}
				// the next tracker is tried: T03
				failover := f.Signature.Recv() != nil && shortType(f.Signature.Recv().Type()) != "Tracker" && inMethodOf(e, "Tracker")
				return failover || strings.HasSuffix(e.Name, ").Close")
			}, handled: func(s *State, e *Term, name string) bool {
				switch name {
				case "(*storage.Storage).PutBlock":
					return isErr(s, e, "storage.ErrBlockExists")
				}
				return false
			}})
		}
	})
}

// noCancel: the path knows that a peer cannot be cancelled.
func (m *p2pModel) noCancel(s *State) bool {
	for n := s.facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if a.Op != "eq" && a.any(func(x *Term) bool { return x.Op == "faddr" && x.Obj == any(m.pCancel) }) {
				if v, known := s.query(mkEq(a, mkNil())); known && v {
					return true
				}
			}
		}
	}
	return false
}

// isTCP: a TCP connection.
func (m *p2pModel) isTCP(t *Term) bool {
	t = unconv(t)
	n := callName(t)
	return strings.HasPrefix(n, "net.Dial") || n == "(net.Listener).Accept" || n == "(*net.Dialer).DialContext" || n == "(*net.Dialer).Dial"
}

// memberIndex: the bounds are right if what was searched for in a tier was
// found (trackers never leave their tier).
func (m *p2pModel) memberIndex(s *State, e *Event) bool {
	if len(e.Args) < 3 || !e.Args[0].any(func(x *Term) bool { return loadOf(x, m.tiers) != nil }) {
		return false
	}
	base := e.Args[0]
	if base.Op == "slice" {
		base = base.Args[0]
	}
	facts := s.facts
	for _, a := range e.Args[1:] {
		for v := range atomsOf(a) {
			if v.Op == "phi" || v.Op == "iter" || isCall(v, "slices.Index") || isCall(v, "slices.IndexFunc") {
				facts = addLe0(facts, polyNeg(polyOf(v)))
				facts = addLe0(facts, polyAdd(polySub(polyOf(v), polyOf(mkLen(base))), polyConst(1), 1))
			}
		}
	}
	if facts == s.facts {
		return false
	}
	lo, hi, limit := e.Args[1], e.Args[2], polyOf(lenOfSliced(e.Args[0]))
	if e.Name == "index" {
		return entails(facts, polyNeg(polyOf(lo))) && entails(facts, polyAdd(polySub(polyOf(lo), limit), polyConst(1), 1))
	}
	return entails(facts, polyNeg(polyOf(lo))) && entails(facts, polySub(polyOf(lo), polyOf(hi))) && entails(facts, polySub(polyOf(hi), limit))
}

// inMethodOf: the event happens in a method of the type or in what it calls.
func inMethodOf(e *Event, typ string) bool {
	for c := e.Stack; c != nil; c = c.parent {
		if r := c.fn.Signature.Recv(); r != nil && shortType(r.Type()) == typ {
			return true
		}
	}
	return false
}

// addLe0 assumes p <= 0.
func addLe0(f *Facts, p *Poly) *Facts {
	c := condLe0(p)
	return f.add(c.T, !c.Neg)
}
