package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- what a history says of flags and messages

// flag is a boolean of a peer that is read and written atomically.
type flagOp struct {
	e        *Event
	read     bool
	set      bool // the value after the operation is known ...
	val      bool // ... to be this
	changed  bool // the operation changed the value
	perhaps  bool // the operation may have changed the value
	unlocked bool
}

func boolOf(s *State, t *Term) (v, known bool) {
	if t == nil {
		return false, false
	}
	if b, ok := t.isBoolConst(); ok {
		return b, true
	}
	return s.query(t)
}

// flagOpOf: what an atomic operation on the flag does.
func flagOpOf(s *State, e *Event) (op flagOp, ok bool) {
	if e.Kind != "atomic" {
		return
	}
	op.e = e
	switch e.Name {
	case "Load":
		op.read = true
		op.val, op.set = boolOf(s, e.Res[0])
	case "Store":
		op.val, op.set = boolOf(s, e.Args[len(e.Args)-1])
		op.changed, op.perhaps = op.set, true
	case "Swap":
		op.val, op.set = boolOf(s, e.Args[len(e.Args)-1])
		old, known := boolOf(s, e.Res[0])
		op.changed = known && op.set && old != op.val
		op.perhaps = !known || op.changed
	case "CompareAndSwap":
		if len(e.Args) < 3 {
			return op, false
		}
		old, k1 := boolOf(s, e.Args[1])
		nw, k2 := boolOf(s, e.Args[2])
		done, k3 := boolOf(s, e.Res[0])
		if !k1 || !k2 {
			op.perhaps = true
			return op, true
		}
		switch {
		case !k3:
			op.perhaps = true
		case done:
			op.set, op.val, op.changed, op.perhaps = true, nw, old != nw, true
		default:
			op.read, op.set, op.val = true, true, !old
		}
	default:
		op.perhaps = true
	}
	return op, true
}

// before lists the events before e (or all) in the order they happened.
func before(s *State, e *Event) []*Event {
	var out []*Event
	x := s.ev
	for ; x != nil; x = x.prev {
		if x == e {
			x = x.prev
			break
		}
	}
	if x == nil && e != nil {
		// e itself is not part of the history
		x = s.ev
	}
	for ; x != nil; x = x.prev {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// sameHold: the lock is held without interruption from a to b.
func sameHold(evs []*Event, a, b *Event, lock *Term) bool {
	la, lb := a.Locks.find(lock), b.Locks.find(lock)
	if la == nil || lb == nil || la.At != lb.At {
		return false
	}
	in := false
	for _, e := range evs {
		if e == a {
			in = true
		}
		if in && (e.Kind == "unlock" || e.Kind == "lock") && e.Addr == lock {
			return false
		}
		if e == b {
			break
		}
	}
	return true
}

// lastFlag: what the events say of a flag of peer p at their end.
func lastFlag(s *State, evs []*Event, p *Term, f *types.Var) (op flagOp, ok bool) {
	a := mkFaddr(p, f)
	for i := len(evs) - 1; i >= 0; i-- {
		if e := evs[i]; e.Kind == "atomic" && e.Addr == a {
			return flagOpOf(s, e)
		}
	}
	return
}

// msgModel: the fields of messages.
type msgModel struct {
	typ   *types.Var
	hash  *types.Var // of handshakes
	id    *types.Var
	roles map[string]*types.Var
	num   map[string]int64
}

func (c *C) msgModel() *msgModel {
	m := &msgModel{num: map[string]int64{}}
	cc := newC(c.p, c.prop)
	cc.rule("roles", 0, "")
	m.roles, m.typ = cc.msgRoles("roles")
	m.hash = c.field(peerPkg, "Handshake", "InfoHash", nil)
	m.id = c.field(peerPkg, "Handshake", "PeerID", nil)
	if m.hash == nil || m.id == nil || m.roles == nil || m.typ == nil || m.typ.Pkg() == nil {
		c.undecide("the fields of messages are not found")
		return nil
	}
	for _, sp := range msgSpecs {
		k, ok := m.typ.Pkg().Scope().Lookup(sp.name).(*types.Const)
		if !ok {
			c.undecide("the number of %s is not found", sp.name)
			return nil
		}
		n, _ := constant.Int64Val(constant.ToInt(k.Val()))
		m.num[sp.name] = n
	}
	return m
}

// is: whether the message is of this type.
func (m *msgModel) is(s *State, msg *Term, name string) (yes, known bool) {
	t := fieldLoad(s, msg, m.typ)
	return boolOf(s, boolTerm(condEq0(polySub(polyOf(t), polyConst(m.num[name])))))
}

func (m *msgModel) get(s *State, msg *Term, role string) *Term {
	return fieldLoad(s, msg, m.roles[role])
}

// sends: the event writes this message to this peer.
func (m *p2pModel) sends(s *State, e *Event) (peer, msg *Term) {
	if e.Kind != "call" || len(e.Args) != 2 {
		return
	}
	var conn *Term
	switch {
	case e.Name == peerPkg+".Write":
		conn, msg = e.Args[0], unconv(e.Args[1])
	case strings.HasPrefix(e.Name, "(*"+peerPkg+".") && strings.HasSuffix(e.Name, ").Encode"):
		conn, msg = e.Args[1], unconv(e.Args[0])
	default:
		return nil, nil
	}
	if p, ok := m.to[e]; ok {
		return p, msg
	}
	peer = m.peerOf(s, conn)
	m.to[e] = peer
	return
}

// peerOf: the peer at the other end of the connection.
func (m *p2pModel) peerOf(s *State, conn *Term) *Term {
	conn = unconv(conn)
	if p := loadOf(conn, m.conn); p != nil {
		return p
	}
	for _, a := range sortedCells(s.mem.cells) {
		if a.Op == "faddr" && a.Obj == any(m.conn) && unconv(s.mem.cells[a]) == conn {
			return a.Args[0]
		}
	}
	return conn
}

func sortedCells(cells map[*Term]*Term) []*Term {
	var out []*Term
	for a := range cells {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// keep: the events that distinguish histories of the client.
func (m *p2pModel) keep(s *State, e *Event) bool {
	switch e.Kind {
	case "atomic", "lock", "unlock", "mapstore", "mapdelete", "rangenext", "rangeend", "clear", "once", "spawn", "thread", "select", "send", "recv":
		return true
	case "call":
		if e.SFn != nil && !strings.HasPrefix(e.Name, "(*metainfo") {
			return true
		}
		return isDeliver(e) || isBitAdd(e)
	}
	return false
}

// p2pStops are the exported functions that are not expanded in others.
var p2pStops = []string{"Serve", "DialPeers", "RequestPieces", "HandleMessage"}

func (m *p2pModel) opts(mm *msgModel, root *ssa.Function, stops ...string) Opts {
	keep := map[*types.Var]bool{m.id: true, m.conn: true, m.server: true, m.info: true, m.sha: true, m.serverID: true, m.pieces: true, m.storage: true}
	if mm != nil {
		keep[mm.typ], keep[mm.hash], keep[mm.id] = true, true, true
		for _, f := range mm.roles {
			keep[f] = true
		}
	}
	return Opts{OneIter: true, Merge: true, MergeMem: true, Keep: m.keep,
		Opaque: p2pOpaque(root, stops...),
		Harmless: func(fn *ssa.Function) bool {
			return pkgOf(fn) == peerPkg && fn.Name() == "Write" || pkgOf(fn) == "storage"
		},
		// storage knows nothing of servers and peers
		Inert: func(fn *ssa.Function) bool { return pkgOf(fn) == "storage" },
		Pure: func(fn *ssa.Function) bool {
			n := shortName(fn)
			return strings.HasPrefix(n, "(*future.Future[") && strings.HasSuffix(n, ").Deliver")
		},
		Preserve: keep,
	}
}

func init() {
	register("P03", "Chokes and interest are obeyed and announced", func(c *C) {
		c.rule("request", 2, "a block is requested only from a peer that has not choked us, which cannot change until the request is written")
		c.rule("serve", 2, "a block is sent only to a peer that is not choked, and it is the block that was read from storage for this request")
		c.rule("announce", 8, "the peer is told of each change of its choke and our interest, in their order, and only of changes")
		c.rule("dispatch", 4, "messages of the peer set its choke and interest, and nothing else does")
		c.rule("abort", 3, "when the peer chokes us, every request in flight fails at once")
		c.rule("initial", 2, "a connection starts choked in both directions")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		told := map[*types.Var][2]string{m.choked: {"UNCHOKE", "CHOKE"}, m.interested: {"NOT_INTERESTED", "INTERESTED"}}
		flags := []*types.Var{m.choked, m.interested}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			o := m.opts(mm, f, p2pStops...)
			c.walk(f, o, func(s *State, e *Event) {
				if p, msg := m.sends(s, e); p != nil {
					where := fnName(e) + " from " + shortName(f)
					if _, named := msg.T.(*types.Pointer); !named || !strings.HasSuffix(msg.T.String(), "peer.Message") {
						return
					}
					evs := before(s, e)
					if yes, known := mm.is(s, msg, "REQUEST"); !known || yes {
						op, ok := lastFlag(s, evs, p, m.rChoked)
						ok = ok && op.set && !op.val && sameHold(evs, op.e, e, mkFaddr(p, m.pMu))
						c.ob("request", where, ok, e.pos(c.p), "a request is written though the peer may have choked us")
					}
					if yes, known := mm.is(s, msg, "PIECE"); known && yes {
						c.ob("serve", where, m.servedBlock(s, mm, evs, p, msg, f), e.pos(c.p), "a block is sent that is not the one read for the request, or the peer may be choked")
					}
					for _, fl := range flags {
						for v, n := range told[fl] {
							if yes, known := mm.is(s, msg, n); known && yes {
								op, ok := lastFlag(s, evs, p, fl)
								e.Tag = n
								c.ob("announce", where+": "+n, ok && op.changed && op.val == (v == 1), e.pos(c.p), "the message is sent though "+fl.Name()+" has not just become so")
								c.ob("announce", where+": "+n+": in order", ok && sameHold(evs, op.e, e, mkFaddr(p, m.pMu)), e.pos(c.p), "other changes of "+fl.Name()+" may be announced in between")
							}
						}
					}
				}
				if e.Kind == "mapstore" && loadOf(e.Addr, m.active) != nil && isFresh(e.Val) {
					evs := before(s, e)
					for _, fl := range []*types.Var{m.choked, m.rChoked} {
						op, ok := lastFlag(s, evs, e.Val, fl)
						c.ob("initial", fnName(e)+": "+fl.Name()+" from "+shortName(f), ok && op.set && op.val, e.pos(c.p), "the connection does not start with "+fl.Name())
					}
				}
				if e.Kind == "atomic" && e.Name != "Load" && (e.Field == m.rChoked || e.Field == m.rInterested) {
					// set by the peer's messages only
					p := e.Addr.Args[0]
					if isFresh(p) {
						return
					}
					n := f.Name()
					ok := n == "HandleMessage" || strings.HasPrefix(n, "Handle") && f.Signature.Recv() != nil
					c.ob("dispatch", fnName(e)+": "+e.Field.Name()+" from "+shortName(f), ok, e.pos(c.p), e.Field.Name()+" is set without a message of the peer")
				}
			}, func(t *Trace) {
				s := t.Final
				evs := t.Ev
				if t.Start < len(evs) {
					evs = evs[t.Start:]
				} else {
					evs = nil
				}
				if t.End == "return" {
					for i, e := range evs {
						for _, fl := range flags {
							if e.Kind != "atomic" || e.Field != fl || isFresh(e.Addr.Args[0]) {
								continue
							}
							op, _ := flagOpOf(s, e)
							if !op.perhaps {
								continue
							}
							ok := false
							want := ""
							if op.set {
								want = told[fl][b2i(op.val)]
								for _, x := range evs[i+1:] {
									if p, _ := m.sends(s, x); p == e.Addr.Args[0] && x.Tag == want {
										ok = true
									}
								}
							}
							c.ob("announce", fnName(e)+": "+fl.Name(), ok, e.pos(c.p), "the peer is not told that "+fl.Name()+" changed (no "+want+") from "+shortName(f))
						}
					}
				}
				if f.Name() == "HandleMessage" && f.Signature.Recv() != nil && t.Final.thread == 0 {
					m.dispatched(c, mm, t, f)
				}
				m.aborted(c, mm, t, evs)
			})
		}
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// servedBlock: the block is what storage returned for the request, and the peer
// was found not to be choked.
func (m *p2pModel) servedBlock(s *State, mm *msgModel, evs []*Event, p, msg *Term, f *ssa.Function) bool {
	op, ok := lastFlag(s, evs, p, m.choked)
	if !ok || !op.set || op.val {
		return false
	}
	var get *Event
	for _, e := range evs {
		if e.Kind == "call" && e.Name == "(*storage.Storage).GetBlock" {
			get = e
		}
	}
	if get == nil || len(get.Args) != 4 {
		return false
	}
	if v, known := s.query(mkEq(get.Res[1], mkNil())); !known || !v {
		return false
	}
	if mm.get(s, msg, "Piece") != get.Res[0] || mm.get(s, msg, "Index") != get.Args[1] || mm.get(s, msg, "Begin") != get.Args[2] {
		return false
	}
	if f.Name() == "HandleMessage" {
		req := s.frames[0].env[f.Params[1]]
		for i, r := range []string{"Index", "Begin", "Length"} {
			x := stripVer(get.Args[i+1])
			if loadOf(x, mm.roles[r]) != req {
				return false
			}
		}
	}
	return loadOf(get.Args[0], m.storage) != nil
}

// dispatched: each message has set what it stands for.
func (m *p2pModel) dispatched(c *C, mm *msgModel, t *Trace, f *ssa.Function) {
	if t.End != "return" {
		return
	}
	s := t.Final
	env := s.frames[0].env
	p, msg := env[f.Params[0]], env[f.Params[1]]
	want := map[string]struct {
		f *types.Var
		v bool
	}{
		"CHOKE": {m.rChoked, true}, "UNCHOKE": {m.rChoked, false},
		"INTERESTED": {m.rInterested, true}, "NOT_INTERESTED": {m.rInterested, false},
	}
	for _, sp := range msgSpecs {
		yes, known := mm.is(s, msg, sp.name)
		if !known || !yes {
			continue
		}
		w, sets := want[sp.name]
		for _, fl := range []*types.Var{m.rChoked, m.rInterested} {
			var last *flagOp
			for _, e := range t.Ev {
				if e.Kind == "atomic" && e.Addr == mkFaddr(p, fl) {
					if op, ok := flagOpOf(s, e); ok && (op.perhaps || op.read && sets && w.f == fl && op.set && op.val == w.v) {
						o := op
						last = &o
					}
				}
			}
			if sets && w.f == fl {
				c.ob("dispatch", sp.name+" sets "+fl.Name(), last != nil && last.set && last.val == w.v, c.p.pos(f.Pos()), "a path through "+shortName(f)+" does not")
			} else {
				c.ob("dispatch", sp.name+" leaves "+fl.Name(), last == nil || !last.perhaps, c.p.pos(f.Pos()), "a path through "+shortName(f)+" changes it")
			}
		}
	}
}

// aborted: with the choke, all requests in flight are told and forgotten.
func (m *p2pModel) aborted(c *C, mm *msgModel, t *Trace, evs []*Event) {
	for i, e := range evs {
		if e.Kind != "atomic" || e.Field != m.rChoked || isFresh(e.Addr.Args[0]) {
			continue
		}
		op, _ := flagOpOf(t.Final, e)
		if !op.perhaps || op.set && !op.val {
			continue
		}
		p := e.Addr.Args[0]
		where := fnName(e) + ": " + m.rChoked.Name()
		lock := mkFaddr(p, m.pMu)
		c.ob("abort", where+" under the lock", e.Locks.find(lock) != nil, e.pos(c.p), "requests may be added meanwhile")
		var last *Event // element of the requests that is dealt with
		all := false
		done, gone := true, true
		for _, x := range evs[i+1:] {
			switch {
			case x.Kind == "rangenext" && loadOf(x.Addr, m.reqs) == p:
				last, done, gone = x, false, false
			case x.Kind == "rangeend" && loadOf(x.Addr, m.reqs) == p:
				all = sameHold(evs, e, x, lock)
			case isDeliver(x) && last != nil && sameElem(x.Args[0], last) && isGlobal(x.Args[1], "p2p.ErrChoked"):
				done = true
			case x.Kind == "mapdelete" && loadOf(x.Addr, m.reqs) == p && last != nil && sameKey(x.Args[0], last.Args[0]):
				gone = true
			case x.Kind == "clear" && loadOf(x.Addr, m.reqs) == p:
				gone = true
			}
			if x.Kind == "rangeend" || x.Kind == "rearrive" {
				c.ob("abort", where+" tells each request", done, x.pos(c.p), "a request in flight is not told, or not with "+"ErrChoked")
			}
		}
		if t.End == "return" {
			c.ob("abort", where+" tells all", all, e.pos(c.p), "requests in flight may be left out")
			c.ob("abort", where+" tells each request", done, e.pos(c.p), "a request in flight is not told")
			c.ob("abort", where+" forgets each request", gone, e.pos(c.p), "a request in flight is kept")
		}
	}
}

// sameElem: the value is the element the range is at.
func sameElem(v *Term, next *Event) bool {
	return v == next.Val || v.Op == "mval" && v.Args[0] == next.Addr && sameKey(v.Args[1], next.Args[0])
}

// sameKey: equal keys, perhaps taken apart and put together again.
func sameKey(a, b *Term) bool {
	return a == b || stripVer(a) == stripVer(b)
}
