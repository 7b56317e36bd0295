package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P02", "Every wait of the client ends", func(c *C) {
		c.rule("io", 4, "what is read from or written to a peer has a deadline")
		c.rule("clear", 1, "a deadline is taken away only after a handshake")
		c.rule("dial", 1, "connecting to a peer has a time limit")
		c.rule("http", 2, "requests to trackers have a time limit")
		c.rule("channel", 8, "waiting for others ends when the context does, after some time, or at once")
		c.rule("stop", 3, "loops that wait end with their context")
		c.rule("group", 1, "goroutines that are waited for report back on every path")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		m.httpLimits()
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			from := " from " + shortName(f)
			o := m.opts(mm, f, p2pStops...)
			o.Keep = func(s *State, e *Event) bool {
				return m.keep(s, e) || isDeadline(e) || isGroupOp(e) != "" || e.Kind == "call" && (e.Name == "(context.Context).Err" || strings.HasSuffix(e.Name, ").Accept"))
			}
			c.walk(f, o, func(s *State, e *Event) {
				switch {
				case e.Kind == "call" && isDeadline(e):
					conn := m.connOf(e.Args[0])
					if d := deadline(e); d == 0 {
						n, others := 0, 0
						for _, x := range threadEvents(before(s, e)) {
							if k, isIO := m.ioOn(s, x); isIO && k == conn {
								n++
								if !m.handshakeIO(s, x) {
									others++
								}
							}
						}
						ok := n > 0 && others == 0
						c.ob("clear", fnName(e)+from, ok, e.pos(c.p), "the connection has no deadline any more")
					} else {
						c.ob("io", fnName(e)+": "+shortCall(e)+from, d > 0 && d <= 600, e.pos(c.p), "the deadline "+trunc(e.Args[1].String(), 80)+" is not within ten minutes from now")
					}
				case e.Kind == "call" && e.Name != "":
					if conn, ok := m.ioOn(s, e); ok {
						evs := threadEvents(before(s, e))
						rd, wr := m.ioDirs(e)
						if rd {
							c.ob("io", fnName(e)+": "+shortCall(e)+from, m.limited(evs, conn, "Read"), e.pos(c.p), "reading from the peer may wait forever")
						}
						if wr {
							c.ob("io", fnName(e)+": "+shortCall(e)+from, m.limited(evs, conn, "Write"), e.pos(c.p), "writing to the peer may wait forever")
						}
					}
					m.limitedCall(s, e, from)
				case e.Kind == "select" && e.OK:
					ok := false
					for _, ch := range e.Args {
						if endsItself(ch) {
							ok = true
						}
					}
					c.ob("channel", fnName(e)+": select"+from, ok, e.pos(c.p), "no case of the select is sure to happen")
				case e.Kind == "send" || e.Kind == "recv":
					c.ob("channel", fnName(e)+": "+e.Kind+from, m.chanEnds(s, e), e.pos(c.p), "waits for "+trunc(e.Addr.String(), 80)+" forever")
				case e.Kind == "rearrive":
					m.loopStops(s, e, from)
				}
			}, func(t *Trace) {
				m.reportsBack(t, from)
			})
		}
	})
}

func isDeadline(e *Event) bool {
	return e.Kind == "call" && strings.HasPrefix(e.Name, "(") && strings.HasSuffix(e.Name, "Deadline") && strings.Contains(e.Name, ").Set") && strings.HasPrefix(strings.TrimPrefix(e.Name, "(*"), "net.") || e.Kind == "call" && strings.HasPrefix(e.Name, "(net.Conn).Set")
}

// deadline is how many seconds from now the deadline is, 0 for none, and
// negative if that is not known.
func deadline(e *Event) float64 {
	t := e.Args[len(e.Args)-1]
	if t.Op == "zero" {
		return 0
	}
	if t.Op == "struct" {
		none := true
		for _, a := range t.Args {
			if n, ok := a.isIntConst(); a.Op != "nil" && !(ok && n == 0) {
				none = false
			}
		}
		if none {
			return 0
		}
	}
	if isCall(t, "(time.Time).Add") && callName(t.Args[0]) == "time.Now" {
		if n, ok := t.Args[1].isIntConst(); ok && n > 0 {
			return float64(n) / 1e9
		}
	}
	return -1
}

// connOf identifies a connection, whatever it is wrapped in.
func (m *p2pModel) connOf(t *Term) *Term {
	t = unconv(t)
	if p := loadOf(t, m.conn); p != nil {
		return p
	}
	if strings.HasPrefix(callName(t), "bufio.New") && len(t.Args) > 0 {
		return m.connOf(t.Args[0])
	}
	return t
}

func (m *p2pModel) isConn(t *Term) bool {
	if t == nil || t.T == nil {
		return false
	}
	u := unconv(t)
	return loadOf(u, m.conn) != nil || m.isTCP(u) || strings.HasPrefix(callName(u), "bufio.New") && len(u.Args) > 0 && m.isConn(u.Args[0])
}

// ioOn: the call reads from or writes to the connection.
func (m *p2pModel) ioOn(s *State, e *Event) (conn *Term, ok bool) {
	if e.Kind != "call" || isDeadline(e) {
		return nil, false
	}
	for _, suffix := range []string{".RemoteAddr", ".LocalAddr", ".Close", ".SetNoDelay", ".SetKeepAlive", ".SetKeepAlivePeriod", ".SetLinger", ".SetKeepAliveConfig"} {
		if strings.HasSuffix(e.Name, ")"+suffix) {
			return nil, false
		}
	}
	if strings.HasPrefix(e.Name, "bufio.New") || strings.HasPrefix(e.Name, "log/slog.") || strings.HasPrefix(e.Name, "fmt.Sprint") {
		return nil, false
	}
	for _, a := range e.Args {
		if m.isConn(a) {
			return m.connOf(a), true
		}
	}
	return nil, false
}

// ioDirs: whether the call reads and writes.
func (m *p2pModel) ioDirs(e *Event) (rd, wr bool) {
	n := e.Name[strings.LastIndex(e.Name, ".")+1:]
	rd = strings.HasPrefix(n, "Read") || strings.HasPrefix(n, "Decode")
	wr = strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Encode")
	if !rd && !wr {
		return true, true
	}
	return
}

func (m *p2pModel) handshakeIO(s *State, e *Event) bool {
	if e.Name == peerPkg+".ReadHandshake" {
		return true
	}
	_, msg := m.sends(s, e)
	return isHandshake(msg)
}

// threadEvents are the events of the current goroutine.
func threadEvents(evs []*Event) []*Event {
	for i := len(evs) - 1; i >= 0; i-- {
		if evs[i].Kind == "thread" {
			return evs[i+1:]
		}
	}
	return evs
}

// limited: the last deadline for this direction was set, not taken away.
func (m *p2pModel) limited(evs []*Event, conn *Term, dir string) bool {
	for i := len(evs) - 1; i >= 0; i-- {
		e := evs[i]
		if isDeadline(e) && m.connOf(e.Args[0]) == conn {
			if n := e.Name; strings.HasSuffix(n, ".SetDeadline") || strings.HasSuffix(n, ".Set"+dir+"Deadline") {
				return deadline(e) > 0
			}
		}
	}
	return false
}

// limitedCall: calls that connect somewhere.
func (m *p2pModel) limitedCall(s *State, e *Event, from string) {
	c := m.c
	name := e.Name[strings.LastIndex(e.Name, ".")+1:]
	switch {
	case strings.HasPrefix(e.Name, "net.Dial") || strings.HasPrefix(e.Name, "(*net.Dialer).Dial"):
		ok := false
		for _, a := range e.Args {
			if n, isInt := a.isIntConst(); isInt && n > 0 && e.Name == "net.DialTimeout" {
				ok = true
			}
			if hasTimeout(a) {
				ok = true
			}
			if p, isPtr := a.T.Underlying().(*types.Pointer); isPtr && strings.HasSuffix(p.Elem().String(), "net.Dialer") {
				if fv := fieldNamed(p.Elem(), "Timeout"); fv != nil {
					if n, isInt := fieldLoad(s, a, fv).isIntConst(); isInt && n > 0 {
						ok = true
					}
				}
			}
		}
		c.ob("dial", fnName(e)+from, ok, e.pos(c.p), "connecting may take forever")
	case strings.HasPrefix(e.Name, "net/http.") && (name == "Get" || name == "Post" || name == "PostForm" || name == "Head"):
		c.ob("http", fnName(e)+": "+shortCall(e), false, e.pos(c.p), "the default client has no time limit")
	case strings.HasPrefix(e.Name, "(*net/http.Client).") && (name == "Get" || name == "Post" || name == "PostForm" || name == "Head" || name == "Do"):
		ok := hasTimeoutRequest(e) || m.clientLimited(s, e.Args[0])
		c.ob("http", fnName(e)+": "+shortCall(e)+from, ok, e.pos(c.p), "the client has no time limit")
	case strings.Contains(e.Name, ").Wait") && strings.Contains(e.Name, "storage."):
		ok := len(e.Args) > 1 && !neverEnds(e.Args[1])
		c.ob("channel", fnName(e)+": "+shortCall(e)+from, ok, e.pos(c.p), "waits for the piece forever")
	}
}

func hasTimeoutRequest(e *Event) bool {
	for _, a := range e.Args {
		if strings.HasPrefix(callName(a), "net/http.NewRequestWithContext") && a.any(hasTimeout) {
			return true
		}
	}
	return false
}

// hasTimeout: a context with a time limit.
func hasTimeout(t *Term) bool {
	n := callName(t)
	return n == "context.WithTimeout" || n == "context.WithDeadline"
}

// neverEnds: a context that is never cancelled.
func neverEnds(t *Term) bool {
	n := callName(unconv(t))
	return n == "context.Background" || n == "context.TODO" || n == "context.WithoutCancel"
}

func fieldNamed(t types.Type, name string) *types.Var {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i)
		}
	}
	return nil
}

// endsItself: something is received from the channel sooner or later.
func endsItself(ch *Term) bool {
	if ch == nil {
		return false
	}
	u := unconv(ch)
	switch n := callName(u); {
	case n == "(context.Context).Done":
		return len(u.Args) == 0 || !neverEnds(u.Args[0])
	case n == "time.After" || n == "time.Tick":
		return true
	}
	// timers and tickers
	if u.Op == "init" && u.Args[0].Op == "faddr" {
		if v, ok := u.Args[0].Obj.(*types.Var); ok && v.Name() == "C" && v.Pkg() != nil && v.Pkg().Path() == "time" {
			return true
		}
	}
	return false
}

// chanEnds: the operation on a channel does not wait, or not forever.
func (m *p2pModel) chanEnds(s *State, e *Event) bool {
	if e.Kind == "recv" && endsItself(e.Addr) {
		return true
	}
	if e.Kind == "send" {
		return false
	}
	n := 0
	for _, x := range before(s, e) {
		switch {
		case x.Addr != e.Addr:
		case x.Name == "send" || x.Kind == "send":
			n++ // what was sent is received again
		case x.Name == "recv" || x.Kind == "recv":
			if x.Field != nil && x.Field.Pkg() != nil && strings.HasSuffix(x.Field.Pkg().Path(), "/future") {
				return true // closed
			}
			n--
		}
	}
	return n > 0
}

// loopStops: a loop without an end of its own looks at its context whenever it
// waits.
func (m *p2pModel) loopStops(s *State, e *Event, from string) {
	evs := before(s, e)
	for i, x := range evs {
		if x == e.Entry {
			evs = evs[i+1:]
			break
		}
	}
	waits, polls := false, false
	var at *Event
	for _, x := range evs {
		switch {
		case x.Kind == "select":
			done := false
			for i, ch := range x.Args {
				if callName(unconv(ch)) == "(context.Context).Done" {
					done = true
					if i == x.Case {
						done = false
						waits, at = true, x
						break
					}
				}
			}
			if done {
				polls = true
			}
			if x.OK {
				waits, at = true, x
			}
		case x.Kind == "send" || x.Kind == "recv":
			waits, at = true, x
		case x.Kind == "call" && x.Name == "(context.Context).Err":
			if v, known := s.query(mkEq(x.Res[0], mkNil())); known && v {
				polls = true
			}
		case x.Kind == "call":
			if _, io := m.ioOn(s, x); io || strings.HasSuffix(x.Name, ".Accept") {
				waits, at = true, x
			}
		}
	}
	if !waits || ownEnd(e.In.Block()) {
		return
	}
	m.c.ob("stop", fnName(at)+from, polls, at.pos(m.c.p), "the loop goes on waiting though its context has ended")
}

// ownEnd: the loop counts, or walks through a collection.
func ownEnd(b *ssa.BasicBlock) bool {
	in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	switch x := in.Cond.(type) {
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Next)
		return ok
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			return false
		}
		return isInt(x.X.Type())
	}
	return false
}

// ---- time limits of HTTP clients

// httpLimits: every time limit of an HTTP client that is ever set is one.
func (m *p2pModel) httpLimits() {
	c := m.c
	for _, fn := range c.p.fns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !isHTTPClient(fa.X.Type()) || fieldOf(fa).Name() != "Timeout" {
					continue
				}
				c.ob("http", shortName(fn)+": Timeout", positiveConst(st.Val), c.p.pos(st.Pos()), "the time limit may be none")
			}
		}
	}
}

func isHTTPClient(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && p.Elem().String() == "net/http.Client"
}

func positiveConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	n, exact := constant.Int64Val(constant.ToInt(k.Value))
	return exact && n > 0
}

// clientLimited: the client was made with a time limit.
func (m *p2pModel) clientLimited(s *State, cl *Term) bool {
	if p, ok := cl.T.Underlying().(*types.Pointer); ok {
		if fv := fieldNamed(p.Elem(), "Timeout"); fv != nil {
			if n, isInt := fieldLoad(s, cl, fv).isIntConst(); isInt && n > 0 {
				return true
			}
		}
	}
	// a global, set once
	g := cl
	for g.Op == "init" || g.Op == "havoc" {
		g = g.Args[0]
	}
	if g.Op != "global" {
		return false
	}
	gv, _ := g.Obj.(*ssa.Global)
	stores, limited := 0, false
	for _, fn := range m.c.p.fns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(gv) {
					continue
				}
				stores++
				limited = false
				a, ok := st.Val.(*ssa.Alloc)
				if !ok {
					continue
				}
				for _, r := range *a.Referrers() {
					fa, ok := r.(*ssa.FieldAddr)
					if !ok || fieldOf(fa).Name() != "Timeout" {
						continue
					}
					for _, rr := range *fa.Referrers() {
						if x, ok := rr.(*ssa.Store); ok && x.Addr == ssa.Value(fa) && positiveConst(x.Val) {
							limited = true
						}
					}
				}
			}
		}
	}
	return stores == 1 && limited
}

// ---- groups

// isGroupOp: an operation on a WaitGroup.
func isGroupOp(e *Event) string {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*sync.WaitGroup).") {
		return ""
	}
	return e.Name[len("(*sync.WaitGroup)."):]
}

// reportsBack: a goroutine that was counted says when it is done.
func (m *p2pModel) reportsBack(t *Trace, from string) {
	if t.Start == 0 || t.End != "return" && t.End != "panic" {
		return
	}
	var group *Term
	var at *Event
	for i := t.Start - 1; i >= 0; i-- {
		e := t.Ev[i]
		if e.Kind == "spawn" || e.Kind == "thread" {
			if at != nil {
				break
			}
			at = e
			continue
		}
		if isGroupOp(e) == "Add" {
			group = e.Args[0]
			break
		}
	}
	if group == nil {
		return
	}
	n := 0
	for _, e := range t.Ev[t.Start:] {
		if isGroupOp(e) == "Done" && e.Args[0] == group {
			n++
		}
	}
	m.c.ob("group", shortName(t.Ev[t.Start-1].SFn)+from, n == 1, t.Ev[t.Start-1].pos(m.c.p), "the goroutine that is waited for does not always report that it is done")
}

// fns are all functions of the repository, with package initialisers.
func (p *Program) fns() []*ssa.Function {
	out := append([]*ssa.Function{}, p.Funcs...)
	seen := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		seen[fn] = true
	}
	for _, fn := range p.Funcs {
		if fn.Pkg != nil {
			if in := fn.Pkg.Func("init"); in != nil && !seen[in] {
				seen[in] = true
				out = append(out, in)
			}
		}
	}
	return out
}
