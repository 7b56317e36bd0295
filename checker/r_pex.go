package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pexModel: the tracker that this repository contains, and its API.
type pexModel struct {
	c                         *C
	torrents, swarm, info     *types.Var
	tp, updated, last         *types.Var
	req                       map[string]*types.Var
	interval, rpeers, failure *types.Var
	compact, list             *types.Var
	pid, pip, pport           *types.Var
	sha                       *types.Var
	intervals                 map[int64]bool
	torrentIter               *Term
}

const pexPkg = "pex"

// silence is how long a client may be silent and still be listed (1 h).
const silence = 3600 * 1000000000

func (c *C) pexModel() *pexModel {
	m := &pexModel{c: c, req: map[string]*types.Var{}, intervals: map[int64]bool{}}
	isMap := func(t types.Type) bool { _, ok := t.Underlying().(*types.Map); return ok }
	ends := func(x string) func(types.Type) bool {
		return func(t types.Type) bool { return strings.HasSuffix(t.String(), x) }
	}
	fs := []struct {
		to             **types.Var
		pkg, typ, name string
		pred           func(types.Type) bool
	}{
		{&m.torrents, pexPkg, "HTTP", "Torrents", isMap},
		{&m.swarm, pexPkg, "Torrent", "Peers", isMap},
		{&m.info, pexPkg, "Torrent", "Info", ends("metainfo.Info")},
		{&m.tp, pexPkg, "Peer", "tp", ends("tracker.Peer")},
		{&m.updated, pexPkg, "Peer", "UpdatedAt", ends("time.Time")},
		{&m.last, pexPkg, "Peer", "LastEvent", isBasicKind(types.String)},
		{&m.interval, trackerPkg, "Response", "Interval", nil},
		{&m.rpeers, trackerPkg, "Response", "Peers", nil},
		{&m.failure, trackerPkg, "Response", "FailureReason", nil},
		{&m.compact, trackerPkg, "Peers", "Compact", nil},
		{&m.list, trackerPkg, "Peers", "List", nil},
		{&m.pid, trackerPkg, "Peer", "ID", nil},
		{&m.pip, trackerPkg, "Peer", "IP", nil},
		{&m.pport, trackerPkg, "Peer", "Port", nil},
		{&m.sha, "api/metainfo", "Info", "SHA1", nil},
	}
	for _, f := range fs {
		if *f.to = c.field(f.pkg, f.typ, f.name, f.pred); *f.to == nil {
			return nil
		}
	}
	for _, n := range requestFields {
		if m.req[n] = c.field(trackerPkg, "Request", n, nil); m.req[n] == nil {
			return nil
		}
	}
	return m
}

func init() {
	register("T04", "The tracker keeps and lists exactly the clients that announce themselves", func(c *C) {
		c.rule("answered", 1, "every request is answered once: the status first, if any, then one body")
		c.rule("refused", 2, "a request is refused, with the reason, only if it is malformed or names an unknown torrent, and such a request is always refused")
		c.rule("kept", 1, "an announced client is entered under its canonical address, or its entry renewed, with what it announced and the time, while nobody else changes it")
		c.rule("listed", 2, "the answer has an interval, and lists all other clients of the torrent that did not stop and are not silent for long, in the form that was asked for")
		c.rule("forgotten", 2, "clients are forgotten only if they stopped or were silent for more than the interval, and are looked through time and again")
		c.rule("known", 1, "there is an entry for each torrent that the tracker was made for")
		m := c.pexModel()
		if m == nil {
			return
		}
		for _, f := range c.p.entryPoints(pexPkg) {
			if f.Name() == "ServeHTTP" && f.Signature.Recv() != nil {
				m.serve(f)
			}
		}
		for _, f := range c.p.entryPoints(pexPkg) {
			if f.Name() == "NewHTTP" {
				m.made(f)
			}
		}
		c.runAfter()
	})
}

func (m *pexModel) opts(root *ssa.Function) Opts {
	// nothing but decoding changes a request
	fixed := map[*types.Var]bool{}
	for _, f := range m.req {
		fixed[f] = true
	}
	return Opts{OneIter: true, Merge: true, ZeroNew: true, Preserve: fixed,
		Keep: func(s *State, e *Event) bool {
			switch e.Kind {
			case "call", "store", "mapload", "mapstore", "mapdelete", "lock", "unlock", "rangenext", "rangeend", "recv", "select", "spawn", "thread", "clear", "branch":
				return true
			}
			return false
		},
		Opaque: func(fn *ssa.Function) bool {
			return fn != root && pkgOf(fn) != pexPkg && isExportedFn(fn)
		},
		Inert: func(fn *ssa.Function) bool { return pkgOf(fn) == "bencode" && fn.Name() == "Marshal" },
		Harmless: func(fn *ssa.Function) bool {
			return pkgOf(fn) == "bencode" && fn.Name() == "Marshal"
		},
	}
}

// writerOf: what the call does to the response: 'h' writes the status, 'b' the
// body, 'e' both.
func writerOf(e *Event) (what byte, arg *Term) {
	if e.Kind != "call" || len(e.Args) == 0 {
		return
	}
	isW := func(t *Term) bool {
		t = unconv(content1(t))
		return t.Op == "param" && t.T != nil && strings.HasSuffix(t.T.String(), "http.ResponseWriter")
	}
	switch {
	case strings.HasSuffix(e.Name, "ResponseWriter).WriteHeader") && isW(e.Args[0]):
		return 'h', e.Args[1]
	case strings.HasSuffix(e.Name, "ResponseWriter).Write") && isW(e.Args[0]):
		return 'b', e.Args[1]
	case e.Name == "net/http.Error" && isW(e.Args[0]):
		return 'e', e.Args[2]
	case strings.HasSuffix(e.Name, "ResponseWriter).Header"):
		return
	}
	for _, a := range e.Args {
		if isW(a) {
			return 'b', e.Args[len(e.Args)-1]
		}
	}
	return
}

type announce struct {
	s   *State
	evs []*Event
	dec *Event
	get map[string]*Term
	tor *Event // the look-up of the torrent
	ip  *Term  // the parsed address
}

// announcement: what is known of the request.
func (m *pexModel) announcement(s *State, evs []*Event) *announce {
	a := &announce{s: s, evs: evs, get: map[string]*Term{}}
	for _, e := range evs {
		if calls(e, "tracker.Request).Decode") && len(e.Args) == 2 {
			q := e.Args[1]
			if q.any(func(t *Term) bool { return t.Op == "param" }) && strings.HasSuffix(q.String(), ".RawQuery") {
				a.dec = e
			}
		}
	}
	if a.dec == nil {
		return a
	}
	for n, f := range m.req {
		a.get[n] = fieldLoad(s, a.dec.Args[0], f)
	}
	for _, e := range evs {
		if e.Kind == "mapload" && loadOf(e.Addr, m.torrents) != nil && unconv(e.Args[0]) == a.get["InfoHash"] {
			a.tor = e
		}
		if e.Kind == "call" && e.Name == "net.ParseIP" && m.source(a, e.Args[0]) {
			a.ip = e.Res[0]
		}
	}
	return a
}

// source: the address that the client announced, or else that it called from.
func (m *pexModel) source(a *announce, x *Term) bool {
	empty, known := a.s.query(mkEq(a.get["IP"], mkStr("")))
	if !known {
		return false
	}
	if !empty {
		return x == a.get["IP"]
	}
	for _, e := range a.evs {
		if e.Kind == "call" && e.Name == "net.SplitHostPort" && x == e.Res[0] {
			return strings.HasSuffix(e.Args[0].String(), ".RemoteAddr") && isNilNow(a.s, e.Res[2])
		}
	}
	return false
}

func knownNot(s *State, t *Term) bool {
	v, known := s.query(mkEq(t, mkNil()))
	return nonNil(t) || known && !v
}

// bad: the request cannot be accepted.
func (m *pexModel) bad(a *announce) bool {
	s := a.s
	if a.dec == nil {
		return false
	}
	if knownNot(s, a.dec.Res[0]) {
		return true
	}
	if a.tor != nil {
		if v, known := boolOf(s, a.tor.Res[0]); known && !v {
			return true
		}
		if isNilNow(s, a.tor.Val) {
			return true
		}
	}
	for _, e := range a.evs {
		if e.Kind != "call" {
			continue
		}
		if e.Name == "net.SplitHostPort" && strings.HasSuffix(e.Args[0].String(), ".RemoteAddr") && knownNot(s, e.Res[2]) {
			if v, known := s.query(mkEq(a.get["IP"], mkStr(""))); known && v {
				return true
			}
		}
		if e.Name == "net.ParseIP" && e.Res[0] == a.ip && isNilNow(s, a.ip) {
			return true
		}
	}
	p := polyOf(a.get["Port"])
	return entails(s.facts, p) || entails(s.facts, polySub(polyConst(65536), p))
}

// good: the request can be accepted, or else why that is not known.
func (m *pexModel) good(a *announce) string {
	s := a.s
	if a.dec == nil || !isNilNow(s, a.dec.Res[0]) {
		return "the request may not be readable"
	}
	if a.tor == nil {
		return "the torrent is not looked up"
	}
	if v, known := boolOf(s, a.tor.Res[0]); (!known || !v) && !knownNot(s, a.tor.Val) {
		return "the torrent may be unknown"
	}
	if a.ip == nil || !knownNot(s, a.ip) {
		return "the address may not be that of the client, or none"
	}
	p := polyOf(a.get["Port"])
	if !entails(s.facts, polySub(polyConst(1), p)) || !entails(s.facts, polySub(p, polyConst(65535))) {
		return "the port may not be one"
	}
	return ""
}

type answer struct {
	marshal           *Event
	interval, failure *Term
	peers             *Term
	compact, list     *Term
	evs               []*Event
	s                 *State
}

func (m *pexModel) serve(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	where := c.p.pos(f.Pos())
	answers := map[*Event]*answer{}
	grown := map[*Term]*Event{} // lists of clients that loops make
	c.walk(f, m.opts(f), func(s *State, e *Event) {
		switch {
		case calls(e, "bencode.Marshal"):
			r := unconv(content1(e.Args[0]))
			x := *s
			a := &answer{marshal: e, s: &x, evs: before(s, e)}
			a.interval, a.failure, a.peers = fieldLoad(s, r, m.interval), fieldLoad(s, r, m.failure), fieldLoad(s, r, m.rpeers)
			if isLocalRoot(a.peers) {
				a.compact, a.list = fieldLoad(s, a.peers, m.compact), fieldLoad(s, a.peers, m.list)
			}
			if v, ok := a.interval.isIntConst(); ok && v > 0 && v*1000000000 <= silence {
				m.intervals[v] = true
			}
			answers[e] = a
		case e.Kind == "rearrive":
			m.listing(s, e, from, grown)
		case (e.Kind == "mapdelete" || e.Kind == "clear") && loadOf(e.Addr, m.swarm) != nil:
			x, evs := *s, before(s, e)
			c.after(func() {
				why := m.outdated(&x, evs, e)
				c.ob("forgotten", fnName(e)+": delete"+from, why == "", e.pos(c.p), why)
			})
		}
	}, func(t *Trace) {
		if t.End != "return" || t.Final.thread != 0 {
			return
		}
		s := t.Final
		status, body, n := int64(0), (*Term)(nil), 0
		why := ""
		for _, e := range t.Ev {
			what, arg := writerOf(e)
			if what == 0 {
				continue
			}
			if (what == 'h' || what == 'e') && (status != 0 || n > 0) {
				why = "the status is written twice, or after the body"
			}
			switch what {
			case 'h', 'e':
				status = -1
				if v, ok := arg.isIntConst(); ok {
					status = v
				}
				if what == 'e' {
					n++
				}
			case 'b':
				n++
				body = arg
			}
		}
		if why == "" && status == 0 && n == 0 {
			why = "a request is not answered"
		}
		if n > 1 {
			why = "a request is answered twice"
		}
		if status < 0 || status > 0 && status < 200 {
			why = "the status is not known"
		}
		c.ob("answered", "end"+from, why == "", where, why)
		if why != "" {
			return
		}
		var ans *answer
		for _, e := range t.Ev {
			if a := answers[e]; a != nil && (body == nil || stripConv(body) == e.Res[0]) {
				ans = a
			}
		}
		a := m.announcement(s, t.Ev)
		if ans != nil && status >= 500 && knownNot(s, ans.marshal.Res[1]) {
			return // it could not be encoded
		}
		if status >= 400 || ans != nil && body != nil && !isStr(ans.failure, "") {
			why := ""
			if !m.bad(a) {
				why = "a good request may be refused"
			} else if body != nil && (ans == nil || !isNilNow(s, ans.marshal.Res[1]) || isStr(ans.failure, "")) {
				why = "the reason is not given"
			}
			c.ob("refused", "end"+from, why == "", where, why)
			return
		}
		if ans == nil || body == nil || !isNilNow(s, ans.marshal.Res[1]) {
			c.ob("listed", "answer"+from, false, where, "the answer has no body, or another one")
			return
		}
		why = m.good(a)
		c.ob("refused", "accepted"+from, why == "", where, why)
		if why != "" {
			return
		}
		why, key := m.entry(a)
		c.ob("kept", "entry"+from, why == "", where, why)
		c.after(func() {
			why := m.complete(a, ans, key, grown)
			c.ob("listed", "answer"+from, why == "", where, why)
		})
	})
}

func stripConv(t *Term) *Term {
	for (t.Op == "conv" || t.Op == "bytes" || t.Op == "string") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// keyOf: the text identifies the address and the port.
func keyOf(key *Term, ip, port func(t *Term) bool) bool {
	if !key.any(ip) || !key.any(port) {
		return false
	}
	var pure func(t *Term) bool
	pure = func(t *Term) bool {
		if t == nil || ip(t) || port(t) {
			return true
		}
		if t.Op == "call" {
			return false
		}
		for _, a := range t.Args {
			if !pure(a) {
				return false
			}
		}
		return true
	}
	if isCall(key, "fmt.Sprintf") {
		f, _ := key.Args[0].isStrConst()
		if unseparated.MatchString(f) {
			return false
		}
	}
	return pure(key) && !(key.Op == "concat" && len(concatParts(key)) < 3)
}

var unseparated = regexp.MustCompile(`%[a-z]%[a-z]`)

// entered: the client has an entry, which says what it announced.
func (m *pexModel) entry(a *announce) (why string, key *Term) {
	tor := a.tor.Val
	var at *Event
	var p *Term
	for _, e := range a.evs {
		if (e.Kind == "mapload" || e.Kind == "mapstore") && loadOf(e.Addr, m.swarm) == tor {
			if at == nil {
				at = e
			}
			if key != nil && e.Args[0] != key {
				return "more than one entry is changed", key
			}
			key, p = e.Args[0], e.Val
			if e.Kind == "mapload" {
				if v, known := boolOf(a.s, e.Res[0]); known && !v {
					p = nil
				}
			}
		}
	}
	if p == nil {
		return "the client is not entered", key
	}
	canon := func(t *Term) bool { return isCall(t, "(net.IP).String") && len(t.Args) == 1 && t.Args[0] == a.ip }
	port := func(t *Term) bool { return t == a.get["Port"] }
	if !keyOf(key, canon, port) {
		return "the entry is not that of the address and the port", key
	}
	var last *Event
	val := map[*types.Var]*Term{}
	of := map[*Term]map[*types.Var]*Term{}
	for _, e := range a.evs {
		if e.Kind != "store" || e.Addr.Op != "faddr" {
			continue
		}
		o := e.Addr.Args[0]
		if of[o] == nil {
			of[o] = map[*types.Var]*Term{}
		}
		of[o][e.Field] = e.Val
		if o == p {
			val[e.Field], last = e.Val, e
		}
	}
	now := false
	for _, e := range a.evs {
		now = now || e.Kind == "call" && e.Name == "time.Now" && e.Res[0] == val[m.updated]
	}
	if !now {
		return "the time of the announcement is not kept", key
	}
	if val[m.last] != a.get["Event"] {
		return "what was announced last is not kept", key
	}
	tp := val[m.tp]
	if tp == nil || !isLocalRoot(tp) {
		return "the id, address and port of the client are not kept", key
	}
	x := of[tp]
	if x[m.pip] == nil || !canon(unconv(x[m.pip])) || x[m.pport] == nil || !port(unconv(x[m.pport])) || x[m.pid] == nil || !strOf(x[m.pid], a.get["PeerID"]) {
		return "the client is kept with another id, address or port", key
	}
	if lock := anyLock(last); lock == nil || !sameHold(a.evs, at, last, lock) {
		return "others may change the entry meanwhile", key
	}
	return "", key
}

func anyLock(e *Event) *Term {
	if e == nil || e.Locks == nil {
		return nil
	}
	return e.Locks.Addr
}

// strOf: the text is that of the bytes of the array.
func strOf(t, arr *Term) bool {
	for {
		switch {
		case t == arr:
			return true
		case (t.Op == "string" || t.Op == "conv" || t.Op == "arr" || t.Op == "bytes") && len(t.Args) == 1:
			t = t.Args[0]
		case t.Op == "slice" && t.Args[1] == nil && t.Args[2] == nil:
			t = t.Args[0]
		default:
			return false
		}
	}
}

// age: bounds of the time since the client announced itself.
func (m *pexModel) age(s *State, fs *Facts, evs []*Event, p *Term, more, atMost int64) (old, young bool) {
	isU := func(t *Term) bool { return loadOf(t, m.updated) == p }
	x := *s
	x.facts = fs
	dur := func(t *Term) (int64, bool) { return unconv(t).isIntConst() }
	added := func(t *Term, base func(t *Term) bool) (int64, bool) {
		for _, e := range evs {
			if e.Kind == "call" && e.Name == "(time.Time).Add" && e.Res[0] == t && base(e.Args[0]) {
				return dur(e.Args[1])
			}
		}
		if isCall(t, "(time.Time).Add") && len(t.Args) == 2 && base(t.Args[0]) {
			return dur(t.Args[1])
		}
		return 0, false
	}
	isNow := func(t *Term) bool {
		for _, e := range evs {
			if e.Kind == "call" && e.Name == "time.Now" && e.Res[0] == t {
				return true
			}
		}
		return false
	}
	for _, e := range evs {
		if e.Kind != "call" || len(e.Res) != 1 {
			continue
		}
		switch {
		case e.Name == "time.Since" && isU(e.Args[0]), e.Name == "(time.Time).Sub" && isNow(e.Args[0]) && isU(e.Args[1]):
			r := polyOf(e.Res[0])
			old = old || entails(fs, polySub(polyConst(more), r))
			young = young || entails(fs, polySub(r, polyConst(atMost)))
		case (e.Name == "(time.Time).Before" || e.Name == "(time.Time).After") && len(e.Args) == 2:
			v, known := boolOf(&x, e.Res[0])
			if !known {
				continue
			}
			a, b := e.Args[0], e.Args[1]
			if e.Name == "(time.Time).After" {
				a, b = b, a
			}
			// a before b: the client, and now
			k, ok := int64(0), false
			if isU(a) {
				k, ok = added(b, isNow)
				k = -k
			} else if isNow(b) {
				k, ok = added(a, isU)
			}
			if ok {
				old = old || v && k >= more
				young = young || !v && k <= atMost
			}
			// now before the time when the client is due
			if isNow(a) {
				if k, ok := added(b, isU); ok {
					old = old || !v && k >= more
					young = young || v && k <= atMost
				}
			} else if isU(b) {
				if k, ok := added(a, isNow); ok {
					old = old || !v && -k >= more
					young = young || v && -k <= atMost
				}
			}
		}
	}
	return
}

// due is how long a client may be silent at least: a quarter longer than it was
// told to wait.
func (m *pexModel) due() int64 {
	var max int64
	for v := range m.intervals {
		if v > max {
			max = v
		}
	}
	return max * 1250000000
}

func (m *pexModel) stopped(s *State, p *Term) (v, known bool) {
	for n := s.facts; n != nil; n = n.prev {
		if n.t.Op != "eq" {
			continue
		}
		for k := range n.t.Args {
			if isStr(n.t.Args[k], "stopped") && loadOf(n.t.Args[1-k], m.last) == p {
				return n.val, true
			}
		}
	}
	return false, false
}

// listing: what the loop does with each client of the torrent.
func (m *pexModel) listing(s *State, e *Event, from string, grown map[*Term]*Event) {
	c := m.c
	evs := before(s, e)
	var next *Event
	for _, x := range since(evs, e.Entry) {
		if x.Kind == "rangenext" && x.In.Block() == e.In.Block() && loadOf(m.cloned(evs, x.Addr), m.swarm) != nil {
			next = x
		}
	}
	if next == nil {
		return
	}
	p := next.Val
	st := *s
	st.facts = e.Facts
	a := m.announcement(&st, evs)
	added, tracked, bad := 0, false, false
	see := func(n, g *Term) {
		if g == nil || g.T == nil || !strings.HasSuffix(g.T.String(), "tracker.Peer") || !strings.HasPrefix(g.T.String(), "[]") {
			return
		}
		tracked = true
		grown[g] = next
		if n == g {
			return
		}
		if x := grows(n, g); x == nil || loadOf(x, m.tp) != p {
			bad = true
		}
		added++
	}
	for ph, g := range e.Gen {
		see(e.Next[ph], g)
	}
	for g, n := range e.Mem {
		see(n, g)
	}
	if !tracked {
		return // another loop
	}
	c.after(func() {
		why := ""
		stop, stopKnown := m.stopped(&st, p)
		old, young := m.age(&st, e.Facts, evs, p, m.due(), silence)
		// the client itself
		self, selfKnown := false, false
		comp, compKnown := boolOf(&st, a.get["Compact"])
		v4, v4Known := false, false
		tp := func(t *Term, f *types.Var) bool { o := loadOf(t, f); return o != nil && loadOf(o, m.tp) == p }
		for n := e.Facts; n != nil; n = n.prev {
			if n.t.Op != "eq" || len(n.t.Args) != 2 {
				continue
			}
			for k := range n.t.Args {
				x, y := n.t.Args[k], n.t.Args[1-k]
				mine := keyOf(y, func(t *Term) bool {
					return isCall(t, "(net.IP).String") && len(t.Args) == 1 && t.Args[0] == a.ip
				}, func(t *Term) bool { return t == a.get["Port"] })
				if mine && (x == next.Args[0] || keyOf(x, func(t *Term) bool { return tp(t, m.pip) }, func(t *Term) bool { return tp(t, m.pport) })) {
					self, selfKnown = n.val, true
				}
				if x == p && m.entryOf(a, y) {
					self, selfKnown = n.val, true
				}
				if y.Op == "nil" && isCall(x, "(net.IP).To4") && isCall(x.Args[0], "net.ParseIP") && tp(x.Args[0].Args[0], m.pip) {
					v4, v4Known = !n.val, true
				}
			}
		}
		wrong := comp && v4Known && !v4
		switch {
		case bad || added > 1:
			why = "something else is listed"
		case added == 1:
			switch {
			case !stopKnown || stop:
				why = "a client that stopped may be listed"
			case !young:
				why = "a client that is silent for long may be listed"
			case !selfKnown || self:
				why = "the client may be listed to itself"
			case (!compKnown || comp) && (!v4Known || !v4):
				why = "an address that does not fit the compact form may be listed"
			}
		case !(stopKnown && stop || old || selfKnown && self || compKnown && wrong):
			why = "a client that announced itself may be left out"
		}
		c.ob("listed", fnName(e)+": each"+from, why == "", e.pos(c.p), why)
	})
}

// cloned: what the map is a copy of.
func (m *pexModel) cloned(evs []*Event, x *Term) *Term {
	for _, e := range evs {
		if e.Kind == "call" && e.Name == "maps.Clone" && e.Res[0] == x {
			return e.Args[0]
		}
	}
	return x
}

func (m *pexModel) entryOf(a *announce, x *Term) bool {
	why, _ := m.entry(a)
	if why != "" || a.tor == nil {
		return false
	}
	var p *Term
	for _, e := range a.evs {
		if (e.Kind == "mapload" || e.Kind == "mapstore") && loadOf(e.Addr, m.swarm) == a.tor.Val {
			p = e.Val
		}
	}
	return p == x
}

// complete: the answer that is sent.
func (m *pexModel) complete(a *announce, ans *answer, key *Term, grown map[*Term]*Event) string {
	if v, ok := ans.interval.isIntConst(); !ok || v <= 0 || v*1000000000 > silence {
		return "the interval is not known, negative or too long"
	}
	if !isStr(ans.failure, "") {
		return "the answer says that the request failed"
	}
	if ans.list == nil {
		return "no clients are listed"
	}
	if v, known := boolOf(a.s, a.get["Compact"]); ans.compact != a.get["Compact"] {
		w, k := ans.compact.isBoolConst()
		if !k || !known || v != w {
			return "the answer may not have the form that was asked for"
		}
	}
	l := ans.list
	if l.Op == "concat" && grown[l.Args[0]] != nil {
		l = l.Args[0]
	}
	next := grown[l]
	if next == nil || !mkLenZero(l.Args[0]) {
		return "the list is not made from the clients of the torrent: " + trunc(l.String(), 60)
	}
	if loadOf(m.cloned(ans.evs, next.Addr), m.swarm) != a.tor.Val {
		return "the clients of another torrent are listed"
	}
	var first, end *Event
	for _, e := range ans.evs {
		if e.Kind == "rangeend" && e.Addr == next.Addr && e.In.Block() == next.In.Block() {
			end = e
		}
		if (e.Kind == "mapload" || e.Kind == "mapstore") && loadOf(e.Addr, m.swarm) == a.tor.Val {
			first = e
		}
	}
	if end == nil {
		return "not all clients may be looked at"
	}
	if lock := anyLock(first); lock == nil || next.Addr == m.cloned(ans.evs, next.Addr) && next.Locks.find(lock) == nil {
		return "others may change the clients meanwhile"
	}
	return ""
}

// outdated: the client that is forgotten stopped, or was silent.
func (m *pexModel) outdated(s *State, evs []*Event, e *Event) string {
	if e.Kind == "clear" {
		return "all clients are forgotten"
	}
	x := *s
	var v *Term
	var at *Event
	for _, y := range evs {
		if (y.Kind == "rangenext" || y.Kind == "mapload") && y.Args[0] == e.Args[0] && m.cloned(evs, y.Addr) == e.Addr {
			v, at = y.Val, y
		}
	}
	if v == nil {
		return "the client that is forgotten was not looked at"
	}
	lock := anyLock(e)
	if lock == nil || !sameHold(append(evs[:len(evs):len(evs)], e), at, e, lock) {
		return "others may change the client meanwhile"
	}
	stop, known := m.stopped(&x, v)
	old, _ := m.age(&x, s.facts, evs, v, m.due(), silence)
	if known && stop || old {
		return ""
	}
	return "a client may be forgotten although it announced itself in time"
}

// made: the torrents, and what is done from time to time.
func (m *pexModel) made(f *ssa.Function) {
	c := m.c
	from := " from " + shortName(f)
	var ticks, swept []*Event
	l := newLists()
	c.walk(f, m.opts(f), func(s *State, e *Event) {
		l.on(s, e)
		switch {
		case (e.Kind == "mapdelete" || e.Kind == "clear") && loadOf(e.Addr, m.swarm) != nil:
			x, evs := *s, before(s, e)
			c.after(func() {
				why := m.outdated(&x, evs, e)
				c.ob("forgotten", fnName(e)+": delete"+from, why == "", e.pos(c.p), why)
			})
		case e.Kind == "rearrive" && s.thread == 0:
			m.entries(s, e, from)
		case e.Kind == "rearrive":
			evs := ownOf(since(before(s, e), e.Entry), e)
			all := before(s, e)
			var wait, next, end *Event
			for _, x := range evs {
				switch {
				case x.Kind == "recv" && isTick(x):
					wait = x
				case x.Kind == "rangenext" && x.In.Block() == e.In.Block():
					next = x
				case x.Kind == "rangeend" && m.torrentMap(s, x.Addr):
					end = x
				}
			}
			switch {
			case wait != nil:
				ticks = append(ticks, e)
				c.ob("forgotten", fnName(e)+": each"+from, end != nil, e.pos(c.p), "not all torrents are looked through")
			case next != nil && loadOf(m.cloned(all, next.Addr), m.swarm) != nil:
				x, fs := *s, e.Facts
				x.facts = fs
				gone := false
				for _, y := range evs {
					gone = gone || y.Kind == "mapdelete" && y.Args[0] == next.Args[0] && loadOf(y.Addr, m.swarm) != nil
				}
				c.after(func() {
					stop, known := m.stopped(&x, next.Val)
					_, young := m.age(&x, fs, all, next.Val, m.due(), silence)
					c.ob("forgotten", fnName(e)+": client"+from, gone || known && !stop && young, e.pos(c.p), "a client that stopped, or is silent for long, may be kept")
				})
			case next != nil && m.torrentMap(s, next.Addr):
				ok := false
				for _, y := range evs {
					ok = ok || y.Kind == "rangeend" && loadOf(m.cloned(all, y.Addr), m.swarm) == next.Val
				}
				swept = append(swept, e)
				c.ob("forgotten", fnName(e)+": torrent"+from, ok, e.pos(c.p), "not all clients of a torrent are looked through")
			}
		}
	}, func(t *Trace) {
		if t.Final.thread == 0 && t.End == "return" {
			spawned := false
			for _, e := range t.Ev {
				spawned = spawned || e.Kind == "spawn"
			}
			c.ob("forgotten", "start"+from, spawned, c.p.pos(f.Pos()), "nothing looks through the clients")
			m.all(t, f, from)
		}
		if t.Final.thread > 0 && (t.End == "return" || t.End == "panic") {
			c.ob("forgotten", "on"+from, false, c.p.pos(f.Pos()), "the clients are not looked through any more after a while")
		}
	})
	c.ob("forgotten", "time and again"+from, len(ticks) > 0 && len(swept) > 0, c.p.pos(f.Pos()), "the clients are not looked through time and again")
}

func isTick(e *Event) bool {
	return strings.Contains(e.Addr.String(), "time.NewTicker") || strings.Contains(e.Addr.String(), "time.Tick") || strings.Contains(e.Addr.String(), "time.After")
}

func (m *pexModel) torrentMap(s *State, x *Term) bool {
	mt, ok := x.T.Underlying().(*types.Map)
	return ok && strings.HasSuffix(mt.Elem().String(), "pex.Torrent")
}

// entries: each torrent is entered.
func (m *pexModel) entries(s *State, e *Event, from string) {
	c := m.c
	evs := ownOf(since(before(s, e), e.Entry), e)
	n := 0
	for _, x := range evs {
		if x.Kind == "mapstore" && m.torrentMap(s, x.Addr) {
			n++
		}
	}
	c.after(func() {
		if e.Iter != nil && e.Iter == m.torrentIter {
			c.ob("known", fnName(e)+": each"+from, n == 1, e.pos(c.p), "a torrent may be left out")
		}
	})
	for _, x := range evs {
		if x.Kind != "mapstore" || !m.torrentMap(s, x.Addr) {
			continue
		}

		why := ""
		var info, sw *Term
		for _, y := range evs {
			if y.Kind == "store" && y.Addr.Op == "faddr" && y.Addr.Args[0] == x.Val {
				switch y.Field {
				case m.info:
					info = y.Val
				case m.swarm:
					sw = y.Val
				}
			}
		}
		li, k := elemAt(info)
		switch {
		case info == nil || li == nil || li.Op != "param" || e.Iter == nil || !isPoly(k, polyOf(e.Iter)):
			why = "the entry is not that of the torrent"
		case sw == nil || sw.Op != "mkmap":
			why = "the torrent has no room for clients"
		case loadOf(unconv(x.Args[0]), m.sha) != info:
			why = "the torrent is entered under another hash"
		}
		c.ob("known", fnName(x)+from, why == "", x.pos(c.p), why)
		m.torrentIter = e.Iter
		return
	}
}

// all: no torrent is left out.
func (m *pexModel) all(t *Trace, f *ssa.Function, from string) {
	c := m.c
	x := *t.Final
	ret := t.Ret
	c.after(func() {
		ok := false
		if it := m.torrentIter; it != nil {
			for n := x.facts; n != nil; n = n.prev {
				for a := range atomsOf(n.t) {
					ok = ok || a.Op == "len" && a.Args[0].Op == "param" && entails(x.facts, polySub(polySub(polyOf(a), polyOf(it)), polyConst(1)))
				}
			}
		}
		if len(ret) == 1 && isLocalRoot(ret[0]) {
			mp := fieldLoad(&x, ret[0], m.torrents)
			ok = ok && mp.Op == "mkmap"
		} else {
			ok = false
		}
		c.ob("known", "all"+from, ok, c.p.pos(f.Pos()), "a torrent may be left out")
	})
}
