package main

import (
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// trackModel: the names of the API that the tracker properties are about.
type trackModel struct {
	*p2pModel
	url, srv, port            *types.Var // Tracker.URL, its server; Server.Port
	req                       map[string]*types.Var
	interval, peers, failure  *types.Var
	rawQuery, body            string
	length, encode, unmarshal *ssa.Function
}

var requestFields = []string{"InfoHash", "PeerID", "IP", "Port", "Uploaded", "Downloaded", "Left", "Event", "Compact"}

const trackerPkg = "api/tracker"

func (c *C) trackModel() *trackModel {
	m := &trackModel{p2pModel: c.p2pModel(), req: map[string]*types.Var{}}
	if !m.ok {
		return nil
	}
	m.url = c.field("p2p", "Tracker", "URL", isBasicKind(types.String))
	m.srv = c.field("p2p", "Tracker", "server", func(t types.Type) bool { return strings.HasSuffix(t.String(), "p2p.Server") })
	m.port = c.field("p2p", "Server", "Port", isBasicKind(types.Int))
	for _, n := range requestFields {
		m.req[n] = c.field(trackerPkg, "Request", n, nil)
		if m.req[n] == nil {
			return nil
		}
	}
	m.interval = c.field(trackerPkg, "Response", "Interval", nil)
	m.peers = c.field(trackerPkg, "Response", "Peers", nil)
	m.failure = c.field(trackerPkg, "Response", "FailureReason", nil)
	m.length = c.method("api/metainfo", "Info", "GetLength")
	m.encode = c.method(trackerPkg, "Request", "Encode")
	if m.url == nil || m.srv == nil || m.port == nil || m.interval == nil || m.peers == nil || m.failure == nil || m.length == nil || m.encode == nil {
		return nil
	}
	return m
}

// announced: what a method tells the tracker.
var announced = map[string]string{"Start": "started", "Stop": "stopped", "Complete": "completed", "Announce": ""}

func init() {
	register("T01", "Trackers are told the truth, and only usable answers are taken", func(c *C) {
		c.rule("told", 4, "the request names the torrent, this client, its port, what it sent, what it got and what it still lacks, and the event that the method stands for")
		c.rule("address", 4, "the request goes to the address of the tracker, whose own parameters are kept")
		c.rule("taken", 4, "what is returned was decoded from the whole answer, is no failure, and has a usable interval and peers")
		c.rule("refused", 4, "an answer is refused only if the request failed, the tracker says so, or it cannot be read")
		c.rule("closed", 4, "the body of every answer is closed")
		m := c.trackModel()
		if m == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			event, ok := announced[f.Name()]
			if !ok || f.Signature.Recv() == nil || !strings.HasSuffix(f.Signature.Recv().Type().String(), "p2p.Tracker") {
				continue
			}
			f, ev := f, event
			from := " from " + shortName(f)
			o := m.trackOpts(f)
			c.walk(f, o, func(s *State, e *Event) {
				if e.Kind != "call" {
					return
				}
				if e.SFn == m.encode {
					m.told(s, e, ev, func(what string, ok bool) {
						c.ob("told", what+from, ok, e.pos(c.p), "the tracker is not told the true value")
					})
				}
				if a := requestURL(e); a != nil {
					why := m.address(s, before(s, e), a)
					c.ob("address", fnName(e)+from, why == "", e.pos(c.p), why)
				}
			}, func(t *Trace) {
				if t.End != "return" || len(t.Ret) != 2 {
					return
				}
				var res *Event
				for _, e := range t.Ev {
					if requestURL(e) != nil && len(e.Res) == 2 && !strings.Contains(e.Name, "NewRequest") || calls(e, "(*net/http.Client).Do") {
						res = e
					}
				}
				nils, known := t.Final.query(mkEq(t.Ret[1], mkNil()))
				if known && !nils {
					c.ob("refused", "end"+from, m.failed(t), c.p.pos(f.Pos()), "an answer that can be used is refused")
				} else {
					why := m.usable(t, res)
					c.ob("taken", "end"+from, why == "", c.p.pos(f.Pos()), why)
				}
				if res != nil && isNilNow(t.Final, res.Res[1]) {
					closed := false
					for _, e := range t.Ev {
						closed = closed || calls(e, "Closer).Close") && bodyOf(e.Args[0]) == res.Res[0]
					}
					c.ob("closed", fnName(res)+from, closed, res.pos(c.p), "the body may not be closed")
				}
			})
		}
	})
}

func (m *trackModel) trackOpts(root *ssa.Function) Opts {
	o := m.opts(nil, root)
	opaque := o.Opaque
	o.Opaque = func(fn *ssa.Function) bool { return fn == m.length || opaque(fn) }
	harmless := o.Harmless
	o.Harmless = func(fn *ssa.Function) bool { return fn == m.encode || harmless(fn) }
	inert := o.Inert
	o.Inert = func(fn *ssa.Function) bool { return fn == m.encode || inert(fn) }
	o.Preserve[m.url], o.Preserve[m.srv], o.Preserve[m.port] = true, true, true
	o.MergeMem = false
	o.ZeroNew = true
	o.Keep = func(s *State, e *Event) bool { return e.Kind == "call" || e.Kind == "store" || m.keep(s, e) }
	return o
}

func isStr(t *Term, want string) bool {
	v, ok := t.isStrConst()
	return ok && v == want
}

func isNilNow(s *State, x *Term) bool {
	if x.Op == "nil" {
		return true
	}
	v, known := s.query(mkEq(x, mkNil()))
	return known && v
}

// requestURL: the address that the call sends a request to.
func requestURL(e *Event) *Term {
	if e.Kind != "call" {
		return nil
	}
	n := -1
	switch e.Name {
	case "net/http.Get":
		n = 0
	case "(*net/http.Client).Get", "net/http.NewRequest":
		n = 1
	case "net/http.NewRequestWithContext":
		n = 2
	}
	if n < 0 || n >= len(e.Args) {
		return nil
	}
	return e.Args[n]
}

// told: the fields of the request that is encoded.
func (m *trackModel) told(s *State, e *Event, event string, report func(what string, ok bool)) {
	r := e.Args[0]
	get := func(n string) *Term { return fieldLoad(s, r, m.req[n]) }
	var srv *Term
	for _, n := range requestFields {
		v := unconv(get(n))
		ok := true
		switch n {
		case "InfoHash":
			info := loadOf(v, m.sha)
			srv = loadOf(info, m.info)
			ok = srv != nil && loadOf(srv, m.srv) != nil
		case "PeerID":
			ok = loadOf(v, m.serverID) == srv
		case "Port":
			ok = loadOf(v, m.port) == srv
		case "Uploaded":
			ok = m.counter(s, e, v, mkFaddr(srv, m.sUp))
		case "Downloaded":
			ok = m.counter(s, e, v, mkFaddr(srv, m.sDown))
		case "Left":
			ok = m.left(s, e, v, srv)
		case "Event":
			ok = isStr(v, event)
		case "IP":
			// the address that the request comes from is used
			ok = isStr(v, "")
		case "Compact":
			continue
		}
		if srv == nil {
			report(n, false)
			return
		}
		report(n, ok)
	}
}

// counter: v was loaded from the counter.
func (m *trackModel) counter(s *State, e *Event, v, addr *Term) bool {
	for _, x := range before(s, e) {
		if x.Kind == "atomic" && strings.HasPrefix(x.Name, "Load") && x.Addr == addr && len(x.Res) == 1 && unconv(x.Res[0]) == v {
			return true
		}
	}
	return false
}

// left: the length of the torrent without what storage has.
func (m *trackModel) left(s *State, e *Event, v, srv *Term) bool {
	var all, have *Term
	for _, x := range before(s, e) {
		if x.Kind != "call" || len(x.Res) != 1 || len(x.Args) == 0 {
			continue
		}
		if x.SFn == m.length && loadOf(x.Args[0], m.info) == srv {
			all = x.Res[0]
		}
		if calls(x, "storage.Storage).Downloaded") && loadOf(x.Args[0], m.storage) == srv {
			have = x.Res[0]
		}
	}
	return all != nil && have != nil && isPoly(v, polySub(polyOf(all), polyOf(have)))
}

// address: the URL is that of the tracker, with the encoded request added to
// its query.
func (m *trackModel) address(s *State, evs []*Event, a *Term) string {
	if !isCall(a, "(*net/url.URL).String") {
		return "the address is not that of a parsed URL: " + trunc(a.String(), 80)
	}
	u := a.Args[0]
	ok := false
	var enc, str *Event
	for _, e := range evs {
		if e.Kind != "call" {
			continue
		}
		if e.Name == "net/url.Parse" && len(e.Res) == 2 && e.Res[0] == u && loadOf(e.Args[0], m.url) != nil {
			ok = true
		}
		if e.SFn == m.encode {
			enc = e
		}
		if e.Name == "(*net/url.URL).String" && e.Args[0] == u {
			str = e
		}
	}
	if !ok {
		return "the address does not come from the URL of the tracker"
	}
	if enc == nil || str == nil {
		return "the request is not encoded before it is sent"
	}
	for _, w := range evs {
		if w.Kind == "store" && w.Addr.Op == "faddr" && w.Addr.Args[0] == u && w.Field != nil && w.Field.Name() != "RawQuery" {
			return "another part of the address is changed"
		}
	}
	var q *Term
	for _, w := range evs {
		if w.Kind == "store" && w.Addr.Op == "faddr" && w.Addr.Args[0] == u && w.n < str.n {
			q = w.Val
		}
	}
	if q == nil {
		return "the query of the address is not set"
	}
	parts := concatParts(q)
	if parts[len(parts)-1] != enc.Res[0] {
		return "the query does not end in the encoded request"
	}
	own := func(t *Term) bool {
		return t.Op == "init" && t.Args[0].Op == "faddr" && t.Args[0].Args[0] == u && strings.HasSuffix(t.Args[0].String(), ".RawQuery")
	}
	for _, p := range parts[:len(parts)-1] {
		if !isStr(p, "&") && !own(p) {
			return "the query contains something else: " + trunc(p.String(), 60)
		}
	}
	if len(parts) == 3 && own(parts[0]) && isStr(parts[1], "&") {
		return ""
	}
	for n := s.facts; n != nil; n = n.prev {
		if n.val && (n.t.Op == "eq" || n.t.Op == "eq0") && n.t.any(own) {
			return ""
		}
	}
	return "the own parameters of the address are lost, or not separated from the request"
}

func bodyOf(t *Term) *Term {
	t = unconv(t)
	if t.Op == "init" && t.Args[0].Op == "faddr" && strings.HasSuffix(t.Args[0].String(), ".Body") {
		return t.Args[0].Args[0]
	}
	return nil
}

// usable: what is returned without an error.
func (m *trackModel) usable(t *Trace, res *Event) string {
	s, r := t.Final, t.Ret[0]
	if res == nil || !isNilNow(s, res.Res[1]) {
		return "the request may have failed"
	}
	var data *Term
	readers := map[*Term]*Term{}
	ok := false
	for _, e := range t.Ev {
		if e.Kind != "call" {
			continue
		}
		if e.Name == "io.ReadAll" && bodyOf(e.Args[0]) == res.Res[0] && isNilNow(s, e.Res[1]) {
			data = e.Res[0]
		}
		if e.Name == "bytes.NewReader" || e.Name == "bytes.NewBuffer" || e.Name == "bytes.NewBufferString" {
			readers[e.Res[0]] = e.Args[0]
		}
		if calls(e, "bencode.NewDecoder") {
			readers[e.Res[0]] = readers[unconv(e.Args[0])]
		}
		if calls(e, "bencode.Decoder).Decode") && data != nil && readers[e.Args[0]] == data && unconv(content1(e.Args[1])) == r {
			ok = isNilNow(s, lastRes(e))
		}
		if calls(e, "bencode.Unmarshal") && data != nil && e.Args[0] == data && unconv(content1(e.Args[1])) == r {
			ok = isNilNow(s, lastRes(e))
		}
	}
	if !ok {
		return "what is returned was not decoded from the whole answer"
	}
	if v, known := s.query(mkEq(fieldLoad(s, r, m.failure), mkStr(""))); !known || !v {
		return "the tracker may have said that the request failed"
	}
	i := polyOf(fieldLoad(s, r, m.interval))
	if !entails(s.facts, polySub(polyConst(1), i)) || !entails(s.facts, polySub(i, polyConst(math.MaxInt64/1000000000))) {
		return "the interval may be negative, zero, or longer than can be waited for"
	}
	p := fieldLoad(s, r, m.peers)
	if v, known := s.query(mkEq(p, mkNil())); !nonNil(p) && (!known || v) {
		return "the peers may be nil"
	}
	return ""
}

func content1(t *Term) *Term {
	if t.Op == "iface" {
		return t.Args[0]
	}
	return t
}

// failed: something went wrong on the way, or the tracker said so.
func (m *trackModel) failed(t *Trace) bool {
	for _, e := range t.Ev {
		if e.Kind == "call" && len(e.Res) > 0 && !strings.HasSuffix(e.Name, ").Close") && isErrorType(lastRes(e).T) && !strings.HasPrefix(e.Name, "errors.") && !strings.HasPrefix(e.Name, "fmt.") {
			if v, known := t.Final.query(mkEq(lastRes(e), mkNil())); known && !v {
				return true
			}
		}
	}
	for n := t.Final.facts; n != nil; n = n.prev {
		if !n.val && n.t.any(func(x *Term) bool { return loadOf(x, m.failure) != nil }) || strings.Contains(n.t.String(), ".StatusCode") {
			return true
		}
	}
	return false
}
