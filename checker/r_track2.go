package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T03", "Every tracker is asked until one answers, which is then asked first", func(c *C) {
		c.rule("asked", 8, "the trackers are asked one after the other for the event that the method stands for, the next one exactly if the one before failed")
		c.rule("answer", 4, "the answer is that of the tracker that was asked last, and an error is returned if none answered")
		c.rule("first", 4, "the tracker that answered is put first in its tier, which keeps its other trackers, while nobody else changes it")
		c.rule("tiers", 2, "there is a tier for each list of addresses, and a tracker for each address in it")
		m := c.trackModel()
		if m == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			if f.Name() == "NewMultitracker" {
				c.newTrackers(m, f)
			}
			event, ok := announced[f.Name()]
			if ok && f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "p2p.Multitracker") {
				c.failover(m, f, event)
			}
		}
	})
}

// isAttempt: a tracker is asked.
func isAttempt(e *Event) bool {
	return e.Kind == "call" && len(e.Res) == 2 && len(e.Args) > 0 && isTrackerMethod(e.SFn)
}

func isTrackerMethod(fn *ssa.Function) bool {
	return fn != nil && fn.Signature.Recv() != nil && strings.HasSuffix(fn.Signature.Recv().Type().String(), "p2p.Tracker")
}

func (m *trackModel) tierOpts(f *ssa.Function) Opts {
	o := m.trackOpts(f)
	opaque, inert := o.Opaque, o.Inert
	o.Opaque = func(fn *ssa.Function) bool { return fn != f && isTrackerMethod(fn) || opaque(fn) }
	o.Inert = func(fn *ssa.Function) bool { return isTrackerMethod(fn) || inert(fn) }
	o.Keep = func(s *State, e *Event) bool {
		return e.Kind == "call" || e.Kind == "store" || e.Kind == "copy" || e.Kind == "append" || m.keep(s, e)
	}
	return o
}

// tierIndex: the list is a tier, or a copy of it; which one.
func (m *trackModel) tierIndex(list *Term) *Term {
	list = m.origin(list)
	l, i := elemAt(list)
	if l == nil || loadOf(l, m.tiers) == nil {
		return nil
	}
	return i
}

// origin: what the list is a copy of.
func (m *trackModel) origin(list *Term) *Term {
	for {
		switch {
		case isCall(list, "slices.Clone") && len(list.Args) == 1:
			list = list.Args[0]
		case list.Op == "concat" && len(list.Args) == 2 && mkLenZero(list.Args[0]):
			list = list.Args[1]
		default:
			return list
		}
	}
}

func mkLenZero(t *Term) bool {
	n, ok := mkLen(t).isIntConst()
	return ok && n == 0
}

func (c *C) failover(m *trackModel, f *ssa.Function, event string) {
	from := " from " + shortName(f)
	inner, outer := map[*Term]bool{}, map[*Term]bool{} // iteration counters
	passed := map[*Term]bool{}                         // of loops that look for the tracker
	covered := func(fs *Facts, list func(x *Term) bool, iters map[*Term]bool) bool {
		for n := fs; n != nil; n = n.prev {
			for a := range atomsOf(n.t) {
				if a.Op != "len" || len(a.Args) != 1 || !list(a.Args[0]) {
					continue
				}
				for it := range iters {
					if entails(fs, polySub(polySub(polyOf(a), polyOf(it)), polyConst(1))) {
						return true
					}
				}
			}
		}
		return false
	}
	isTiers := func(x *Term) bool { return loadOf(x, m.tiers) != nil }
	c.walk(f, m.tierOpts(f), func(s *State, e *Event) {
		switch {
		case isAttempt(e):
			list, j := elemAt(e.Args[0])
			ok := list != nil && m.tierIndex(list) != nil && j != nil
			if ok && len(e.Args) > 1 {
				ok = isStr(unconv(e.Args[1]), event)
			} else if ok {
				ok = announced[e.SFn.Name()] == event && isExportedFn(e.SFn)
			}
			c.ob("asked", fnName(e)+from, ok, e.pos(c.p), "this is not one of the trackers, or it is not asked for what it should be")
		case e.Kind == "rearrive" && e.Iter != nil:
			if passes, seen := passed[e.Iter]; passes || !seen {
				passed[e.Iter] = m.passes(s, e)
			}
			w := ownOf(since(before(s, e), e.Entry), e)
			n := 0
			for _, x := range w {
				if !isAttempt(x) {
					continue
				}
				list, j := elemAt(x.Args[0])
				if list == nil {
					continue
				}
				if i := m.tierIndex(list); i != nil && isPoly(e.Iter, polyOf(i)) {
					outer[e.Iter] = true
				}
				if isPoly(e.Iter, polyOf(j)) {
					inner[e.Iter] = true
					n++
					v, known := s.query(mkEq(x.Res[1], mkNil()))
					c.ob("asked", fnName(x)+": next"+from, known && !v, x.pos(c.p), "another tracker may be asked although this one answered")
				}
			}
			e := e
			c.after(func() {
				if inner[e.Iter] {
					c.ob("asked", fnName(e)+": each"+from, n == 1, e.pos(c.p), "a tracker may be passed over")
				}
				if outer[e.Iter] {
					ok := covered(s.facts, func(x *Term) bool {
						i := m.tierIndex(x)
						return i != nil && isPoly(e.Iter, polyOf(i))
					}, inner)
					c.ob("asked", fnName(e)+": tier"+from, ok, e.pos(c.p), "not all trackers of a tier may be asked")
				}
			})
		}
	}, func(t *Trace) {
		if t.End != "return" || len(t.Ret) != 2 {
			return
		}
		s := t.Final
		where := c.p.pos(f.Pos())
		if v, known := s.query(mkEq(t.Ret[1], mkNil())); known && !v || nonNil(t.Ret[1]) {
			c.after(func() {
				c.ob("answer", "failure"+from, covered(s.facts, isTiers, outer), where, "an error is returned before all trackers were asked")
			})
			return
		}
		var last *Event
		for _, e := range t.Ev {
			if isAttempt(e) {
				last = e
			}
		}
		ok := last != nil && t.Ret[0] == last.Res[0] && isNilNow(s, t.Ret[1]) && isNilNow(s, last.Res[1])
		c.ob("answer", "success"+from, ok, where, "what is returned is not the answer of a tracker")
		if ok {
			c.after(func() {
				why := m.inFront(t, last, passed)
				c.ob("first", fnName(last)+from, why == "", last.pos(c.p), why)
			})
		}
	})
	c.runAfter()
}

// seg is a part of a list: one value, or the elements that were at lo..hi.
type seg struct {
	val    *Term
	lo, hi *Poly
}

func (g seg) len() *Poly {
	if g.val != nil {
		return polyConst(1)
	}
	return polySub(g.hi, g.lo)
}

// cut splits the parts at position p.
func cut(s *State, ss []seg, p *Poly) (a, b []seg, ok bool) {
	at := polyConst(0)
	for i, g := range ss {
		if eqPoly(s, at, p) {
			return a, ss[i:], true
		}
		end := polyAdd(at, g.len(), 1)
		if g.val == nil && lePoly(s, at, p) && lePoly(s, p, end) {
			m := polyAdd(g.lo, polySub(p, at), 1)
			a = append(a, seg{lo: g.lo, hi: m})
			return a, append([]seg{{lo: m, hi: g.hi}}, ss[i+1:]...), true
		}
		a, at = append(a, g), end
	}
	return a, nil, eqPoly(s, at, p)
}

func (m *trackModel) rangeOf(s *State, ss []seg, lo, hi *Poly) ([]seg, bool) {
	_, rest, ok := cut(s, ss, lo)
	if !ok {
		return nil, false
	}
	mid, _, ok := cut(s, rest, polySub(hi, lo))
	return mid, ok
}

// inFront: the tier of the tracker that answered has it first, and the other
// trackers after it.
func (m *trackModel) inFront(t *Trace, last *Event, passed map[*Term]bool) string {
	if why := m.inFrontIf(t, last, passed, true); why != "" {
		return why
	}
	return m.inFrontIf(t, last, passed, false)
}

// passes: the next one is looked at only if this one is not the tracker that
// was asked last.
func (m *trackModel) passes(s *State, e *Event) bool {
	var tr *Term
	for _, x := range before(s, e) {
		if isAttempt(x) {
			tr = x.Args[0]
		}
	}
	for n := e.Facts; n != nil; n = n.prev {
		if n.t.Op != "eq" || n.val || tr == nil {
			continue
		}
		for k := range n.t.Args {
			if l, i := elemAt(n.t.Args[k]); l != nil && m.tierIndex(l) != nil && n.t.Args[1-k] == tr && isPoly(e.Iter, polyOf(i)) {
				return true
			}
		}
	}
	return false
}

func (m *trackModel) inFrontIf(t *Trace, last *Event, passed map[*Term]bool, already bool) string {
	list, j0 := elemAt(last.Args[0])
	tr := last.Args[0]
	ti := m.tierIndex(list)
	if ti == nil || j0 == nil {
		return "the tracker is not one of a tier"
	}
	s := t.Final
	isTier := func(x *Term) bool {
		l, i := elemAt(x)
		return l != nil && loadOf(l, m.tiers) != nil && polyTermEq(i, ti)
	}
	own := threadEvents(t.Ev)
	var T, j *Term
	var found *Event
	// where the tracker is in its tier
	for _, e := range after(own, last) {
		if e.Kind == "call" && (e.Name == "slices.Index" || e.Name == "slices.IndexFunc") && len(e.Args) == 2 && isTier(e.Args[0]) && e.Args[1] == tr {
			T, j, found = e.Args[0], e.Res[0], e
		}
	}
	if j == nil {
		for n := s.facts; n != nil; n = n.prev {
			if n.t.Op != "eq" || !n.val {
				continue
			}
			for k := range n.t.Args {
				if l, i := elemAt(n.t.Args[k]); l != nil && isTier(l) && n.t.Args[1-k] == tr {
					T, j = l, i
				}
			}
		}
	}
	if j == nil && m.origin(list) == list {
		T, j = list, j0 // the tier itself was gone through
	}
	if j == nil {
		// it would have been found in its tier
		for n := s.facts; n != nil; n = n.prev {
			for a := range atomsOf(n.t) {
				if a.Op != "len" || !isTier(a.Args[0]) {
					continue
				}
				for it, ok := range passed {
					if ok && entails(s.facts, polySub(polySub(polyOf(a), polyOf(it)), polyConst(1))) {
						return ""
					}
				}
			}
		}
		return "the place of the tracker in its tier is not looked up"
	}
	n := polyOf(mkLen(T))
	pj := polyOf(j)
	// trackers stay in their tier
	x := *s
	s = &x
	s.facts = addLe0(s.facts, polySub(polyAdd(pj, polyConst(1), 1), n))
	if already {
		s.facts = addLe0(addLe0(s.facts, pj), polyNeg(pj))
	} else {
		s.facts = addLe0(s.facts, polySub(polyConst(1), pj))
	}
	ss := []seg{{lo: polyConst(0), hi: n}}
	lists := map[*Term][]seg{}
	var read func(x *Term) ([]seg, bool)
	read = func(x *Term) ([]seg, bool) {
		if l, ok := lists[x]; ok {
			return l, true
		}
		switch {
		case isTier(x):
			return ss, true
		case x.Op == "nil":
			return nil, true
		case x.Op == "list":
			var out []seg
			for _, a := range x.Args {
				out = append(out, seg{val: a})
			}
			return out, true
		case x.Op == "concat":
			a, ok1 := read(x.Args[0])
			b, ok2 := read(x.Args[1])
			return append(append([]seg{}, a...), b...), ok1 && ok2
		case x.Op == "slice":
			of, ok := read(x.Args[0])
			if !ok {
				return nil, false
			}
			lo, hi := polyConst(0), polyOf(mkLen(x.Args[0]))
			if x.Args[1] != nil {
				lo = polyOf(x.Args[1])
			}
			if x.Args[2] != nil {
				hi = polyOf(x.Args[2])
			} else {
				hi = polyConst(0)
				for _, g := range of {
					hi = polyAdd(hi, g.len(), 1)
				}
			}
			return m.rangeOf(s, of, lo, hi)
		case isCall(x, "slices.Clone"):
			return read(x.Args[0])
		}
		return nil, false
	}
	val := func(v *Term) seg {
		if l, i := elemAt(v); l != nil && isTier(l) && v.S == "" {
			return seg{lo: polyOf(i), hi: polyAdd(polyOf(i), polyConst(1), 1)}
		}
		return seg{val: v}
	}
	var first, lastW *Event
	wrote := func(e *Event) {
		if first == nil {
			first = e
		}
		lastW = e
	}
	for _, e := range after(own, last) {
		switch {
		case e.Kind == "copy" && len(e.Args) > 0 && isTier(stripSlice(e.Addr)):
			src, ok := read(e.Val)
			count := polyOf(e.Args[0])
			if ok {
				src, ok = m.rangeOf(s, src, polyConst(0), count)
			}
			lo := polyConst(0)
			if e.Addr.Op == "slice" && e.Addr.Args[1] != nil {
				lo = polyOf(e.Addr.Args[1])
			}
			hi := polyAdd(lo, count, 1)
			a, _, ok1 := cut(s, ss, lo)
			_, b, ok2 := cut(s, ss, hi)
			if !ok || !ok1 || !ok2 {
				return "what is moved within the tier is not understood"
			}
			ss = append(append(append([]seg{}, a...), src...), b...)
			wrote(e)
		case e.Kind == "store" && e.Addr.Op == "iaddr" && isTier(e.Addr.Args[0]):
			k := polyOf(e.Addr.Args[1])
			a, _, ok1 := cut(s, ss, k)
			_, b, ok2 := cut(s, ss, polyAdd(k, polyConst(1), 1))
			if !ok1 || !ok2 {
				return "what is put into the tier is not understood"
			}
			ss = append(append(append([]seg{}, a...), val(e.Val)), b...)
			wrote(e)
		case e.Kind == "store" && e.Addr.Op == "iaddr" && loadOf(e.Addr.Args[0], m.tiers) != nil && polyTermEq(e.Addr.Args[1], ti):
			l, ok := read(e.Val)
			if !ok {
				return "what becomes of the tier is not understood: " + trunc(e.Val.String(), 80)
			}
			ss = l
			wrote(e)
		case e.Kind == "store" && e.Addr.Op == "iaddr" && loadOf(e.Addr.Args[0], m.tiers) != nil:
			return "another tier is changed"
		case e.Kind == "call" && e.Name == "slices.Delete" && len(e.Args) == 3:
			of, ok := read(e.Args[0])
			a, _, ok1 := cut(s, of, polyOf(e.Args[1]))
			_, b, ok2 := cut(s, of, polyOf(e.Args[2]))
			if ok && ok1 && ok2 {
				lists[e.Res[0]] = append(append([]seg{}, a...), b...)
			}
		case e.Kind == "call" && e.Name == "slices.Insert" && len(e.Args) == 3:
			of, ok := read(e.Args[0])
			in, ok0 := read(e.Args[2])
			a, b, ok1 := cut(s, of, polyOf(e.Args[1]))
			if ok && ok0 && ok1 {
				lists[e.Res[0]] = append(append(append([]seg{}, a...), in...), b...)
			}
		}
	}
	// the tracker itself, wherever it comes from
	var rest []seg
	for i, g := range ss {
		is := g.val == tr || g.val == nil && eqPoly(s, g.lo, pj) && eqPoly(s, g.hi, polyAdd(pj, polyConst(1), 1))
		if g.val == nil && eqPoly(s, g.lo, g.hi) {
			continue
		}
		if len(rest) == 0 && !is {
			if !(g.val == nil && i == 0 && eqPoly(s, pj, g.lo) && lePoly(s, polyAdd(g.lo, polyConst(1), 1), g.hi)) {
				return "the tracker that answered may not be the first of its tier"
			}
		}
		if g.val == tr {
			g = seg{lo: pj, hi: polyAdd(pj, polyConst(1), 1)}
		}
		if g.val != nil {
			return "something else is put into the tier"
		}
		rest = append(rest, g)
	}
	// the parts make up the whole tier
	at := polyConst(0)
	for k := len(rest); k > 0 && len(rest) > 0; k-- {
		for i, g := range rest {
			if eqPoly(s, g.lo, at) {
				at = g.hi
				rest = append(append([]seg{}, rest[:i]...), rest[i+1:]...)
				break
			}
		}
	}
	if len(rest) > 0 || !eqPoly(s, at, n) {
		return "a tracker of the tier is lost, or there twice"
	}
	if first != nil {
		if found == nil {
			found = first
		}
		if lock := m.anyLock(own, first); lock != nil && (!sameHold(own, found, lastW, lock) || !sameHold(own, first, lastW, lock)) {
			return "others may change the tier meanwhile"
		}
	}
	return ""
}

func stripSlice(t *Term) *Term {
	for t != nil && t.Op == "slice" {
		t = t.Args[0]
	}
	return t
}

// anyLock: a lock that is held at e.
func (m *trackModel) anyLock(evs []*Event, e *Event) *Term {
	for l := e.Locks; l != nil; l = l.prev {
		return l.Addr
	}
	return nil
}

// newTrackers: the tiers hold a tracker for each address.
func (c *C) newTrackers(m *trackModel, f *ssa.Function) {
	al := c.field("api/metainfo", "Metainfo", "AnnounceList", nil)
	an := c.field("api/metainfo", "Metainfo", "Announce", isBasicKind(types.String))
	if al == nil || an == nil {
		return
	}
	l := newLists()
	inits := map[*Term][]*Term{} // what new lists hold, if each element is set once
	over := map[*Term][]*Term{}  // lists that trackers are made from
	o := m.tierOpts(f)
	isTierList := func(t types.Type) bool {
		return t != nil && strings.HasSuffix(t.String(), "p2p.Tracker") && strings.HasPrefix(t.String(), "[]*")
	}
	// single: the list is that of the one address
	var single func(x *Term, depth int) bool
	single = func(x *Term, depth int) bool {
		if depth == 0 {
			return loadOf(x, an) != nil
		}
		x = stripSlice(x)
		if x.Op == "list" {
			return len(x.Args) == 1 && single(x.Args[0], depth-1)
		}
		return len(inits[x]) == 1 && single(inits[x][0], depth-1)
	}
	// source: the lists of addresses that are gone through
	source := func(fs *Facts, x *Term) bool {
		if loadOf(x, al) != nil {
			return entails(fs, polySub(polyConst(1), polyOf(mkLen(x))))
		}
		return single(x, 2) && noneListed(fs, al)
	}
	writes := map[*Term]*Event{}
	c.walk(f, o, func(s *State, e *Event) {
		l.on(s, e)
		switch {
		case e.Kind == "store" && e.Addr.Op == "iaddr" && isLocalRoot(e.Addr.Args[0]):
			seen := false
			for _, x := range inits[e.Addr.Args[0]] {
				seen = seen || x == e.Val
			}
			if !seen {
				inits[e.Addr.Args[0]] = append(inits[e.Addr.Args[0]], e.Val)
			}
		case e.Kind == "store" && e.Addr.Op == "iaddr":
			writes[e.Addr.Args[0]] = e
		case e.Kind == "rearrive":
			e := e
			url, srv := m.made(since(before(s, e), e.Entry))
			tier := func(n *Term, g *Term) {
				x := grows(n, g)
				if x == nil {
					return
				}
				if u := url[x]; u != nil {
					why := ""
					li, k := elemAt(u)
					if k == nil || e.Iter == nil || !isPoly(k, polyOf(e.Iter)) {
						why = "the address of a tracker is not that at its place in the list"
					} else if srv[x] == nil || srv[x].Op != "param" {
						why = "the tracker does not belong to this client"
					}
					over[g] = append(over[g], li)
					c.ob("tiers", fnName(e)+": tracker", why == "", e.pos(c.p), why)
				}
				if !isTierList(x.T) {
					return
				}
				c.after(func() {
					r := l.resolve(nil, e, x)
					why := r.bad
					if why == "" {
						why = "the addresses are not those of one of the announced lists, all of them"
						phi := x
						if x.Op == "concat" {
							phi = x.Args[0]
						}
						for _, li := range over[phi] {
							if li == nil {
								continue
							}
							src, i := elemAt(m.origin(li))
							if src != nil && e.Iter != nil && isPoly(i, polyOf(e.Iter)) && source(e.Facts, src) &&
								eqPoly(eventState2(s, e), polyOf(mkLen(r.over)), polyOf(mkLen(li))) {
								why = ""
							}
						}
					}
					c.ob("tiers", fnName(e)+": tier", why == "", e.pos(c.p), why)
				})
			}
			for ph, g := range e.Gen {
				if g != nil && e.Next[ph] != nil {
					tier(e.Next[ph], g)
				}
			}
			for g, v := range e.Mem {
				tier(v, g)
			}
		}
	}, func(t *Trace) {
		if t.End != "return" {
			return
		}
		own := t.Ev
		if t.Start < len(t.Ev) {
			own = t.Ev[t.Start:]
		}
		if t.Start > 0 {
			// changed meanwhile: two elements may change places
			why := ""
			ws := map[*Term]*Term{}
			for _, e := range own {
				if e.Kind == "store" && e.Addr.Op == "iaddr" {
					ws[e.Addr] = e.Val
				}
			}
			for a, v := range ws {
				src := v.Args
				if v.Op != "init" || ws[src[0]] == nil || ws[src[0]].Op != "init" || ws[src[0]].Args[0] != a {
					why = "an address may be lost"
				}
				delete(writes, a.Args[0])
			}
			c.ob("tiers", "order", why == "", c.p.pos(f.Pos()), why)
			return
		}
		if len(t.Ret) != 1 || len(t.Ev) == 0 {
			return
		}
		s := t.Final
		tl := fieldLoad(s, t.Ret[0], m.tiers)
		end := t.Ev[len(t.Ev)-1]
		facts := s.facts
		url, srv := m.made(t.Ev)
		c.after(func() {
			why := ""
			phi, one := tl, int64(0)
			if tl.Op == "concat" {
				phi, one = tl.Args[0], 1
			}
			if phi.Op == "list" && len(phi.Args) == 1 && noneListed(facts, al) {
				if l := phi.Args[0]; l.Op != "list" || len(l.Args) != 1 || loadOf(url[l.Args[0]], an) == nil || srv[l.Args[0]] == nil || srv[l.Args[0]].Op != "param" {
					why = "the tiers are not one tracker for the one address"
				}
				c.ob("tiers", "all", why == "", end.pos(c.p), why)
				return
			}
			it := l.iter[phi]
			if it == nil || !mkLenZero(phi.Args[0]) {
				why = "the tiers are not made one for each list"
			}
			for _, n := range l.next[phi] {
				if grows(n, phi) == nil {
					why = "not every list becomes a tier"
				}
			}
			if why == "" {
				count := polyAdd(polyOf(it), polyConst(one), 1)
				ok := noneListed(facts, al) && entails(facts, polySub(polyConst(1), count))
				for n := facts; n != nil && !ok; n = n.prev {
					for a := range atomsOf(n.t) {
						ok = ok || a.Op == "len" && loadOf(a.Args[0], al) != nil && entails(facts, polySub(polyOf(a), count))
					}
				}
				if !ok {
					why = "lists may be left out"
				}
			}
			c.ob("tiers", "all", why == "", end.pos(c.p), why)
		})
	})
	c.runAfter()
	for list, e := range writes {
		if tt := list.T; tt != nil && strings.HasSuffix(tt.String(), "]string") {
			c.ob("tiers", "order", false, e.pos(c.p), "an address is overwritten")
		}
	}
}

// made: the addresses and clients that trackers were made with.
func (m *trackModel) made(evs []*Event) (url, srv map[*Term]*Term) {
	url, srv = map[*Term]*Term{}, map[*Term]*Term{}
	for _, e := range evs {
		switch {
		case e.Kind == "store" && e.Field == m.url:
			url[e.Addr.Args[0]] = e.Val
		case e.Kind == "store" && e.Field == m.srv:
			srv[e.Addr.Args[0]] = e.Val
		}
	}
	return url, srv
}

func eventState2(s *State, e *Event) *State {
	x := *s
	x.facts = e.Facts
	return &x
}

// noneListed: there are no lists of addresses.
func noneListed(fs *Facts, al *types.Var) bool {
	for n := fs; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if a.Op == "len" && loadOf(a.Args[0], al) != nil && entails(fs, polyOf(a)) {
				return true
			}
		}
	}
	return false
}
