package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P08", "The rarest missing pieces are asked for first", func(c *C) {
		c.rule("rarest", 1, "the piece that is requested is taken from a list that was put in the order of how many peers have each piece, fewest first")
		c.rule("first", 1, "the list is gone through from its start, and a piece is passed over only if it is being requested already")
		c.rule("counted", 2, "the peers that have a piece are counted: everyone who said so, nobody else")
		c.borrow("P07", "removed", "own")
		m := c.p2pModel()
		mm := c.msgModel()
		if !m.ok || mm == nil {
			return
		}
		for _, f := range c.p.entryPoints(p2pPkg) {
			f := f
			if n := shortName(f); !strings.Contains(n, "p2p.Server)") && !strings.Contains(n, "p2p.Peer)") {
				continue
			}
			from := " from " + shortName(f)
			o := m.opts(mm, f, append([]string{"AddPeer", "Announce", "UnchokePeers"}, p2pStops...)...)
			o.MergeMem = false
			o.Keep = func(s *State, e *Event) bool {
				switch e.Kind {
				case "mapload":
					return true
				case "store":
					return e.Addr.Op == "iaddr"
				case "call":
					if isSort(e) || e.Name == "math/rand.Shuffle" || strings.HasPrefix(e.Name, "(bitfield.Bitfield).") || strings.HasPrefix(e.Name, "slices.") {
						return true
					}
				}
				return m.keep(s, e)
			}
			byCount := map[ssa.Instruction]*bool{} // sorts, and whether they sort by the number of peers
			iters := map[*ssa.BasicBlock]*Term{}
			wrote := map[ssa.Instruction]map[*Term]bool{} // lists that callbacks change
			from0 := map[*Term]bool{}
			var starts []func() bool
			passed := map[*ssa.BasicBlock]*Event{}
			c.walk(f, o, func(s *State, e *Event) {
				evs := before(s, e)
				switch {
				case e.Kind == "store" && e.Addr.Op == "iaddr" && e.Thread > 0:
					in := threadOf(evs)
					if wrote[in] == nil {
						wrote[in] = map[*Term]bool{}
					}
					wrote[in][e.Addr.Args[0]] = true
				case e.Kind == "mapstore" && loadOf(e.Addr, m.inflight) != nil && e.Val.Op != "nil":
					list, idx := elemAt(e.Args[0])
					if list == nil {
						c.ob("rarest", fnName(e)+from, false, e.pos(c.p), "the piece that is requested is not taken from a list")
						return
					}
					var last *Event
					var calls []*Event
					for _, x := range evs {
						if x.Kind == "store" && x.Addr.Args[0] == list {
							last, calls = x, nil
						}
						if x.Kind != "call" {
							continue
						}
						calls = append(calls, x)
						for _, a := range x.Args {
							if touches(a, list) && !strings.HasPrefix(x.Name, "(bitfield.") {
								last, calls = x, nil
							}
						}
					}
					idx0 := polyOf(idx)
					c.after(func() {
						for _, x := range calls {
							if wrote[x.In][list] {
								last = x
							}
						}
						ok := last != nil && isSort(last) && byCount[last.In] != nil && *byCount[last.In]
						c.ob("rarest", fnName(e)+from, ok, e.pos(c.p), "the pieces are not in the order of how many peers have them")
						ok = false
						for h, it := range iters {
							now, next := isPoly(it, idx0), isPoly(it, polySub(idx0, polyConst(1)))
							if now {
								from0[it] = true
							}
							ok = ok || (now || next) && passed[h] == nil
							starts = append(starts, func() bool { return !(now || next) || from0[it] })
						}
						c.ob("first", fnName(e)+from, ok, e.pos(c.p), "a piece that is rarer may be passed over")
					})
				case e.Kind == "rearrive":
					w := since(evs, e.Entry)
					if e.Iter != nil {
						iters[e.In.Block()] = e.Iter
					}
					flight, skip := false, false
					for _, x := range w {
						if x.Kind == "mapload" && loadOf(x.Addr, m.inflight) != nil {
							if _, i := elemAt(x.Args[0]); i == nil || e.Iter == nil || !isPoly(e.Iter, polyOf(i)) {
								continue
							}
							flight = true
							if eq, known := m.entryIs(s, x, mkNil()); known && !eq {
								skip = true
							}
							if len(x.Res) > 0 {
								if had, known := boolOf(s, x.Res[len(x.Res)-1]); known && had {
									skip = true
								}
							}
						}
						if x.Kind == "mapstore" && loadOf(x.Addr, m.inflight) != nil {
							skip = false
						}
					}
					if !flight || !skip {
						passed[e.In.Block()] = e
					}
				}
			}, func(t *Trace) {
				if t.End != "return" {
					return
				}
				if t.Start < len(t.Ev) {
					m.counts(t.Ev[t.Start:], func(e *Event, ok bool) {
						c.ob("counted", fnName(e)+": "+e.Kind+from, ok, e.pos(c.p), "a peer is counted for a piece it is not marked to have, or the other way round")
					})
				}
				if t.Start > 0 && t.Start < len(t.Ev) && strings.HasPrefix(t.Ev[t.Start].Name, "callback:s") && len(t.Ret) == 1 {
					in := t.Ev[t.Start-1].In
					ok := m.fewest(t)
					if byCount[in] == nil {
						byCount[in] = &ok
					}
					*byCount[in] = *byCount[in] && ok
				}
			})
			c.runAfter()
			for _, is := range starts {
				if !is() {
					c.ob("first", "start"+from, false, c.p.pos(f.Pos()), "the list may not be gone through from its start")
				}
			}
		}
	})
}

func isSort(e *Event) bool {
	return e.Kind == "call" && (strings.HasPrefix(e.Name, "sort.Slice") || strings.HasPrefix(e.Name, "slices.Sort") && strings.HasSuffix(e.Name, "Func"))
}

// elemAt: the value is an element of a list.
func elemAt(v *Term) (list, index *Term) {
	if v.Op == "init" && v.Args[0].Op == "iaddr" {
		return v.Args[0].Args[0], v.Args[0].Args[1]
	}
	return nil, nil
}

func touches(a, list *Term) bool {
	a = unconv(a)
	if a.Op == "iface" {
		a = a.Args[0]
	}
	return a == list || a.Op == "closure" && a.any(func(x *Term) bool { return x == list })
}

// fewest: what was compared is how many peers have the pieces, and fewer
// come first.
func (m *p2pModel) fewest(t *Trace) bool {
	r, f := t.Ret[0], t.Final.facts
	counts := [2]map[*Term]bool{{}, {}}
	find := func(x *Term) {
		x.any(func(l *Term) bool {
			if l.Op != "len" || len(l.Args) != 1 || !l.any(func(y *Term) bool { return loadOf(y, m.indexPeers) != nil }) {
				return false
			}
			for k := range counts {
				if cbarg(l, k) && !cbarg(l, 1-k) {
					counts[k][l] = true
				}
			}
			return false
		})
	}
	find(r)
	for n := f; n != nil; n = n.prev {
		find(n.t)
	}
	for a := range counts[0] {
		for b := range counts[1] {
			if !sameCount(a, b) || !countOf(t.Ev[t.Start], a) {
				continue
			}
			ab, ba := polySub(polyOf(a), polyOf(b)), polySub(polyOf(b), polyOf(a))
			if r.Op == "cmp3" {
				if isPoly(r.Args[0], polyOf(a)) && isPoly(r.Args[1], polyOf(b)) {
					return true
				}
				continue
			}
			if isInt(r.T) {
				if v := polyOf(r); entails(addLe0(f, polyAdd(v, polyConst(1), 1)), ab) && entails(addLe0(f, polySub(polyConst(1), v)), ba) {
					return true
				}
				continue
			}
			v, known := boolOf(t.Final, r)
			if (known && !v || entails(f.add(r, true), ab)) && (known && v || entails(f.add(r, false), ba)) {
				return true
			}
		}
	}
	return false
}

func cbarg(t *Term, k int) bool {
	return t.any(func(x *Term) bool { return x.Op == "cbarg" && strings.HasSuffix(x.S, []string{".0", ".1"}[k]) })
}

// countOf: it is the count of the element that is compared.
func countOf(e *Event, n *Term) bool {
	var k *Term
	n.any(func(x *Term) bool {
		if x.Op == "mval" && len(x.Args) == 2 {
			k = x.Args[1]
		}
		return false
	})
	if k == nil || len(e.Args) == 0 {
		return false
	}
	if strings.HasPrefix(e.Name, "callback:slices.") {
		return k.Op == "cbarg"
	}
	list, i := elemAt(k)
	return list != nil && touches(e.Args[0], list) && i.Op == "cbarg"
}

// sameCount: b is a, for the other argument.
func sameCount(a, b *Term) bool {
	var h *Term
	a.any(func(x *Term) bool {
		if x.Op == "cbarg" && strings.HasSuffix(x.S, ".0") {
			h = x
		}
		return false
	})
	var bind *Term
	return h != nil && matchHole(a, h, b, &bind) && bind != nil && bind.Op == "cbarg" && strings.HasSuffix(bind.S, ".1")
}

// counts: a peer is counted for a piece when it is marked to have it, and the
// other way round.
func (m *p2pModel) counts(own []*Event, report func(e *Event, ok bool)) {
	for _, e := range own {
		if e.Kind == "mapstore" && loadOf(e.Addr, m.indexPeers) == nil {
			i := m.pieceOf(own, e.Addr)
			if i == nil {
				continue
			}
			ok := false
			for _, x := range own {
				ok = ok || isBitAdd(x) && loadOf(x.Args[0], m.bits) == e.Args[0] && polyTermEq(x.Args[1], i) && (sameHold(own, e, x, lockOf(e, m)) || sameHold(own, x, e, lockOf(e, m)))
			}
			report(e, ok)
		}
		if isBitAdd(e) && isPeerPtr(ptrType(loadOf(e.Args[0], m.bits))) {
			ok := false
			for _, x := range own {
				if x.Kind == "mapstore" && loadOf(x.Addr, m.indexPeers) == nil && x.Args[0] == loadOf(e.Args[0], m.bits) {
					i := m.pieceOf(own, x.Addr)
					ok = ok || i != nil && polyTermEq(e.Args[1], i) && (sameHold(own, e, x, lockOf(e, m)) || sameHold(own, x, e, lockOf(e, m)))
				}
			}
			report(e, ok)
		}
	}
}

func ptrType(t *Term) types.Type {
	if t == nil {
		return nil
	}
	return t.T
}

// pieceOf: the piece that the map holds the peers of.
func (m *p2pModel) pieceOf(own []*Event, mp *Term) *Term {
	for _, x := range own {
		if x.Kind == "mapstore" && loadOf(x.Addr, m.indexPeers) != nil && x.Val == mp {
			return x.Args[0]
		}
	}
	var i *Term
	mp.any(func(x *Term) bool {
		if x.Op == "mval" && len(x.Args) == 2 && loadOf(x.Args[0], m.indexPeers) != nil {
			i = x.Args[1]
		}
		return false
	})
	return i
}
