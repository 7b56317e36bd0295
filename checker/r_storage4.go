package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func isDeliver(e *Event) bool {
	return e.Kind == "call" && strings.HasPrefix(e.Name, "(*future.Future[") && strings.HasSuffix(e.Name, ").Deliver") && len(e.Args) == 2
}

func isBitAdd(e *Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, "bitfield.Bitfield).Add") && len(e.Args) == 2
}

// loadFact: what the path knows of the value of a bool field of object b.
func loadFact(fs *Facts, is func(t *Term) bool) (val, ok bool) {
	for n := fs; n != nil; n = n.prev {
		if is(n.t) {
			return n.val, true
		}
	}
	return
}

func init() {
	register("S06", "Completion is recorded once and everyone waiting is told", func(c *C) {
		c.rule("once", 2, "a piece is marked complete only when it was not complete before")
		c.rule("recorded", 2, "whenever a piece is marked complete it is counted once, its own bit is set, and its length is added to the downloaded bytes")
		c.rule("told", 2, "whenever a piece or the torrent is marked complete its waiters are told so")
		c.rule("truth", 2, "waiters are told of success only for a piece or torrent that is complete")
		c.rule("failure", 2, "when assembling a piece or the torrent fails, its waiters are told and the caller gets the error")
		c.rule("reset", 1, "an incomplete piece is reset as a whole, after its waiters were told; a complete one never becomes incomplete")
		c.rule("all", 2, "the torrent is put together only when all of its pieces are complete, and then before the last block is acknowledged")
		c.rule("future", 2, "a future has its value before it is done, keeps the first one, and is waited for before its value is used")
		m := c.storeModel()
		if !m.ok {
			return
		}
		nblk := c.field(storagePkg, "Piece", "completeBlocks", nil)
		for _, f := range c.p.entryPoints(storagePkg) {
			f := f
			o := m.opts()
			o.Pure = func(fn *ssa.Function) bool {
				n := shortName(fn)
				return strings.HasPrefix(n, "(*future.Future[") && strings.HasSuffix(n, ").Deliver") || strings.HasSuffix(n, "bitfield.Bitfield).Add")
			}
			o.Preserve = map[*types.Var]bool{m.count: true, m.pieces: true, m.coalP: true, m.coalT: true}
			keep := o.Keep
			o.Keep = func(s *State, e *Event) bool {
				if e.Kind == "branch" {
					for a := range atomsOf(e.Args[0]) {
						if loadOf(a, m.count) != nil {
							return true
						}
					}
					return false
				}
				return keep(s, e) || isDeliver(e) || isBitAdd(e) || e.Kind == "store" && (e.Field == m.blocks || e.Field == nblk)
			}
			short := shortName(f)
			c.walk(f, o, func(s *State, e *Event) {
				if e.Kind == "store" && e.Field == m.coalT && e.Val != nil {
					if b, ok := e.Val.isBoolConst(); ok && !b {
						return
					}
					t := e.Addr.Args[0]
					n := s.load(mkFaddr(t, m.count), m.count.Type())
					l := mkLen(s.load(mkFaddr(t, m.pieces), m.pieces.Type()))
					if !entails(s.facts, polySub(polyOf(l), polyOf(n))) {
						e.Tag = "open"
					}
				}
			}, func(t *Trace) {
				if t.End != "return" {
					return
				}
				tor := 0
				var put []*Term
				attempt := false
				for i, e := range t.Ev {
					where := e.pos(c.p)
					if e.Kind == "branch" {
						for a := range atomsOf(e.Args[0]) {
							if b := loadOf(a, m.count); b != nil {
								v, ok := queryFacts(t.Final.facts, e.Args[0])
								_ = v
								if ok && m.countsAll(t.Final.facts, b) {
									attempt = true
								}
							}
						}
					}
					if e.Kind == "store" && (e.Field == m.coalP || e.Field == m.coalT) {
						if b, ok := e.Val.isBoolConst(); ok && !b {
							if rootOf(e.Addr).Op != "alloc" {
								c.ob("reset", fnName(e)+": complete is taken back", false, where, "what was complete becomes incomplete")
							}
							continue
						}
					}
					switch {
					case e.Kind == "store" && e.Field == m.coalP:
						p := e.Addr.Args[0]
						put = append(put, p)
						was, ok := loadFact(e.Facts, func(x *Term) bool { b := loadOf(x, m.coalP); return b != nil && sameObj(b, p) })
						c.ob("once", fmt.Sprintf("%s, called from %s", fnName(e), short), ok && !was, where, "the piece may be complete already")
						told := false
						for _, x := range t.Ev {
							if isDeliver(x) && x.Args[1].Op == "nil" {
								if b := loadOf(x.Args[0], m.errP); b != nil && sameObj(b, p) {
									told = true
								}
							}
						}
						c.ob("told", fmt.Sprintf("%s: piece, called from %s", fnName(e), short), told, where, "those who wait for the piece are not told")
						bits, bad := 0, ""
						for _, x := range t.Ev {
							if isBitAdd(x) {
								b := loadOf(x.Args[1], m.pindex)
								if b != nil && sameObj(b, p) && loadOf(unconv(x.Args[0]), m.bitfield) != nil {
									bits++
								}
							}
						}
						if bits == 0 {
							bad = "the bit of the piece is not set"
						}
						adds := 0
						for _, x := range t.Ev {
							if x.Kind == "atomic" && x.Field == m.downloaded && strings.HasPrefix(x.Name, "Add") {
								for a := range atomsOf(x.Args[len(x.Args)-1]) {
									if b := loadOf(a, m.plen); b != nil && sameObj(b, p) && len(polyOf(unconv(x.Args[len(x.Args)-1])).Ms) <= 1 {
										adds++
									}
								}
							}
						}
						if adds != 1 && bad == "" {
							bad = fmt.Sprintf("the piece's length is added %d times to the downloaded bytes", adds)
						}
						c.ob("recorded", fmt.Sprintf("%s, called from %s", fnName(e), short), bad == "", where, bad)
					case e.Kind == "store" && e.Field == m.coalT:
						tor++
						told := false
						for _, x := range t.Ev {
							if isDeliver(x) && x.Args[1].Op == "nil" && loadOf(x.Args[0], m.erT) != nil {
								told = true
							}
						}
						c.ob("told", fmt.Sprintf("%s: torrent, called from %s", fnName(e), short), told, where, "those who wait for the torrent are not told")
						open := e.Tag == "open"
						_, there := m.published(t, i)
						found := false
						for _, x := range t.Ev[:i] {
							if x.Kind == "call" && (x.Name == "os.Stat" || x.Name == "os.Lstat") && m.isTarget(t, x, x.Args[0]) && isNilAt(t, e, lastRes(x)) {
								found = true
							}
						}
						c.ob("all", fmt.Sprintf("%s: marked complete, called from %s", fnName(e), short), found || there && !open, where, "pieces may be missing")
					case isDeliver(e):
						ok, why := true, ""
						nilv, known := queryFacts(e.Facts, mkEq(e.Args[1], mkNil()))
						fails := known && !nilv
						if b := loadOf(e.Args[0], m.errP); b != nil && !fails {
							ok, why = false, "the piece may be incomplete"
							for _, x := range t.Ev {
								if x.Kind == "store" && x.Field == m.coalP && sameObj(x.Addr.Args[0], b) {
									ok = true
								}
							}
						} else if loadOf(e.Args[0], m.erT) != nil && !fails {
							ok, why = false, "the torrent may be incomplete"
							for _, x := range t.Ev {
								if x.Kind == "store" && x.Field == m.coalT {
									ok = true
								}
							}
						}
						c.ob("truth", fnName(e)+": "+stableSite(c, e), ok, where, why)
					case e.Kind == "store" && (e.Field == m.errP || e.Field == m.erT) && rootOf(e.Addr).Op != "alloc":
						// before, or afterwards, through what was read before
						told := false
						for _, x := range t.Ev {
							if isDeliver(x) && (loadOf(x.Args[0], m.errP) != nil || loadOf(x.Args[0], m.erT) != nil) && stripVer(x.Args[0].Args[0]) == stripVer(e.Addr) {
								told = true
							}
						}
						c.ob("reset", fnName(e)+": a new future", told, where, "those who wait on the future that is replaced are never told")
					case e.Kind == "store" && e.Field == m.blocks && e.Val.Op == "nil":
						p := e.Addr.Args[0]
						done, zero := false, false
						for _, x := range t.Ev {
							if x.Kind == "store" && x.Field == m.coalP && sameObj(x.Addr.Args[0], p) {
								done = true
							}
							if n, ok := isConstStore(x, nblk); ok && n == 0 && sameObj(x.Addr.Args[0], p) {
								zero = true
							}
						}
						was, ok := loadFact(e.Facts, func(x *Term) bool { b := loadOf(x, m.coalP); return b != nil && sameObj(b, p) })
						c.ob("reset", fnName(e)+": blocks are dropped, called from "+short, done || zero && ok && !was, where, "blocks are dropped without the count, or from a complete piece")
					case e.Kind == "store" && e.Field == nblk && rootOf(e.Addr).Op != "alloc":
						if n, ok := isConstStore(e, nblk); ok && n == 0 {
							p := e.Addr.Args[0]
							dropped := false
							for _, x := range t.Ev {
								if x.Kind == "store" && x.Field == m.blocks && sameObj(x.Addr.Args[0], p) {
									dropped = true
								}
							}
							c.ob("reset", fnName(e)+": the count is reset", dropped, where, "the count of blocks is reset but they are kept")
						}
					}
				}
				cnt := 0
				okInc := true
				var last *Term
				for _, e := range t.Ev {
					if e.Kind == "store" && e.Field == m.count && rootOf(e.Addr).Op != "alloc" {
						cnt++
						if last == nil {
							okInc = okInc && isIncrement(e.Val, e.Addr)
						} else {
							d := polySub(polyOf(e.Val), polyOf(last))
							okInc = okInc && (len(d.Ms) == 0 && d.C == 1 || isIncrement(e.Val, e.Addr))
						}
						last = e.Val
					}
				}
				if cnt > 0 || len(put) > 0 {
					c.ob("recorded", "number of complete pieces, "+short, cnt == len(put) && okInc, c.p.pos(f.Pos()), fmt.Sprintf("%d pieces are completed and %d counted", len(put), cnt))
				}
				if len(put) > 0 && tor == 0 && succeeds(t) && f.Signature.Results().Len() > 0 {
					// not the last piece
					c.ob("all", "torrent stays incomplete, "+short, m.countsNot(t.Final, put[0], m.count), c.p.pos(f.Pos()), "success may be returned although all pieces are complete and the torrent was not put together")
				}
				// failures
				if succeeds(t) || f.Signature.Results().Len() == 0 {
					return
				}
				failed := false
				worked := false
				for _, e := range t.Ev {
					if isDeliver(e) {
						nilv, known := queryFacts(e.Facts, mkEq(e.Args[1], mkNil()))
						if known && !nilv {
							if len(put) > 0 || attempt {
								failed = failed || loadOf(e.Args[0], m.erT) != nil
							} else {
								failed = failed || loadOf(e.Args[0], m.errP) != nil
							}
						}
					}
					if e.Kind == "call" && strings.HasPrefix(e.Name, "os.Mkdir") || e.Kind == "call" && e.Name == "os.CreateTemp" {
						worked = true
					}
				}
				if worked || len(put) > 0 && attempt {
					c.ob("failure", short+": an assembly fails", failed, c.p.pos(f.Pos()), "an error is returned but those who wait are not told")
				}
			})
		}
		c.futures()
	})
}

func isConstStore(e *Event, f any) (int64, bool) {
	if e.Kind != "store" || e.Val == nil || any(e.Field) != f {
		return 0, false
	}
	return e.Val.isIntConst()
}

// countsAll: the count of torrent t is known to be the number of its pieces.
func (m *storeModel) countsAll(fs *Facts, t *Term) bool {
	var cs, ls []*Term
	for n := fs; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if loadOf(a, m.count) != nil {
				cs = append(cs, a)
			}
			if a.Op == "len" && loadOf(a.Args[0], m.pieces) != nil {
				ls = append(ls, a)
			}
		}
	}
	for _, c := range cs {
		for _, l := range ls {
			if entails(fs, polySub(polyOf(l), polyAdd(polyOf(c), polyConst(1), 1))) {
				return true
			}
		}
	}
	return false
}

// countsNot: at the end the count is known not to be the number of pieces.
func (m *storeModel) countsNot(s *State, p *Term, count any) bool {
	if p.Op != "init" || p.Args[0].Op != "iaddr" {
		return false
	}
	ps := p.Args[0].Args[0]
	t := loadOf(ps, m.pieces)
	if t == nil {
		return false
	}
	n := s.load(mkFaddr(t, m.count), m.count.Type())
	d := polySub(polyOf(n), lenPoly(ps))
	v, ok := s.query(boolTerm(condEq0(d)))
	return ok && !v || entails(s.facts, polyAdd(d, polyConst(1), 1))
}

// newFuture: a future that is made has a channel of its own to wait on.
func (c *C) newFuture(f *ssa.Function) {
	c.walk(f, Opts{}, nil, func(t *Trace) {
		if t.End != "return" || len(t.Ret) != 1 {
			return
		}
		pt, ok := t.Ret[0].T.Underlying().(*types.Pointer)
		if !ok {
			return
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			v := st.Field(i)
			if _, ok := v.Type().Underlying().(*types.Chan); ok {
				x := t.Final.load(mkFaddr(t.Ret[0], v), v.Type())
				c.ob("future", shortName(f)+": "+v.Name(), t.Ret[0].Op == "alloc" && x.Op == "mkchan", c.p.pos(f.Pos()), "the channel that is waited on is "+trunc(x.String(), 60))
			}
		}
	})
}

// futures: the one-shot values everyone waits on.
func (c *C) futures() {
	done := map[string]bool{}
	for _, f := range c.p.Funcs {
		if pkgOf(f) != "future" || len(f.Blocks) == 0 || len(f.TypeArgs()) == 0 {
			continue
		}
		f := f
		n := f.Name()
		if f.Signature.Recv() == nil {
			c.newFuture(f)
			continue
		}
		if done[shortName(f)] {
			continue
		}
		done[shortName(f)] = true
		var self *Term
		keep := func(s *State, e *Event) bool {
			return e.Kind == "store" || e.Kind == "close" || e.Kind == "once" || e.Kind == "recv" || e.Kind == "load"
		}
		c.walk(f, Opts{Keep: keep, Loads: true, Assume: func(s *State, fr *Frame) { self = fr.env[f.Params[0]] }}, nil, func(t *Trace) {
			if t.End != "return" {
				return
			}
			once, stored, closed, waited := false, false, false, false
			bad := ""
			for _, e := range t.Ev {
				switch {
				case e.Kind == "once":
					once = true
				case e.Kind == "store" && e.Field != nil && rootOf(e.Addr) == self:
					if !once {
						bad = "the value may be set more than once"
					}
					if closed {
						bad = "the value is set after the future is done"
					}
					stored = true
				case e.Kind == "close":
					if !once {
						bad = "the future may be closed twice"
					}
					if !stored {
						bad = "the future is done before it has its value"
					}
					closed = true
				case e.Kind == "recv":
					waited = true
				}
			}
			if len(f.Params) == 2 {
				if stored != closed {
					bad = "value set and future done on different paths"
				}
				if !once {
					bad = "no first value is told apart"
				}
			}
			if len(t.Ret) == 1 {
				if !waited {
					bad = "the value is returned without waiting for it"
				}
				if t.Ret[0].Op != "init" || rootOf(t.Ret[0].Args[0]) != self {
					bad = "what is returned is not the value"
				}
			}
			c.ob("future", shortName(f)+" "+n, bad == "", c.p.pos(f.Pos()), bad)
		})
	}
}
