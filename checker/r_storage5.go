package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isErr: the path knows that err is this error (a package variable).
func isErr(s *State, err *Term, name string) bool {
	return fileFact(s.facts, func(t *Term) bool {
		return isCall(t, "errors.Is") && len(t.Args) == 2 && t.Args[0] == err && isGlobal(t.Args[1], name)
	})
}

func fileFact(fs *Facts, is func(t *Term) bool) bool {
	v, ok := loadFact(fs, is)
	return ok && v
}

// isGlobal: t is the value of the package variable with this qualified name.
func isGlobal(t *Term, name string) bool {
	if t.Op != "init" || t.Args[0].Op != "global" {
		return false
	}
	g := globalVar(t.Args[0])
	return g != nil && g.Pkg() != nil && (g.Pkg().Path()+"."+g.Name() == name || g.Pkg().Path()+"."+g.Name() == modPrefix+"/"+name)
}

// invariants of the torrent and its pieces, shown by S04 (what newTorrent
// makes), by the check that nothing stores these fields later, and by the rule
// "invariant" below.
func (m *storeModel) onLoad(nblk *types.Var) func(s *State, a, v *Term) {
	pl := m.c.pieceLenFn()
	return func(s *State, a, v *Term) {
		if a.Op != "faddr" || v.Op != "init" {
			return
		}
		b := a.Args[0]
		switch a.Obj {
		case any(m.pieces):
			info := s.load(mkFaddr(b, m.info), m.info.Type())
			n := s.load(mkFaddr(info, m.infoPieces), m.infoPieces.Type())
			bf := s.load(mkFaddr(b, m.bitfield), m.bitfield.Type())
			L := polyOf(mkLen(v))
			s.fact(condEq0(polySub(L, polyOf(mkLen(n)))))
			s.fact(condLe0(polySub(L, polyScale(polyOf(mkLen(bf)), 8))))
		case any(nblk), any(m.plen), any(m.pindex), any(m.blocks):
			if b.Op != "init" || b.Args[0].Op != "iaddr" {
				return
			}
			ps, i := b.Args[0].Args[0], b.Args[0].Args[1]
			t := loadOf(ps, m.pieces)
			if t == nil {
				return
			}
			ld := func(o *Term, f *types.Var) *Term { return s.load(mkFaddr(o, f), f.Type()) }
			info := ld(t, m.info)
			L := mk("call", "", fnObj(pl), types.Typ[types.Int], info, i)
			s.fact(condEq0(polySub(polyOf(ld(b, m.plen)), polyOf(L))))
			s.fact(condEq0(polySub(polyOf(ld(b, m.pindex)), polyOf(i))))
			nb := polyScale(polyOf(ld(b, nblk)), blockLen)
			s.fact(condLe0(polySub(polyOf(L), nb)))
			if a.Obj == any(m.blocks) {
				s.imply(mkEq(v, mkNil()), false, condEq0(polySub(polyOf(mkLen(v)), polyOf(ld(b, nblk)))))
			}
		}
	}
}

func init() {
	register("S12", "Storage never crashes and loses no error", func(c *C) {
		c.rule("no-panic", 8, "no index, slice, allocation, nil dereference or explicit panic can fail on any path of the storage")
		c.rule("errors", 4, "no error met while reading or writing files is lost")
		c.rule("short", 1, "a block that could not be read as a whole is not returned as if it had been")
		c.rule("invariant", 4, "what the other rules assume of torrents and pieces is made so and kept")
		m := c.storeModel()
		nblk := c.field(storagePkg, "Piece", "numBlocks", nil)
		if !m.ok || nblk == nil {
			return
		}
		pl := c.pieceLenFn()
		opts := func(o *Opts) {
			o.Pure = func(fn *ssa.Function) bool { return fn == pl }
			o.MergeMem = false
			o.OnLoad = m.onLoad(nblk)
			o.Preserve = map[*types.Var]bool{m.infoPieces: true}
		}
		for _, f := range c.p.entryPoints(storagePkg) {
			ctor := f.Signature.Recv() == nil
			cfg := panicCfg{opts: opts, allow: func(root *ssa.Function, s *State, e *Event) bool {
				// the caller gives a valid index (P2P rules)
				return e.Name == "index" && e.Args[1].Op == "param" && isExportedFn(root) && (root.Name() == "GetPiece" || root.Name() == "ResetPiece")
			}}
			cfg.onEvent = func(s *State, e *Event) {
				if e.Kind == "store" && e.Field == m.blocks && e.Val != nil && !ctor {
					ok := e.Val.Op == "nil"
					if !ok {
						n := s.load(mkFaddr(e.Addr.Args[0], nblk), nblk.Type())
						ok = eqPoly(s, polyOf(mkLen(e.Val)), polyOf(n))
					}
					c.ob("invariant", fnName(e)+": blocks", ok, e.pos(c.p), "the slots of a piece are replaced by "+trunc(e.Val.String(), 60))
				}
			}
			c.total(f, cfg)
			c.noLostErrors("errors", f, errCfg{opts: opts, handled: func(s *State, e *Term, name string) bool {
				switch name {
				case "os.Stat", "os.ReadDir":
					return isErr(s, e, "io/fs.ErrNotExist") || isErr(s, e, "os.ErrNotExist")
				case "(*os.File).ReadAt":
					return isErr(s, e, "io.EOF")
				}
				return false
			}, exempt: func(e *Event) bool {
				if e.Name == "fmt.Sscanf" || e.Name == "strconv.Atoi" {
					return true
				}
				// nothing to lose when a file was only read
				return e.Name == "(*os.File).Close" && len(e.Args) == 1 && callName(e.Args[0]) == "os.Open"
			}})
		}
		for _, f := range c.p.entryPoints(storagePkg) {
			if ps := ints(f); f.Signature.Recv() != nil && f.Signature.Results().Len() == 2 && isByteSlice(f.Signature.Results().At(0).Type()) && len(ps) == 3 {
				c.blockWhole(m, f, ps[2])
			}
		}
		for _, v := range []*types.Var{m.pieces, m.info, m.bitfield, nblk, m.plen, m.pindex} {
			c.ob("invariant", v.Name()+": never stored after construction", c.p.immutable[v], c.p.pos(v.Pos()), "the field "+v.Name()+" is stored outside of a constructor")
		}
		c.torrentBits(m)
	})
}

// blockWhole: a block is returned without an error only if it is as long as
// what was asked for.
func (c *C) blockWhole(m *storeModel, f *ssa.Function, length *ssa.Parameter) {
	o := m.opaquePieceLen(m.opts())
	o.MergeMem = false
	o.Preserve = map[*types.Var]bool{m.infoPieces: true, m.pieceLen: true, m.files: true, m.flen: true}
	var want *Term
	o.Assume = func(s *State, fr *Frame) { want = fr.env[length] }
	c.walk(f, o, nil, func(t *Trace) {
		if t.End != "return" {
			return
		}
		s := t.Final
		if v, known := s.query(mkEq(t.Ret[1], mkNil())); known && !v {
			return
		}
		ok := eqPoly(s, lenPoly(t.Ret[0]), polyOf(want))
		for _, r := range readsOf(t) {
			if eqPoly(s, lenPoly(t.Ret[0]), polyOf(r.e.Res[0])) && eqPoly(s, lenPoly(r.buf), polyOf(want)) && full(s, r.e) {
				ok = true
			}
		}
		c.ob("short", shortName(f), ok, c.p.pos(f.Pos()), "a block of "+trunc(mkLen(t.Ret[0]).String(), 80)+" bytes is returned without an error")
	})
}

// torrentBits: a new torrent has a bitfield with a bit for every piece.
func (c *C) torrentBits(m *storeModel) {
	f := c.fn(storagePkg, "New")
	tf := c.field(storagePkg, "Storage", "Torrent", isPtrTo(storagePkg, "Torrent"))
	if f == nil || tf == nil {
		return
	}
	o := m.opaquePieceLen(m.opts())
	o.Keep = keepNone
	o.MergeMem = false
	o.Preserve = map[*types.Var]bool{m.infoPieces: true, m.bitfield: true, m.info: true, m.pieces: true}
	c.walk(f, o, nil, func(t *Trace) {
		if t.End != "return" {
			return
		}
		s := t.Final
		tor := s.load(mkFaddr(t.Ret[0], tf), tf.Type())
		ld := func(o *Term, f *types.Var) *Term { return s.load(mkFaddr(o, f), f.Type()) }
		n := polyOf(mkLen(ld(ld(tor, m.info), m.infoPieces)))
		bits := polyScale(polyOf(mkLen(ld(tor, m.bitfield))), 8)
		c.ob("invariant", "New: bitfield", entails(s.facts, polySub(n, bits)), c.p.pos(f.Pos()), "the bitfield of a new torrent has "+trunc(ld(tor, m.bitfield).String(), 60))
	})
}
