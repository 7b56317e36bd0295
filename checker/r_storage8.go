package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fileRead: bytes of a file, from an offset on, read into a buffer.
type fileRead struct {
	e         *Event
	file, buf *Term
	off       *Poly
	at        *Term
}

// readsOf: the reads of a path.
func readsOf(t *Trace) []fileRead {
	var out []fileRead
	sect := map[*Term]*Event{}
	seek := map[*Term]*Event{}
	for _, e := range t.Ev {
		if e.Kind != "call" {
			continue
		}
		switch e.Name {
		case "(*os.File).ReadAt", "(io.ReaderAt).ReadAt":
			out = append(out, fileRead{e, unconv(e.Args[0]), e.Args[1], polyOf(e.Args[2]), e.Args[2]})
		case "io.NewSectionReader":
			sect[e.Res[0]] = e
		case "(*os.File).Seek":
			seek[unconv(e.Args[0])] = e
		case "io.ReadFull", "(*os.File).Read", "io.ReadAtLeast":
			r := unconv(e.Args[0])
			if x := sect[r]; x != nil {
				out = append(out, fileRead{e, unconv(x.Args[0]), e.Args[1], polyOf(x.Args[1]), x.Args[1]})
			} else if x := seek[r]; x != nil && isZeroConst(x.Args[2]) && e.Name == "io.ReadFull" {
				out = append(out, fileRead{e, r, e.Args[1], polyOf(x.Args[1]), x.Args[1]})
			} else {
				out = append(out, fileRead{e, r, e.Args[1], polyConst(-1), r})
			}
		}
	}
	return out
}

func fieldLoad(s *State, o *Term, f *types.Var) *Term { return s.load(mkFaddr(o, f), f.Type()) }

func init() {
	register("S03", "Exactly the requested block of a complete piece is read", func(c *C) {
		c.rule("gate", 1, "a block is read only when its piece or the whole torrent is complete")
		c.rule("range", 1, "files are opened for reading only when the requested block lies within its piece")
		c.rule("size", 1, "what is returned is exactly as long as what was requested")
		c.rule("piece", 1, "from a piece file, the block is read from the file of its piece at its offset in the piece")
		c.rule("mode", 1, "from a complete torrent, a block is read as from a single file only if the torrent has no list of files")
		c.rule("single", 1, "from a complete single-file torrent, the block is read from its file at the index times the piece length plus the offset")
		m := c.storeModel()
		if !m.ok {
			return
		}
		n := 0
		for _, f := range c.p.entryPoints(storagePkg) {
			ps := ints(f)
			if f.Signature.Results().Len() != 2 || !isByteSlice(f.Signature.Results().At(0).Type()) || len(ps) != 3 {
				continue
			}
			n++
			c.blockReads(m, f, ps)
		}
		if n == 0 {
			c.undecide("no function that reads a block was found")
		}
	})
}

func (c *C) blockReads(m *storeModel, f *ssa.Function, ps []*ssa.Parameter) {
	o := m.opaquePieceLen(m.opts())
	o.MergeMem = false
	o.Preserve = map[*types.Var]bool{m.infoPieces: true, m.pieceLen: true, m.files: true, m.flen: true}
	keep := o.Keep
	o.Keep = func(s *State, e *Event) bool {
		return keep(s, e) || e.Kind == "call" && e.Name == "io.NewSectionReader"
	}
	var index, begin, length *Term
	o.Assume = func(s *State, fr *Frame) {
		index, begin, length = fr.env[ps[0]], fr.env[ps[1]], fr.env[ps[2]]
	}
	inRange := func(s *State) string {
		fs := s.facts
		if !entails(fs, polyNeg(polyOf(begin))) || !entails(fs, polyNeg(polyOf(length))) || !entails(fs, polyNeg(polyOf(index))) {
			return "an index, offset or length below zero gets here"
		}
		below := false
		for x := fs; x != nil; x = x.prev {
			for a := range atomsOf(x.t) {
				if a.Op == "len" && (loadOf(a.Args[0], m.infoPieces) != nil || loadOf(a.Args[0], m.pieces) != nil) && entails(fs, polyAdd(polySub(polyOf(index), polyOf(a)), polyConst(1), 1)) {
					below = true
				}
			}
		}
		if !below {
			return "an index beyond the last piece gets here"
		}
		for _, L := range m.lengthsOf(s, index) {
			if entails(fs, polySub(polyAdd(polyOf(begin), polyOf(length), 1), polyOf(L))) {
				return ""
			}
		}
		return "a block that ends beyond its piece gets here"
	}
	c.walk(f, o, func(s *State, e *Event) {
		if e.Kind == "call" && e.Name == "os.Open" {
			why := inRange(s)
			c.ob("range", fnName(e)+": "+shortCall(e), why == "", e.pos(c.p), why)
		}
	}, func(t *Trace) {
		if t.End != "return" {
			return
		}
		s := t.Final
		if v, known := s.query(mkEq(t.Ret[1], mkNil())); known && !v {
			return
		}
		where := c.p.pos(f.Pos())
		reads := readsOf(t)
		var file *Event
		for _, e := range t.Ev {
			if e.Kind == "call" && e.Name == "os.Open" {
				file = e
			}
		}
		// complete?
		tor, _ := loadFact(s.facts, func(a *Term) bool { return loadOf(a, m.coalT) != nil })
		pieceDone, _ := loadFact(s.facts, func(a *Term) bool {
			b := loadOf(a, m.coalP)
			return b != nil && m.isPiece(s, b, index)
		})
		c.ob("gate", shortName(f), tor || pieceDone, where, "a block is read although neither its piece nor the torrent is known to be complete")
		sized := eqPoly(s, lenPoly(t.Ret[0]), polyOf(length))
		multi := false
		if mf, known := m.multiFile(s.facts); known && mf && tor {
			multi = true
		}
		for _, r := range reads {
			if e := r.e; eqPoly(s, lenPoly(t.Ret[0]), polyOf(e.Res[0])) && sameBuf(t.Ret[0], r.buf) && eqPoly(s, lenPoly(r.buf), polyOf(length)) && full(s, e) {
				sized = true
			}
		}
		c.ob("size", shortName(f), sized, where, "the length of what is returned is "+trunc(mkLen(t.Ret[0]).String(), 80))
		if tor {
			_, known := m.multiFile(s.facts)
			c.ob("mode", shortName(f), known, where, "the torrent's list of files does not decide between a file and a directory here")
		}
		if multi {
			return // S13
		}
		rule := "single"
		if !tor {
			rule = "piece"
		}
		if len(reads) != 1 || file == nil || reads[0].file != unconv(file.Res[0]) {
			c.ob(rule, shortName(f), false, where, fmt.Sprintf("the block is read in %d steps", len(reads)))
			return
		}
		e, off := reads[0].e, reads[0].off
		why := ""
		if rule == "piece" {
			p, _ := m.piecePath(t, file, file.Args[0])
			if p == nil || !m.isPiece(s, p, index) {
				why = "it is read from " + trunc(file.Args[0].String(), 80)
			} else if !eqPoly(s, off, polyOf(begin)) {
				why = "it is read at " + trunc(reads[0].at.String(), 100)
			}
		} else {
			if !m.isTarget(t, file, file.Args[0]) {
				why = "it is read from " + trunc(file.Args[0].String(), 80)
			} else if !m.atOffset(s, off, index, begin) {
				why = "it is read at " + trunc(reads[0].at.String(), 100)
			}
		}
		if why == "" && !(sameBuf(t.Ret[0], reads[0].buf) && full(s, e)) {
			why = "what is returned may not have been read as a whole"
		}
		c.ob(rule, fnName(e)+": "+shortCall(e), why == "", e.pos(c.p), why)
	})
}

// full: the read is known to have filled its buffer.
func full(s *State, e *Event) bool {
	if v, known := s.query(mkEq(e.Res[1], mkNil())); known && v {
		return true
	}
	return entails(s.facts, polySub(lenPoly(e.Args[1]), polyOf(e.Res[0])))
}

// sameBuf: both begin at the start of the same buffer.
func sameBuf(a, b *Term) bool {
	base := func(t *Term) *Term {
		t = unconv(t)
		for t.Op == "slice" && (t.Args[1] == nil || isZeroConst(t.Args[1])) {
			t = unconv(t.Args[0])
		}
		return t
	}
	return base(a) == base(b)
}

func isZeroConst(t *Term) bool {
	n, ok := t.isIntConst()
	return ok && n == 0
}

func polyNeg(p *Poly) *Poly { return polySub(polyConst(0), p) }

// atOffset: off is index*PieceLength + begin.
func (m *storeModel) atOffset(s *State, off *Poly, index, begin *Term) bool {
	d := polySub(off, polyOf(begin))
	if len(d.Ms) != 1 || d.C != 0 || d.Ms[0].K != 1 || len(d.Ms[0].Atoms) != 2 {
		// index zero
		return false
	}
	a := d.Ms[0].Atoms
	return a[0] == index && loadOf(a[1], m.pieceLen) != nil || a[1] == index && loadOf(a[0], m.pieceLen) != nil
}

func init() {
	register("S13", "A block that spans files is put together from the right parts", func(c *C) {
		c.rule("walk", 1, "files are gone through in order, and the position moves on by exactly the length of each file")
		c.rule("part", 1, "the part of a file is read from the file's own path, from where the block begins in it (or from its beginning), to where the block was filled so far")
		c.rule("skip", 1, "a file is skipped only if the block has no byte in it")
		c.rule("filled", 1, "the block is returned only when it was filled")
		c.rule("given-up", 1, "reading is given up only because something failed, all files were gone through, or a file is shorter than it should be")
		m := c.storeModel()
		tf := c.field(storagePkg, "Storage", "Torrent", isPtrTo(storagePkg, "Torrent"))
		if !m.ok || tf == nil {
			return
		}
		for _, f := range c.p.entryPoints(storagePkg) {
			ps := ints(f)
			if f.Signature.Results().Len() != 2 || !isByteSlice(f.Signature.Results().At(0).Type()) || len(ps) != 3 || f.Signature.Recv() == nil {
				continue
			}
			c.multiReads(m, tf, f, ps)
		}
	})
}

func (c *C) multiReads(m *storeModel, tf *types.Var, f *ssa.Function, ps []*ssa.Parameter) {
	o := m.opaquePieceLen(m.opts())
	o.MergeMem = false
	o.Preserve = map[*types.Var]bool{m.infoPieces: true, m.pieceLen: true, m.files: true, m.flen: true, m.fpath: true, m.name: true}
	keep := o.Keep
	o.Keep = func(s *State, e *Event) bool {
		return keep(s, e) || e.Kind == "call" && e.Name == "io.NewSectionReader" || e.Kind == "rearrive"
	}
	var index, begin, length, recv *Term
	o.Assume = func(s *State, fr *Frame) {
		recv, index, begin, length = fr.env[f.Params[0]], fr.env[ps[0]], fr.env[ps[1]], fr.env[ps[2]]
	}
	startOf := func(s *State) *Poly {
		pl := fieldLoad(s, fieldLoad(s, fieldLoad(s, recv, tf), m.info), m.pieceLen)
		return polyAdd(polyOf(mkMul(index, pl, types.Typ[types.Int])), polyOf(begin), 1)
	}
	// the position before each file and how much of the block is filled
	var pos, fill map[*Term]bool
	type walkOver struct{ iter, over, size *Term }
	var walks map[*Term]walkOver
	var late []func()
	reset := func() {
		pos, fill = map[*Term]bool{}, map[*Term]bool{}
		walks, late = map[*Term]walkOver{}, nil
	}
	reset()
	o.OnReset = reset
	lowOf := func(buf *Term, left *Poly) (*Term, bool) {
		buf = unconv(buf)
		if buf.Op != "slice" || buf.Args[1] == nil {
			return nil, false
		}
		hi := buf.Args[2]
		low := buf.Args[1]
		if hi == nil || hi.Op == "len" {
			return low, true
		}
		// exactly what the file has, or what the block still needs
		want, need := polySub(polyOf(hi), polyOf(low)), polySub(polyOf(length), polyOf(low))
		if len(want.Ms) == 1 && want.C == 0 && want.Ms[0].K == 1 && len(want.Ms[0].Atoms) == 1 {
			if m := want.Ms[0].Atoms[0]; m.Op == "min" && len(m.Args) == 2 {
				for i := range 2 {
					if samePoly(polyOf(unconv(m.Args[i])), left) && samePoly(polyOf(unconv(m.Args[1-i])), need) {
						return low, true
					}
				}
			}
		}
		return low, false
	}
	c.walk(f, o, func(s *State, e *Event) {
		if e.Kind != "rearrive" {
			return
		}
		t := &Trace{Final: s}
		first := 0
		for x := s.ev; x != nil; x = x.prev {
			t.Ev = append([]*Event{x}, t.Ev...)
		}
		for i, x := range t.Ev {
			if x == e.Entry {
				first = i + 1
			}
		}
		// is this the loop over the files?
		var T *Term
		var F *Term
		var moves []*Term
		for ph, g := range e.Gen {
			if g == nil || g.Op != "phi" || e.Next[ph] == nil {
				continue
			}
			d := polySub(polyOf(e.Next[ph]), polyOf(g))
			for _, mo := range d.Ms {
				for _, a := range mo.Atoms {
					if loadOf(a, m.flen) != nil {
						moves = append(moves, g)
						if len(d.Ms) == 1 && d.C == 0 && mo.K == 1 && len(mo.Atoms) == 1 && isZeroConst(unconv(g.Args[0])) {
							T, F = g, a
						}
					}
				}
			}
		}
		all := readsOf(&Trace{Ev: t.Ev[first:]})
		if len(moves) == 0 && len(all) == 0 {
			return
		}
		site := fnName(e) + ": files"
		if T == nil {
			c.ob("walk", site, false, e.pos(c.p), "the position does not move on by the length of each file")
			return
		}
		fobj := loadOf(F, m.flen)
		i, over := elemIndex(fobj)
		if over == nil || loadOf(over, m.files) == nil || !eqPoly(s, polyOf(i), polyOf(e.Iter)) {
			c.ob("walk", site, false, e.pos(c.p), "the position moves on by "+trunc(F.String(), 80))
			return
		}
		c.ob("walk", site, true, e.pos(c.p), "")
		pos[T] = true
		walks[T] = walkOver{e.Iter, over, F}
		start := startOf(s)
		end := polyAdd(start, polyOf(length), 1)
		if len(all) == 0 {
			after := polyAdd(polyOf(T), polyOf(F), 1)
			ok := entails(s.facts, polySub(after, start)) || entails(s.facts, polySub(end, polyOf(T))) || entails(s.facts, polyOf(F))
			c.ob("skip", site, ok, e.pos(c.p), "a file is skipped that may hold a part of the block")
			for ph, g := range e.Gen {
				if fill[g] && !eqPoly(s, polyOf(e.Next[ph]), polyOf(g)) {
					c.ob("part", site, false, e.pos(c.p), "a skipped file counts as filled")
				}
			}
			return
		}
		if len(all) > 1 {
			c.ob("part", site, false, e.pos(c.p), "a file is read more than once")
			return
		}
		r := all[0]
		why := ""
		var path *Term
		for _, x := range t.Ev[first:] {
			if x.Kind == "call" && x.Name == "os.Open" && unconv(x.Res[0]) == r.file {
				path = x.Args[0]
				pl := m.placeOf(eventState(t, x), path)
				if m.isTarget(t, x, path) && entails(x.Facts, lenPoly(fieldLoad(s, fobj, m.fpath))) {
					continue // a file without a path: refused at start
				}
				if pl.bad != "" || pl.root != "target" || len(pl.comps) != 2 || loadOf(pl.comps[0], m.name) == nil || m.fileOfPath(pl.comps[1]) != fobj {
					why = "it is read from " + trunc(path.String(), 100)
				}
			}
		}
		if path == nil {
			why = "the file that is read was not opened for it"
		}
		low, open := lowOf(r.buf, polySub(polyOf(F), r.off))
		rs := eventState(t, r.e)
		if low == nil || low.Op != "phi" || !open {
			why = "it is read into " + trunc(r.buf.String(), 80)
		} else {
			if !isZeroConst(low.Args[0]) {
				why = "the block is not filled from its beginning"
			}
			fill[low] = true
			var next *Term
			for ph, g := range e.Gen {
				if g == low {
					next = e.Next[ph]
				}
			}
			if next == nil || !eqPoly(s, polyOf(next), polyAdd(polyOf(low), polyOf(r.e.Res[0]), 1)) {
				why = "the filled part does not grow by what was read"
			}
			atBegin := entails(rs.facts, polySub(start, polyOf(T))) && eqPoly(rs, r.off, polyConst(0))
			inside := entails(rs.facts, polySub(polyOf(T), start)) && eqPoly(rs, r.off, polySub(start, polyOf(T)))
			later := entails(rs.facts, polySub(polySub(start, polyOf(T)), r.off)) && entails(rs.facts, polyNeg(r.off)) && isMax(r.at, polySub(start, polyOf(T)))
			if why == "" && !atBegin && !inside && !later {
				why = "it is read from offset " + trunc(r.at.String(), 80)
			}
		}
		c.ob("part", fnName(r.e)+": "+shortCall(r.e), why == "", r.e.pos(c.p), why)
	}, func(t *Trace) {
		s := t.Final
		if t.End != "return" {
			return
		}
		if mf, known := m.multiFile(s.facts); !known || !mf {
			return
		}
		if tor, _ := loadFact(s.facts, func(a *Term) bool { return loadOf(a, m.coalT) != nil }); !tor {
			return
		}
		where := c.p.pos(f.Pos())
		v, known := s.query(mkEq(t.Ret[1], mkNil()))
		if !known || v {
			ok := false
			for g := range fill {
				if entails(s.facts, polySub(polyOf(length), polyOf(g))) {
					ok = true
				}
				for _, r := range readsOf(t) {
					if entails(s.facts, polySub(polyOf(length), polyAdd(polyOf(g), polyOf(r.e.Res[0]), 1))) {
						ok = true
					}
				}
			}
			c.ob("filled", shortName(f), ok, where, "a block is returned that may not have been filled")
			return
		}
		rs := readsOf(t)
		if len(rs) == 0 {
			return // refused before anything was read
		}
		for i, x := range t.Ev {
			if x == rs[len(rs)-1].e {
				for _, y := range t.Ev[i:] {
					if y.Kind == "rearrive" {
						return // the loop went on, and ended by its own test
					}
				}
			}
		}
		late = append(late, func() {
			end := polyAdd(startOf(s), polyOf(length), 1)
			for T, w := range walks {
				inFile := polyAdd(polyAdd(polyOf(w.iter), polyOf(mkLen(w.over)), -1), polyConst(1), 1)
				inBlock := polyAdd(polySub(polyOf(T), end), polyConst(1), 1)
				if !entails(s.facts, inFile) || !entails(s.facts, inBlock) {
					continue
				}
				c.ob("given-up", shortName(f), madeByCallee(s, t) || shortFile(s, t, w.size), where, "reading ends with an error of its own making although there are more files and the block goes on")
			}
		})
	})
	for _, do := range late {
		do()
	}
}

// madeByCallee: something that was called reported an error.
func madeByCallee(s *State, t *Trace) bool {
	for _, e := range t.Ev {
		if e.Kind != "call" {
			continue
		}
		for _, r := range e.Res {
			if r.T != nil && isErrorType(r.T) && !strings.HasPrefix(e.Name, "errors.") && !strings.HasPrefix(e.Name, "fmt.") {
				if v, known := s.query(mkEq(r, mkNil())); known && !v {
					return true
				}
			}
		}
	}
	return false
}

// shortFile: less was read than the file has from there on.
func shortFile(s *State, t *Trace, size *Term) bool {
	for _, r := range readsOf(t) {
		less := polyAdd(polySub(polyAdd(polyOf(r.e.Res[0]), r.off, 1), polyOf(size)), polyConst(1), 1)
		if entails(s.facts, less) {
			return true
		}
	}
	return false
}

// isMax: t is zero or p, whichever is greater.
func isMax(t *Term, p *Poly) bool {
	t = unconv(t)
	if t.Op != "max" || len(t.Args) != 2 {
		return false
	}
	for i := range 2 {
		d := polySub(polyOf(unconv(t.Args[i])), p)
		if isZeroConst(unconv(t.Args[1-i])) && len(d.Ms) == 0 && d.C == 0 {
			return true
		}
	}
	return false
}

func samePoly(a, b *Poly) bool {
	d := polySub(a, b)
	return len(d.Ms) == 0 && d.C == 0
}
