package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How the torrent is put together from its pieces.

// assembly remembers what loops do for each piece and each file.
type assembly struct {
	m     *storeModel
	l     *lists
	paths map[*Term]*Term              // reader -> the piece whose file it reads
	odd   map[*Term]string             // reader -> what else it reads
	adds  map[[2]*Term]map[string]bool // iteration -> what is wrong with what it adds to the temporary (or nothing)
	iters map[*Term]map[string]bool    // iteration -> what is wrong with files made in it (or nothing)
}

func newAssembly(m *storeModel) *assembly {
	a := &assembly{m: m}
	a.reset()
	return a
}

func (a *assembly) reset() {
	a.l = newLists()
	a.paths, a.odd, a.iters = map[*Term]*Term{}, map[*Term]string{}, map[*Term]map[string]bool{}
	a.adds = map[[2]*Term]map[string]bool{}
}

func (a *assembly) on(s *State, e *Event) {
	a.l.on(s, e)
	var r, path *Term
	switch {
	case e.Kind == "store" && a.m.pathFields[e.Field]:
		r, path = e.Addr.Args[0], e.Val
	case e.Kind == "call" && e.Name == "os.Open" && len(e.Res) > 0:
		r, path = e.Res[0], e.Args[0]
	case e.Kind == "rearrive":
		a.iteration(s, e)
		return
	default:
		return
	}
	if p, _ := a.m.piecePath(&Trace{Final: s}, &Event{Facts: s.facts}, path); p != nil {
		a.paths[r] = p
	} else {
		a.odd[r] = trunc(path.String(), 80)
	}
}

// iteration: an iteration that is followed by another makes one file.
func (a *assembly) iteration(s *State, e *Event) {
	t := &Trace{Final: s}
	first := 0
	for x := s.ev; x != nil; x = x.prev {
		t.Ev = append([]*Event{x}, t.Ev...)
	}
	for i, x := range t.Ev {
		if x == e.Entry {
			first = i + 1
		}
	}
	fl := newFlow(a.m)
	before := map[*Term]int{}
	for i, x := range t.Ev {
		if i == first {
			for k, v := range fl.out {
				before[k] = len(v)
			}
		}
		fl.step(x)
	}
	for k, v := range fl.out {
		if tempOf(k) == nil {
			continue
		}
		ik := [2]*Term{e.Iter, k}
		if a.adds[ik] == nil {
			a.adds[ik] = map[string]bool{}
		}
		nw := v[before[k]:]
		if first >= len(t.Ev) {
			nw = nil
		}
		a.adds[ik][a.onePiece(s, nw, polyOf(e.Iter))] = true
	}
	n, bad := 0, ""
	for _, x := range t.Ev[first:] {
		if x.Kind != "call" || !isWriteOp(x.Name) {
			continue
		}
		n++
		idx, src, why := a.m.fileMade(fl, t, x)
		if why == "" && !eqPoly(s, polyOf(idx), polyOf(e.Iter)) {
			why = "the file that is made is not that of the iteration"
		}
		if why == "" {
			why = a.pieceReaders(t, e, src)
			for _, y := range t.Ev[first:] {
				if y.Kind == "call" && len(y.Res) > 0 && unconv(y.Res[0]) == unconv(src) {
					why = "the pieces are read anew for each file"
				}
			}
		}
		bad += why
	}
	if a.iters[e.Iter] == nil {
		a.iters[e.Iter] = map[string]bool{}
	}
	if n != 1 {
		bad = noFile
		if n > 1 {
			bad = "an iteration makes several files"
		}
	}
	a.iters[e.Iter][bad] = true
}

// onePiece: what is added is the whole file of the piece with this index.
func (a *assembly) onePiece(s *State, added []*Term, i *Poly) string {
	if len(added) != 1 {
		return fmt.Sprintf("an iteration adds %d parts", len(added))
	}
	r, n := readFrom(added[0])
	if r == nil || n != nil {
		return "an iteration adds " + trunc(added[0].String(), 80)
	}
	p := a.paths[unconv(r)]
	if p == nil {
		return "an iteration adds what is read from " + trunc(r.String(), 80)
	}
	idx, over := elemIndex(p)
	if loadOf(over, a.m.pieces) == nil || !eqPoly(s, polyOf(idx), i) {
		return "an iteration adds the file of piece " + trunc(p.String(), 80)
	}
	return ""
}

// pieceByPiece: the loop that ended at e has copied all pieces, each whole.
func (a *assembly) pieceByPiece(t *Trace, e *Event, sink *Term, out []*Term) string {
	var np *Term
	for n := e.Facts; n != nil; n = n.prev {
		for x := range atomsOf(n.t) {
			if x.Op == "len" && loadOf(x.Args[0], a.m.pieces) != nil {
				np = x
			}
		}
	}
	if np == nil {
		return "it may be empty"
	}
	s := eventState(t, e)
	for ik, whys := range a.adds {
		it := ik[0]
		if ik[1] != sink || !mentions(e.Facts, it) {
			continue
		}
		count := polyOf(it)
		for k := range out {
			if why := a.onePiece(s, out[k:k+1], count); why != "" {
				return why
			}
			count = polyAdd(count, polyConst(1), 1)
		}
		if !entails(e.Facts, polySub(polyOf(np), count)) {
			continue
		}
		for why := range whys {
			if why != "" {
				return why
			}
		}
		return ""
	}
	return fmt.Sprintf("it is written in %d steps: %s", len(out), trunc(fmt.Sprint(out), 100))
}

const noFile = "an iteration makes no file"

// pieceReaders: reader yields the files of all pieces, in order.
func (a *assembly) pieceReaders(t *Trace, e *Event, reader *Term) string {
	if why := a.m.allPieces(a.l, t, e, reader); why != "" {
		return why
	}
	r := unconv(reader)
	li := a.l.resolve(t, e, r.Args[0])
	el := unconv(li.elem)
	p := a.paths[el]
	switch {
	case a.odd[el] != "":
		return "an element reads " + a.odd[el]
	case p == nil:
		return "what an element of the list reads is not known: " + trunc(el.String(), 80)
	}
	i, over := elemIndex(p)
	if over != li.over || !eqPoly(eventState(t, e), polyOf(i), polyOf(li.iter)) {
		return "an element reads the file of piece " + trunc(p.String(), 80) + " in iteration " + li.iter.String()
	}
	return ""
}

// readFrom: v is everything, or the first n bytes, still unread of a reader.
func readFrom(v *Term) (r, n *Term) {
	if v == nil || v.Op != "content" {
		return nil, nil
	}
	if len(v.Args) > 1 {
		n = v.Args[1]
	}
	return v.Args[0], n
}

func init() {
	register("S10", "The torrent is assembled from all pieces in order, each file in its place", func(c *C) {
		c.rule("single", 1, "a single file that is put in place holds the files of all pieces, in order, once, and nothing else")
		c.rule("file", 1, "each file of a torrent is made under its own path and gets exactly its length of bytes from where the previous file ended")
		c.rule("files", 1, "a directory is put in place only when all files of the torrent were made in it, in order, from all pieces in order")
		c.rule("mode", 2, "a torrent with a list of files becomes a directory, any other a single file")
		c.rule("reader", 2, "the reader of a piece file reads the file it was made for, and hands on what it read as it is")
		m := c.storeModel()
		if !m.ok {
			return
		}
		m.findPathFields()
		for _, f := range c.p.entryPoints(storagePkg) {
			as := newAssembly(m)
			o := m.opts()
			o.OnReset = as.reset
			keep := o.Keep
			o.Keep = func(s *State, e *Event) bool {
				return keep(s, e) || e.Kind == "store" && (m.pathFields[e.Field] || e.Addr != nil && e.Addr.Op == "iaddr") || e.Kind == "rearrive"
			}
			o.Preserve = map[*types.Var]bool{m.files: true, m.pieces: true, m.pindex: true, m.flen: true, m.fpath: true, m.info: true}
			c.walk(f, o, as.on, func(t *Trace) {
				fl := newFlow(m)
				for i, e := range t.Ev {
					fl.step(e)
					if e.Kind != "call" || e.Name != "os.Rename" || !m.isTarget(t, e, e.Args[1]) {
						continue
					}
					src := fileOf(e.Args[0])
					if src == nil {
						c.ob("single", fnName(e)+": source", false, e.pos(c.p), "what is put in place is not a temporary")
						continue
					}
					if fl.bad != "" {
						c.undecide("%s: %s", fnName(e), fl.bad)
					}
					multi, known := m.multiFile(e.Facts)
					isDir := callName(src) == "os.MkdirTemp"
					c.ob("mode", fnName(e)+": "+shortCall(e), known && multi == isDir, e.pos(c.p), "the torrent's list of files does not decide between a file and a directory here")
					if !isDir {
						out := fl.out[src]
						why := ""
						var r, n *Term
						if len(out) == 1 {
							r, n = readFrom(out[0])
						}
						if r != nil && n == nil && callName(unconv(r)) == "io.MultiReader" {
							why = as.pieceReaders(t, e, r)
						} else {
							why = as.pieceByPiece(t, e, src, out)
						}
						c.ob("single", fnName(e)+": "+shortCall(e), why == "", e.pos(c.p), why)
						continue
					}
					// a directory: one iteration per file
					why := as.filesMade(c, fl, t, i, src)
					c.ob("files", fnName(e)+": "+shortCall(e), why == "", e.pos(c.p), why)
				}
			})
		}
		c.fileReaders(m)
	})
}

// multiFile: whether the torrent is known to have a list of files.
func (m *storeModel) multiFile(fs *Facts) (multi, known bool) {
	for n := fs; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if loadOf(a, m.files) != nil {
				if v, k := queryFacts(fs, mkEq(a, mkNil())); k && v {
					return false, true
				}
			}
			if a.Op == "len" && loadOf(a.Args[0], m.files) != nil {
				if entails(fs, polySub(polyConst(1), polyOf(a))) {
					return true, true
				}
				if entails(fs, polyOf(a)) {
					return false, true
				}
			}
		}
	}
	return
}

// fileMade: the call makes the file with this index, from this source.
func (m *storeModel) fileMade(fl *flow, t *Trace, x *Event) (idx, src *Term, why string) {
	st := eventState(t, x)
	pl := m.placeOf(st, x.Args[0])
	var fobj *Term
	if pl.root == "temp" && pl.dir != nil && pl.bad == "" && len(pl.comps) == 1 {
		fobj = m.fileOfPath(pl.comps[0])
	}
	if fobj == nil {
		return nil, nil, "the file is made at " + trunc(x.Args[0].String(), 100)
	}
	idx, over := elemIndex(fobj)
	if over == nil || loadOf(over, m.files) == nil {
		return nil, nil, "the file is " + trunc(fobj.String(), 80)
	}
	out := fl.out[x.Res[0]]
	if len(out) != 1 {
		return nil, nil, fmt.Sprintf("the file is written in %d steps", len(out))
	}
	r, n := readFrom(out[0])
	if r == nil || n == nil {
		return nil, nil, "the file holds " + trunc(out[0].String(), 100)
	}
	if b := loadOf(unconv(n), m.flen); b == nil || b != fobj {
		return nil, nil, "the file gets " + trunc(n.String(), 80) + " bytes"
	}
	return idx, r, ""
}

// filesMade: at event at the directory dir has all files of the torrent.
func (a *assembly) filesMade(c *C, fl *flow, t *Trace, at int, dir *Term) string {
	m := a.m
	e := t.Ev[at]
	var nfiles *Term
	for n := e.Facts; n != nil; n = n.prev {
		for x := range atomsOf(n.t) {
			if x.Op == "len" && loadOf(x.Args[0], m.files) != nil {
				nfiles = x
			}
		}
	}
	if nfiles == nil {
		return "the files are not counted"
	}
	count := polyConst(0)
	var last, src *Term
	for _, x := range t.Ev[:at] {
		if x.Kind != "call" || !isWriteOp(x.Name) {
			continue
		}
		idx, r, why := m.fileMade(fl, t, x)
		c.ob("file", fnName(x)+": "+shortCall(x), why == "", x.pos(c.p), why)
		if why != "" {
			return "files are not made as they should be"
		}
		if src != nil && src != r || last != nil && !eqPoly(eventState(t, x), polyOf(idx), polyAdd(polyOf(last), polyConst(1), 1)) {
			return "the files are not made one after the other"
		}
		last, src = idx, r
		count = polyAdd(polyOf(idx), polyConst(1), 1)
	}
	if last == nil {
		// any number of iterations
		for it, whys := range a.iters {
			if len(whys) == 1 && whys[noFile] || !entails(e.Facts, polySub(polyOf(nfiles), polyOf(it))) || !mentions(e.Facts, it) {
				continue
			}
			count = polyOf(it)
			for why := range whys {
				c.ob("file", fnName(e)+": each file", why == "", e.pos(c.p), why)
			}
		}
	} else {
		for why := range a.iters[last] {
			c.ob("file", fnName(e)+": each file", why == "", e.pos(c.p), why)
		}
	}
	if !entails(e.Facts, polySub(polyOf(nfiles), count)) {
		return "not all files may have been made"
	}
	if src == nil {
		return ""
	}
	return a.pieceReaders(t, e, src)
}

func mentions(fs *Facts, x *Term) bool {
	for n := fs; n != nil; n = n.prev {
		if atomsOf(n.t)[x] {
			return true
		}
	}
	return false
}

// fileOfPath: the file whose path (and nothing else) this is.
func (m *storeModel) fileOfPath(x *Term) *Term {
	x = unconv(x)
	if isCall(x, "path/filepath.Join") && len(x.Args) == 1 {
		x = unconv(x.Args[0])
		if x.Op == "list" {
			if len(x.Args) != 1 {
				return nil
			}
			x = unconv(x.Args[0])
		}
	}
	if x.Op == "spread" {
		x = unconv(x.Args[0])
	}
	return loadOf(x, m.fpath)
}

// elemIndex: t is element i of a slice.
func elemIndex(t *Term) (i, slice *Term) {
	if t != nil && t.Op == "init" && t.Args[0].Op == "iaddr" {
		return t.Args[0].Args[1], t.Args[0].Args[0]
	}
	return nil, nil
}

// fileReaders: types of the package that read a file they know the path of.
func (c *C) fileReaders(m *storeModel) {
	n := 0
	for _, f := range c.p.Funcs {
		if pkgOf(f) != storagePkg || f.Signature.Recv() == nil || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		pt, ok := f.Signature.Recv().Type().(*types.Pointer)
		if !ok || !m.hasPathField(pt.Elem()) {
			continue
		}
		switch f.Name() {
		case "Read", "WriteTo":
		default:
			continue
		}
		n++
		c.fileReader(m, f)
	}
	if n == 0 {
		// pieces are read without a reader of their own
		c.ob("reader", "none", true, "", "")
		c.ob("reader", "none needed", true, "", "")
	}
}

func (m *storeModel) hasPathField(t types.Type) bool {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if m.pathFields[st.Field(i)] {
			return true
		}
	}
	return false
}

func (c *C) fileReader(m *storeModel, f *ssa.Function) {
	o := m.opts()
	keep := o.Keep
	o.Keep = func(s *State, e *Event) bool {
		return keep(s, e) || e.Kind == "store" && e.Field != nil && strings.HasSuffix(e.Field.Type().String(), "os.File")
	}
	o.MergeMem = false
	var self *Term
	o.Assume = func(s *State, fr *Frame) { self = fr.env[f.Params[0]] }
	c.walk(f, o, nil, func(t *Trace) {
		if t.End != "return" {
			return
		}
		where := c.p.pos(f.Pos())
		var do *Event
		for _, e := range t.Ev {
			switch {
			case e.Kind == "store" && e.Val != nil:
				ok := callName(e.Val) == "os.Open" && rootOf(e.Addr) == self
				path := (*Term)(nil)
				for _, x := range t.Ev {
					if x.Kind == "call" && x.Name == "os.Open" && len(x.Res) > 0 && x.Res[0] == e.Val {
						path = x.Args[0]
					}
				}
				ok = ok && path != nil && path.Op == "init" && path.Args[0].Op == "faddr" && m.pathFields[path.Args[0].Obj.(*types.Var)] && path.Args[0].Args[0] == self
				c.ob("reader", shortName(f)+": opens its file", ok, e.pos(c.p), "it opens "+trunc(fmt.Sprint(path), 80))
			case e.Kind == "call" && !e.Defer && (strings.HasPrefix(e.Name, "(*os.File).") || strings.HasPrefix(e.Name, "io.")):
				switch e.Name {
				case "(*os.File).Close", "(*os.File).Name", "(*os.File).Stat":
					continue
				}
				if do != nil {
					c.ob("reader", shortName(f)+": reads once", false, e.pos(c.p), "it reads twice")
				}
				do = e
			}
		}
		if do == nil {
			if v, known := t.Final.query(mkEq(t.Ret[1], mkNil())); !known || v {
				c.ob("reader", shortName(f)+": reads", false, where, "it may succeed without reading")
			}
			return
		}
		handle, arg := do.Args[0], (*Term)(nil)
		if len(do.Args) > 1 {
			arg = do.Args[1]
		}
		if do.Name == "io.Copy" {
			handle, arg = do.Args[1], do.Args[0]
		}
		h := unconv(handle)
		okh := callName(h) == "os.Open" || h.Op == "init" && h.Args[0].Op == "faddr" && h.Args[0].Args[0] == self
		c.ob("reader", shortName(f)+": reads its file", okh && arg != nil && unconv(arg).Op == "param" && len(do.Args) == 2, do.pos(c.p), "it reads "+trunc(do.Name, 40)+" from "+trunc(h.String(), 60))
		c.ob("reader", shortName(f)+": result", len(do.Res) == 2 && eqPoly(t.Final, polyOf(t.Ret[0]), polyOf(do.Res[0])) && t.Ret[1] == do.Res[1], do.pos(c.p), "it does not hand on what the read returned")
	})
}
