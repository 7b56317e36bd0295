package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flow follows bytes from readers to writers along one history.
type flow struct {
	m     *storeModel
	out   map[*Term][]*Term // sink -> what was written to it, in order
	errs  map[*Term][]*Term // sink -> errors of the writing calls
	used  map[*Term]int     // reader -> how often it was read from
	tee   map[*Term][2]*Term
	multi map[*Term][]*Term
	sums  map[*Term][]*Term // digest value -> hashed content
	held  map[*Term][]*Term // content of a buffer when it was asked for
	bad   string
}

func newFlow(m *storeModel) *flow {
	return &flow{m: m, out: map[*Term][]*Term{}, errs: map[*Term][]*Term{}, used: map[*Term]int{}, tee: map[*Term][2]*Term{}, multi: map[*Term][]*Term{}, sums: map[*Term][]*Term{}, held: map[*Term][]*Term{}}
}

func (f *flow) sinks(w *Term) []*Term {
	w = unconv(w)
	if l, ok := f.multi[w]; ok {
		var out []*Term
		for _, x := range l {
			out = append(out, f.sinks(x)...)
		}
		return out
	}
	return []*Term{w}
}

// consume: reading r (n bytes, or all) yields this content.
func (f *flow) consume(r, n *Term) (content *Term, also []*Term) {
	r = unconv(r)
	if t, ok := f.tee[r]; ok {
		c, a := f.consume(t[0], n)
		return c, append(a, f.sinks(t[1])...)
	}
	k := f.used[r]
	f.used[r]++
	content = mk("content", fmt.Sprint(k), nil, nil, r)
	if n != nil {
		content = mk("content", fmt.Sprint(k), nil, nil, r, n)
	}
	return
}

func (f *flow) write(w, v, err *Term) {
	vs := []*Term{unconv(v)}
	if h, ok := f.held[vs[0]]; ok {
		vs = h
	}
	for _, s := range f.sinks(w) {
		f.out[s] = append(f.out[s], vs...)
		if err != nil {
			f.errs[s] = append(f.errs[s], err)
		}
	}
}

// step advances the flow over an event.
func (f *flow) step(e *Event) {
	if e.Kind != "call" {
		return
	}
	n := e.Name
	err := lastRes(e)
	if err != nil && !isErrorType(err.T) {
		err = nil
	}
	a := e.Args
	copyTo := func(w, r, n *Term) {
		c, also := f.consume(r, n)
		f.write(w, c, err)
		for _, s := range also {
			f.out[s] = append(f.out[s], c)
		}
	}
	switch {
	case n == "io.TeeReader":
		f.tee[unconv(e.Res[0])] = [2]*Term{a[0], a[1]}
	case n == "io.MultiWriter":
		for _, x := range a {
			if x.Op == "list" {
				f.multi[unconv(e.Res[0])] = append(f.multi[unconv(e.Res[0])], x.Args...)
			} else {
				f.bad = "writers that are not known"
			}
		}
	case n == "io.Copy" || n == "io.CopyBuffer":
		copyTo(a[0], a[1], nil)
	case n == "io.CopyN":
		copyTo(a[0], a[1], a[2])
	case n == "(*os.File).ReadFrom":
		copyTo(a[0], a[1], nil)
	case strings.HasSuffix(n, ").WriteTo"):
		copyTo(a[1], a[0], nil)
	case n == "os.WriteFile":
		f.write(a[0], a[1], err)
	case n == "io.WriteString" || strings.HasSuffix(n, ").Write") || strings.HasSuffix(n, ").WriteString"):
		f.write(a[0], a[1], err)
	case strings.HasSuffix(n, ").Truncate") || strings.HasSuffix(n, ").Seek") || strings.HasSuffix(n, ").WriteAt") || strings.HasSuffix(n, ").Reset"):
		if len(a) > 0 {
			f.write(a[0], mk("odd", uniqS(), nil, nil), err)
		}
	case n == "(hash.Hash).Sum":
		d := unconv(a[0])
		for _, x := range concatParts(e.Res[0]) {
			if x.Op == "sum" {
				f.sums[x] = append([]*Term{}, f.out[d]...)
			}
		}
	case n == "crypto/sha1.Sum":
		f.sums[e.Res[0]] = []*Term{unconv(a[0])}
		if h, ok := f.held[unconv(a[0])]; ok {
			f.sums[e.Res[0]] = h
		}
	case n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).String":
		f.held[unconv(e.Res[0])] = append([]*Term{}, f.out[unconv(a[0])]...)
	case strings.HasPrefix(n, "(*os.File).") && !strings.HasPrefix(n, "(*os.File).Read"), strings.HasPrefix(n, "(*bytes.Buffer)."):
		switch n[strings.Index(n, ").")+2:] {
		case "Close", "Name", "Sync", "Stat", "Chmod", "Fd", "Len", "Cap", "Grow":
		default:
			f.write(a[0], mk("odd", uniqS(), nil, nil), err)
		}
	}
}

func sameList(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// fileOf: the temporary whose name this path is.
func fileOf(path *Term) *Term {
	path = unconv(path)
	if isCall(path, "(*os.File).Name") {
		return tempOf(path.Args[0])
	}
	return tempOf(path)
}

// piecePath: the path is that of the piece p, and nothing else decides it.
func (m *storeModel) piecePath(t *Trace, e *Event, path *Term) (p *Term, shape string) {
	pl := m.placeOf(eventState(t, e), path)
	if pl.bad != "" || pl.root != "work" || len(pl.comps) == 0 {
		return nil, ""
	}
	last := pl.comps[len(pl.comps)-1]
	for a := range atomsOf(last) {
		if b := loadOf(a, m.pindex); b != nil {
			return b, m.shape(path, nil)
		}
	}
	// a directory entry that is named like the piece
	for n := e.Facts; n != nil; n = n.prev {
		if !n.val || n.t.Op != "eq" {
			continue
		}
		for i, x := range n.t.Args {
			if unconv(x) != unconv(last) {
				continue
			}
			for a := range atomsOf(n.t.Args[1-i]) {
				if b := loadOf(a, m.pindex); b != nil {
					return b, m.shape(path, map[*Term]string{last: m.shape(n.t.Args[1-i], nil)})
				}
			}
		}
	}
	return nil, ""
}

// entryOf: the piece whose file name a directory entry was found to have.
func (m *storeModel) entryOf(fs *Facts, entry *Term) *Term {
	for _, y := range equalPairs(fs) {
		if isCall(unconv(y[0]), "(io/fs.DirEntry).Name") && unconv(unconv(y[0]).Args[0]) == unconv(entry) {
			for a := range atomsOf(y[1]) {
				if b := loadOf(a, m.pindex); b != nil {
					return b
				}
			}
		}
	}
	return nil
}

// isTarget: the path is the torrent's own below the target directory.
func (m *storeModel) isTarget(t *Trace, e *Event, path *Term) bool {
	pl := m.placeOf(eventState(t, e), path)
	if pl.bad != "" || pl.root != "target" || len(pl.comps) != 1 {
		return false
	}
	return loadOf(pl.comps[0], m.name) != nil
}

func sameObj(a, b *Term) bool {
	return a == b || a != nil && b != nil && stripVer(a) == stripVer(b)
}

// stripVer: the term without versions of loads.
func stripVer(t *Term) *Term {
	if t == nil {
		return nil
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = stripVer(a)
		same = same && args[i] == a
	}
	s := t.S
	if t.Op == "init" && s != "" {
		s, same = "", false
	}
	if same {
		return t
	}
	if t.P != nil {
		return t
	}
	return mk(t.Op, s, t.Obj, t.T, args...)
}

// verified: why the piece's data on disk is known to be right at event e.
func (m *storeModel) verified(t *Trace, at int, p *Term) (string, bool) {
	e := t.Ev[at]
	fl := newFlow(m)
	best := "no file of this piece was checked before"
	for _, x := range t.Ev[:at] {
		fl.step(x)
		if x.Kind != "call" {
			continue
		}
		switch x.Name {
		case "os.Rename":
			b, _ := m.piecePath(t, x, x.Args[1])
			if b == nil || !sameObj(b, p) {
				continue
			}
			if !isNilAt(t, e, lastRes(x)) {
				best = "the file may not have been put in place"
				continue
			}
			f := fileOf(x.Args[0])
			if f == nil {
				best = "what is put in place is not a temporary file of this operation"
				continue
			}
			ok := true
			for _, er := range fl.errs[f] {
				if !isNilAt(t, x, er) {
					ok = false
				}
			}
			if !ok {
				best = "the file is put in place although writing it may have failed"
				continue
			}
			if fl.bad != "" {
				best = fl.bad
				continue
			}
			hashed := false
			for sum, content := range fl.sums {
				eq := false
				for _, y := range equalPairs(x.Facts) {
					if b := m.shaOf(y[1]); b != nil && sameObj(b, p) && sumOf(y[0]) == sum {
						eq = true
					}
				}
				if !eq {
					continue
				}
				hashed = true
				if sameList(content, fl.out[f]) {
					return "", true
				}
				best = "what was hashed (" + trunc(fmt.Sprint(content), 120) + ") is not what was written (" + trunc(fmt.Sprint(fl.out[f]), 120) + ")"
			}
			if !hashed {
				best = "the data was not found to have the piece's SHA-1 before it was put in place"
			}
		case "(io/fs.DirEntry).Info":
			if !isNilAt(t, e, lastRes(x)) {
				continue
			}
			b := m.entryOf(e.Facts, x.Args[0])
			if b == nil || !sameObj(b, p) {
				continue
			}
			best = "a piece file counts although its size may differ from the piece's length"
			if m.sizeFact(e, x.Res[0], p) {
				return "", true
			}
		case "os.Stat", "os.Lstat":
			if !isNilAt(t, e, lastRes(x)) {
				continue
			}
			if m.isTarget(t, x, x.Args[0]) {
				return "", true // the complete torrent is there
			}
			b, _ := m.piecePath(t, e, x.Args[0])
			if b == nil || !sameObj(b, p) {
				continue
			}
			best = "a piece file counts although its size may differ from the piece's length"
			if m.sizeFact(e, x.Res[0], p) {
				return "", true
			}
		}
	}
	return best, false
}

// sumOf: the digest value inside a term (slices, arrays and conversions of it).
func sumOf(t *Term) *Term {
	for n := 0; t != nil && n < 12; n++ {
		switch t.Op {
		case "conv", "iface", "arr", "arrof", "toarr", "init":
			t = t.Args[0]
		case "slice":
			if t.Args[1] != nil || t.Args[2] != nil {
				return t
			}
			t = t.Args[0]
		case "concat":
			var full []*Term
			for _, a := range t.Args {
				if a.Op != "nil" && (a.Op != "list" || len(a.Args) > 0) {
					full = append(full, a)
				}
			}
			if len(full) != 1 {
				return t
			}
			t = full[0]
		default:
			return t
		}
	}
	return t
}

// equalPairs: what is known to be equal.
func equalPairs(fs *Facts) [][2]*Term {
	var out [][2]*Term
	for n := fs; n != nil; n = n.prev {
		if !n.val || len(n.t.Args) != 2 {
			continue
		}
		a, b := n.t.Args[0], n.t.Args[1]
		switch {
		case n.t.Op == "eq":
			out = append(out, [2]*Term{a, b}, [2]*Term{b, a})
		case n.t.Op == "app" && (n.t.S == "bytes.Equal" || n.t.S == "slices.Equal"):
			out = append(out, [2]*Term{sumOf(a), sumOf(b)}, [2]*Term{sumOf(b), sumOf(a)})
		}
	}
	return out
}

// sizeFact: the size of the file is known to be the length of piece p.
func (m *storeModel) sizeFact(e *Event, st, p *Term) bool {
	for n := e.Facts; n != nil; n = n.prev {
		var size, length bool
		for a := range atomsOf(n.t) {
			if isCall(a, "(io/fs.FileInfo).Size") && unconv(a.Args[0]) == unconv(st) {
				size = true
			}
			if b := loadOf(a, m.plen); b != nil && sameObj(b, p) {
				length = true
			}
		}
		if size && length && n.val && n.t.Op != "le0" {
			if n.t.Op == "eq0" || n.t.Op == "eq" {
				return true
			}
		}
	}
	return false
}

// shaOf: t is (the bytes of) the SHA-1 of a piece.
func (m *storeModel) shaOf(t *Term) *Term {
	for t != nil {
		if b := loadOf(t, m.sha); b != nil {
			return b
		}
		if t.Op == "faddr" && t.Obj == any(m.sha) {
			return t.Args[0]
		}
		if t.Op != "arr" && t.Op != "slice" && t.Op != "conv" || t.Op == "slice" && (t.Args[1] != nil || t.Args[2] != nil) {
			return nil
		}
		t = t.Args[0]
	}
	return nil
}

// assembled: what was put into temporary f is all pieces in order.
func (m *storeModel) allPieces(l *lists, t *Trace, e *Event, reader *Term) string {
	r := unconv(reader)
	if callName(r) != "io.MultiReader" {
		return "it is not the concatenation of the pieces: " + trunc(r.String(), 80)
	}
	if len(r.Args) != 1 {
		return "a concatenation that is not understood"
	}
	li := l.resolve(t, e, r.Args[0])
	if li.bad != "" {
		return li.bad
	}
	if loadOf(li.over, m.pieces) == nil {
		return "it is not made from the torrent's pieces but from " + trunc(li.over.String(), 80)
	}
	return ""
}

// ---- lists built element by element over a range

type listInfo struct {
	over *Term // the slice that is ranged over
	elem *Term // element, in terms of the iteration
	iter *Term
	bad  string
}

// lists remembers how loops extend the lists they carry along.
type lists struct {
	next map[*Term][]*Term // loop-carried value -> values handed on
	iter map[*Term]*Term
}

func newLists() *lists {
	return &lists{map[*Term][]*Term{}, map[*Term]*Term{}}
}

func (l *lists) reset() { *l = *newLists() }

func (l *lists) on(s *State, e *Event) {
	if e.Kind != "rearrive" {
		return
	}
	for ph, g := range e.Gen {
		if g != nil && g.Op == "phi" && e.Next[ph] != nil {
			l.next[g] = append(l.next[g], e.Next[ph])
			l.iter[g] = e.Iter
		}
	}
	for g, v := range e.Mem {
		l.next[g] = append(l.next[g], v)
		l.iter[g] = e.Iter
	}
}

// grows: one more element than phi, which is returned.
func grows(t, phi *Term) *Term {
	if t == nil || t.Op != "concat" || len(t.Args) != 2 || t.Args[0] != phi {
		return nil
	}
	if x := t.Args[1]; x.Op == "list" && len(x.Args) == 1 {
		return x.Args[0]
	}
	return nil
}

// resolve: the list is complete at e: one element for each of the slice's.
func (l *lists) resolve(t *Trace, e *Event, list *Term) (r listInfo) {
	phi, one := list, 0
	if list.Op == "concat" && len(list.Args) == 2 {
		phi, one = list.Args[0], 1
	}
	if mksl := list; mksl.Op == "mkslice" || mksl.Op == "slice" {
		return l.resolveStored(t, e, list)
	}
	if phi.Op == "nil" || phi.Op == "zero" || phi.Op == "list" && len(phi.Args) == 0 {
		r.bad = "the list may be empty"
		return
	}
	if phi.Op != "phi" && phi.Op != "mphi" {
		r.bad = "the list is " + trunc(list.String(), 80)
		return
	}
	if n, ok := mkLen(phi.Args[0]).isIntConst(); !ok || n != 0 {
		r.bad = "the list does not start empty"
		return
	}
	if len(l.next[phi]) == 0 {
		r.bad = "no iteration extends the list"
		return
	}
	for _, n := range l.next[phi] {
		g := grows(n, phi)
		if g == nil {
			r.bad = "an iteration does not add exactly one element: " + trunc(n.String(), 80)
			return
		}
		if r.elem == nil {
			r.elem = g
		}
	}
	r.iter = l.iter[phi]
	l.over(t, e, &r, polyAdd(polyOf(r.iter), polyConst(int64(one)), 1))
	return
}

// over finds the slice whose elements the iterations use, all of which have
// been seen when count iterations are over.
func (l *lists) over(t *Trace, e *Event, r *listInfo, count *Poly) {
	if r.iter == nil {
		r.bad = "the loop is not understood"
		return
	}
	for n := e.Facts; n != nil; n = n.prev {
		for a := range atomsOf(n.t) {
			if a.Op != "len" {
				continue
			}
			if entails(e.Facts, polySub(lenPoly(a.Args[0]), count)) {
				if r.over == nil || dependsOnElem(r.elem, a.Args[0], r.iter) {
					r.over = a.Args[0]
				}
			}
		}
	}
	if r.over == nil {
		r.bad = "the loop may end before all elements are added"
	}
}

func dependsOnElem(t, slice, iter *Term) bool {
	for a := range atomsOf(t) {
		if (a.Op == "iaddr" || a.Op == "lookup") && a.Args[0] == slice {
			return true
		}
	}
	return false
}

func (l *lists) resolveStored(t *Trace, e *Event, list *Term) (r listInfo) {
	base := list
	if list.Op == "slice" {
		if list.Args[1] != nil || list.Args[2] != nil {
			r.bad = "part of a list"
			return
		}
		base = list.Args[0]
	}
	var next int64
	for _, x := range t.Ev {
		if x == e {
			break
		}
		if x.Kind == "store" && x.Addr != nil && x.Addr.Op == "iaddr" && x.Addr.Args[0] == base {
			i := x.Addr.Args[1]
			for a := range atomsOf(i) {
				if a.Op == "iter" {
					r.iter = a
				}
			}
			if r.iter == nil {
				r.bad = "an element is stored at a fixed position"
				return
			}
			// iterations that follow each other within the history
			d := polySub(polyOf(i), polyOf(r.iter))
			if len(d.Ms) != 0 || d.C != next {
				r.bad = "elements are not stored at their own position but at " + i.String()
				return
			}
			next++
			r.elem = x.Val
		}
	}
	if r.elem == nil {
		r.bad = "the list may not be filled"
		return
	}
	l.over(t, e, &r, polyAdd(polyOf(r.iter), polyConst(next), 1))
	if r.bad == "" && !eqPoly(eventState(t, e), lenPoly(list), lenPoly(r.over)) {
		r.bad = "the list is not as long as what it is made from"
	}
	return
}

var _ = types.Typ
var _ ssa.Value

func init() {
	register("S01", "A piece counts only after its data was verified", func(c *C) {
		c.rule("verified", 2, "a piece is marked complete only after its SHA-1 was found equal for the bytes that were written to the file put in its place, or (at start) after a file of its name and length, or the complete torrent, was found")
		c.rule("torrent-complete", 2, "the torrent is marked complete only after its file or directory was put in place or found there")
		m := c.storeModel()
		if !m.ok {
			return
		}
		for _, f := range c.p.entryPoints(storagePkg) {
			c.walk(f, m.opts(), nil, func(t *Trace) {
				for i, e := range t.Ev {
					if e.Kind != "store" || e.Val == nil {
						continue
					}
					if b, ok := e.Val.isBoolConst(); ok && !b {
						continue
					}
					switch e.Field {
					case m.coalP:
						why, ok := m.verified(t, i, e.Addr.Args[0])
						c.ob("verified", fmt.Sprintf("%s marks a piece complete, called from %s", fnName(e), shortName(f)), ok, e.pos(c.p), why)
					case m.coalT:
						why, ok := m.published(t, i)
						c.ob("torrent-complete", fmt.Sprintf("%s marks the torrent complete, called from %s", fnName(e), shortName(f)), ok, e.pos(c.p), why)
					}
				}
			})
		}
	})
}

// published: the torrent itself is in place at event at.
func (m *storeModel) published(t *Trace, at int) (string, bool) {
	e := t.Ev[at]
	best := "nothing was put in place"
	for _, x := range t.Ev[:at] {
		if x.Kind != "call" || len(x.Args) == 0 {
			continue
		}
		switch x.Name {
		case "os.Rename":
			if !m.isTarget(t, x, x.Args[1]) {
				continue
			}
			if !isNilAt(t, e, lastRes(x)) {
				best = "putting it in place may have failed"
				continue
			}
			return "", true
		case "os.Stat", "os.Lstat":
			if m.isTarget(t, x, x.Args[0]) && isNilAt(t, e, lastRes(x)) {
				return "", true
			}
		}
	}
	return best, false
}
