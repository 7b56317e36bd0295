package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Storage on disk: what is written where, and when it counts.

const storagePkg = "storage"

// storeModel: the fields the rules talk about, found by name or by their type.
type storeModel struct {
	c                            *C
	coalP, coalT                 *types.Var
	count                        *types.Var // complete pieces of the torrent
	sha, pindex, plen            *types.Var
	pieces, info, bitfield       *types.Var
	target, work                 *types.Var
	files, name, pieceLen, flen  *types.Var
	infoPieces, fpath, errP, erT *types.Var
	blocks, nblocks              *types.Var
	bdata                        *types.Var
	downloaded                   *types.Var
	pathFields                   map[*types.Var]bool
	ok                           bool
}

func (c *C) storeModel() *storeModel {
	m := &storeModel{c: c, pathFields: map[*types.Var]bool{}}
	isBool := isBasicKind(types.Bool)
	m.coalP = c.field(storagePkg, "Piece", "coalesced", isBool)
	m.coalT = c.field(storagePkg, "Torrent", "coalesced", isBool)
	m.count = c.field(storagePkg, "Torrent", "completePieces", isBasicKind(types.Int))
	m.sha = c.field(storagePkg, "Piece", "SHA1", nil)
	m.pindex = c.field(storagePkg, "Piece", "Index", nil)
	m.plen = c.field(storagePkg, "Piece", "Length", nil)
	m.pieces = c.field(storagePkg, "Torrent", "pieces", func(t types.Type) bool {
		s, ok := t.(*types.Slice)
		return ok && isPtrTo(storagePkg, "Piece")(s.Elem())
	})
	m.info = c.field(storagePkg, "Torrent", "Info", nil)
	m.bitfield = c.field(storagePkg, "Torrent", "Bitfield", nil)
	m.target = c.field(storagePkg, "Storage", "TargetDir", nil)
	m.work = c.field(storagePkg, "Storage", "WorkDir", nil)
	m.files = c.field("api/metainfo", "Info", "Files", nil)
	m.name = c.field("api/metainfo", "Info", "Name", nil)
	m.pieceLen = c.field("api/metainfo", "Info", "PieceLength", nil)
	m.infoPieces = c.field("api/metainfo", "Info", "Pieces", nil)
	m.flen = c.field("api/metainfo", "File", "Length", nil)
	m.fpath = c.field("api/metainfo", "File", "Path", nil)
	isFut := func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && strings.HasPrefix(shortType(p.Elem()), "future.")
	}
	m.errP = c.field(storagePkg, "Piece", "err", isFut)
	m.erT = c.field(storagePkg, "Torrent", "err", isFut)
	m.blocks = c.field(storagePkg, "Piece", "blocks", func(t types.Type) bool { _, ok := t.(*types.Slice); return ok })
	m.downloaded = c.field(storagePkg, "Storage", "downloaded", func(t types.Type) bool { return isNamed(t, "sync/atomic", "Int64") })
	for _, v := range []*types.Var{m.coalP, m.coalT, m.count, m.sha, m.pindex, m.plen, m.pieces, m.info, m.bitfield, m.target, m.work, m.files, m.name, m.pieceLen, m.infoPieces, m.flen, m.fpath, m.errP, m.erT, m.blocks, m.downloaded} {
		if v == nil {
			return m
		}
	}
	m.ok = true
	return m
}

// storageEvent: what the rules about files look at.
func (m *storeModel) keep(s *State, e *Event) bool {
	switch e.Kind {
	case "call", "defer":
		n := e.Name
		return strings.Contains(n, "os.") || strings.HasPrefix(n, "io.") || strings.Contains(n, "(io.") || strings.HasPrefix(n, "bufio.") || strings.HasPrefix(n, "(*bytes.Buffer).") || strings.HasPrefix(n, "crypto/sha1.") || strings.Contains(n, "hash.") || strings.Contains(n, "io/fs.") || strings.Contains(n, "bytes.")
	case "store":
		return e.Field == m.coalP || e.Field == m.coalT || e.Field == m.count || e.Field == m.errP || e.Field == m.erT
	case "atomic", "close":
		return true
	}
	return false
}

func (m *storeModel) opts() Opts {
	return Opts{OneIter: true, Merge: true, MergeMem: true, Keep: m.keep}
}

// loadOf: t is the value of field f (of any object); the object is returned.
func loadOf(t *Term, f *types.Var) *Term {
	if t == nil || f == nil {
		return nil
	}
	if t.Op == "init" && t.Args[0].Op == "faddr" && t.Args[0].Obj == any(f) {
		return t.Args[0].Args[0]
	}
	if t.Op == "fval" && t.Obj == any(f) {
		return t.Args[0]
	}
	return nil
}

func isCall(t *Term, name string) bool { return t != nil && t.Op == "app" && t.S == name }

// shape prints a term independent of versions and of how the objects are
// reached: two path terms of one shape denote the same place for the same piece
// or file.
func (m *storeModel) shape(t *Term, subst map[*Term]string) string {
	if t == nil {
		return "_"
	}
	if s, ok := subst[t]; ok {
		return s
	}
	switch t.Op {
	case "init":
		a := t.Args[0]
		if a.Op == "faddr" {
			v := a.Obj.(*types.Var)
			switch v {
			case m.pindex:
				return "<index>"
			case m.target:
				return "<target>"
			case m.work:
				return "<work>"
			}
			return m.shape(a.Args[0], subst) + "." + v.Name()
		}
		if a.Op == "iaddr" {
			return m.shape(a.Args[0], subst) + "[" + m.shape(a.Args[1], subst) + "]"
		}
		return "*" + m.shape(a, subst)
	case "fval":
		return m.shape(t.Args[0], subst) + "." + t.Obj.(*types.Var).Name()
	case "param":
		return "<" + shortType(t.T) + ">"
	case "iface", "conv":
		return m.shape(t.Args[0], subst)
	case "iter":
		return "<iter>"
	case "faddr":
		return "&" + m.shape(t.Args[0], subst) + "." + t.Obj.(*types.Var).Name()
	case "iaddr":
		return "&" + m.shape(t.Args[0], subst) + "[" + m.shape(t.Args[1], subst) + "]"
	case "poly":
		p := t.P
		var ss []string
		for _, mo := range p.Ms {
			x := fmt.Sprint(mo.K)
			for _, a := range mo.Atoms {
				x += "*" + m.shape(a, subst)
			}
			ss = append(ss, x)
		}
		return fmt.Sprintf("(%s+%d)", strings.Join(ss, "+"), p.C)
	}
	if len(t.Args) == 0 {
		return t.String()
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, m.shape(a, subst))
	}
	n := t.S
	if t.Op != "app" {
		n = t.Op + ":" + t.S
	}
	return n + "(" + strings.Join(as, ",") + ")"
}

// ---- paths

// place is where a path leads.
type place struct {
	root  string // target, work, temp
	comps []*Term
	dir   *Term // temp: the directory or file that was created
	bad   string
}

func joinParts(t *Term) ([]*Term, bool) {
	if !isCall(t, "path/filepath.Join") && !isCall(t, "path.Join") {
		return nil, false
	}
	var out []*Term
	for _, a := range t.Args {
		if a.Op == "list" {
			out = append(out, a.Args...)
		} else {
			out = append(out, mk("spread", "", nil, nil, a))
		}
	}
	return out, true
}

// placeOf classifies a path by the facts known where it is used.
func (m *storeModel) placeOf(s *State, t *Term) place {
	t = unconv(t)
	switch {
	case loadOf(t, m.target) != nil:
		return place{root: "target"}
	case loadOf(t, m.work) != nil:
		return place{root: "work"}
	}
	if parts, ok := joinParts(t); ok && len(parts) > 0 {
		p := m.placeOf(s, parts[0])
		if p.bad != "" {
			return p
		}
		for _, x := range parts[1:] {
			if why := m.unsafeComp(s, x); why != "" {
				p.bad = why
				return p
			}
			p.comps = append(p.comps, x)
		}
		return p
	}
	// a + "/" + b
	if isConcat(t) {
		parts := concatParts(t)
		p := m.placeOf(s, parts[0])
		if p.bad == "" && len(parts) >= 2 {
			if sep, ok := parts[1].isStrConst(); ok && strings.HasPrefix(sep, "/") {
				for _, x := range parts[1:] {
					if c, ok := x.isStrConst(); ok && !strings.Contains(c, "..") {
						continue
					}
					if why := m.unsafeComp(s, x); why != "" {
						p.bad = why
						return p
					}
				}
				p.comps = append(p.comps, mk("concat", "", nil, nil, parts[1:]...))
				return p
			}
		}
		return place{bad: "a path made by concatenation: " + trunc(t.String(), 80)}
	}
	if isCall(t, "path/filepath.Dir") {
		p := m.placeOf(s, t.Args[0])
		if p.bad == "" && len(p.comps) > 0 {
			// the directory of a local path below a place is at or below it
			last := p.comps[len(p.comps)-1]
			p.comps = append(append([]*Term{}, p.comps[:len(p.comps)-1]...), mk("dir", "", nil, nil, last))
			return p
		}
		return place{bad: "directory above " + trunc(t.Args[0].String(), 60)}
	}
	if isCall(t, "(*os.File).Name") {
		if d := tempOf(t.Args[0]); d != nil {
			return place{root: "temp", dir: d}
		}
	}
	if d := tempOf(t); d != nil {
		return place{root: "temp", dir: d}
	}
	// the path a reader was made for
	if t.Op == "init" && t.Args[0].Op == "faddr" {
		if v := t.Args[0].Obj.(*types.Var); isString(v.Type()) && m.pathFields[v] {
			return place{root: "field"}
		}
	}
	return place{bad: "the path is " + trunc(t.String(), 100)}
}

func concatParts(t *Term) []*Term {
	if !isConcat(t) {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, concatParts(a)...)
	}
	return out
}

func isConcat(t *Term) bool {
	return t.Op == "concat" || t.Op == "bin" && t.S == "+" && isString(t.T)
}

// tempOf: t is what os.CreateTemp or os.MkdirTemp made.
func tempOf(t *Term) *Term {
	if t != nil && t.Op == "call" && strings.HasSuffix(t.S, "#0") {
		if n := callName(t); n == "os.CreateTemp" || n == "os.MkdirTemp" {
			return t
		}
	}
	return nil
}

// callName: the function whose result t is.
func callName(t *Term) string {
	if t == nil {
		return ""
	}
	if t.Op == "app" {
		return t.S
	}
	if f, ok := t.Obj.(*types.Func); ok && t.Op == "call" && f != nil {
		return qualName(f)
	}
	if f, ok := t.Obj.(*ssa.Function); ok && t.Op == "call" && f != nil {
		return shortName(f)
	}
	return ""
}

// unsafeComp: why a path element could lead out of the directory before it.
func (m *storeModel) unsafeComp(s *State, t *Term) string {
	t = unconv(t)
	if c, ok := t.isStrConst(); ok {
		if strings.Contains(c, "..") || strings.Contains(c, "/") {
			return fmt.Sprintf("path element %q", c)
		}
		return ""
	}
	if known(s, mk("app", "path/filepath.IsLocal", nil, nil, t), true) || m.localFact(s, t) {
		return ""
	}
	switch {
	case t.Op == "app" && t.S == "fmt.Sprintf":
		f, ok := t.Args[0].isStrConst()
		if !ok || strings.Contains(f, "..") || strings.Contains(f, "/") {
			return "path element made with format " + trunc(t.Args[0].String(), 40)
		}
		for _, a := range t.Args[1:] {
			for _, x := range a.Args {
				if x.Op == "iface" {
					x = x.Args[0]
				}
				if !numericType(x.T) {
					return "path element made from text: " + trunc(x.String(), 60)
				}
			}
		}
		return ""
	case t.Op == "app" && (t.S == "fmt.Sprint" || t.S == "fmt.Sprintln"):
		for _, a := range t.Args {
			for _, x := range a.Args {
				if x.Op == "iface" {
					x = x.Args[0]
				}
				if !numericType(x.T) {
					return "path element made from text: " + trunc(x.String(), 60)
				}
			}
		}
		return ""
	case t.Op == "app" && (strings.HasPrefix(t.S, "strconv.") || t.S == "encoding/hex.EncodeToString"):
		return ""
	case isConcat(t):
		for _, p := range concatParts(t) {
			if c, ok := p.isStrConst(); ok && !strings.Contains(c, "/") && !strings.Contains(c, "..") {
				continue
			}
			if why := m.unsafeComp(s, p); why != "" {
				return why
			}
		}
		return ""
	case isCall(t, "(io/fs.DirEntry).Name") || isCall(t, "(io/fs.FileInfo).Name"):
		return "" // a name without separators that exists in the directory
	}
	return "not known to be local: " + trunc(t.String(), 100)
}

// localFact: filepath.IsLocal(t) was found to be true.
func (m *storeModel) localFact(s *State, t *Term) bool {
	for n := s.facts; n != nil; n = n.prev {
		if n.val && n.t.Op == "app" && n.t.S == "path/filepath.IsLocal" && len(n.t.Args) == 1 && (n.t.Args[0] == t || unconv(n.t.Args[0]) == t) {
			return true
		}
	}
	return false
}

// below: the place is strictly below its root.
func (m *storeModel) below(s *State, p place) bool {
	for _, x := range p.comps {
		if x.Op == "app" && (x.S == "fmt.Sprintf" || strings.HasPrefix(x.S, "strconv.") || x.S == "encoding/hex.EncodeToString" || x.S == "(io/fs.DirEntry).Name") || isConcat(x) {
			return true
		}
		if c, ok := x.isStrConst(); ok && c != "" && c != "." {
			return true
		}
		if v, ok := s.query(mkEq(x, mkStr("."))); ok && !v {
			return true
		}
	}
	return false
}

func numericType(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsNumeric != 0
	case *types.Array:
		return numericType(u.Elem())
	case *types.Slice:
		return numericType(u.Elem())
	}
	return false
}

// pathArgs: the paths an operation of package os works on.
func pathArgs(e *Event) []*Term {
	if !strings.HasPrefix(e.Name, "os.") || e.Kind != "call" {
		return nil
	}
	n := strings.TrimPrefix(e.Name, "os.")
	switch n {
	case "Getenv", "LookupEnv", "Setenv", "Unsetenv", "ExpandEnv", "Expand", "IsExist", "IsNotExist", "NewFile", "Exit":
		return nil
	case "CreateTemp", "MkdirTemp":
		return e.Args[:1] // patterns with separators are refused
	}
	var out []*Term
	for _, a := range e.Args {
		if a != nil && a.T != nil && isString(a.T) {
			out = append(out, a)
		}
	}
	return out
}

func isWriteOp(n string) bool {
	switch n {
	case "os.Create", "os.OpenFile", "os.WriteFile", "os.Truncate", "os.Link", "os.Symlink", "os.CopyFS":
		return true
	}
	return false
}

// eventState: the facts known when e happened.
func eventState(t *Trace, e *Event) *State {
	s := *t.Final
	s.facts = e.Facts
	return &s
}

func isNilAt(t *Trace, e *Event, x *Term) bool {
	v, ok := queryFacts(e.Facts, mkEq(x, mkNil()))
	return ok && v
}

func lastRes(e *Event) *Term {
	if len(e.Res) == 0 {
		return nil
	}
	return e.Res[len(e.Res)-1]
}

// findPathFields: string fields that methods of their type use as paths.
func (m *storeModel) findPathFields() {
	for _, f := range m.c.p.Funcs {
		if pkgOf(f) != storagePkg || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
			continue
		}
		self := f.Params[0]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok || !strings.HasPrefix(qualName(calleeObj(ci.Common())), "os.") {
					continue
				}
				for _, a := range ci.Common().Args {
					if !isString(a.Type()) {
						continue
					}
					if u, ok := a.(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && fa.X == self {
							if v := fieldVar(fa); v != m.target && v != m.work {
								m.pathFields[v] = true
							}
						}
					}
				}
			}
		}
	}
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return st.Field(fa.Field)
}

func init() {
	register("S05", "Files are only touched inside the configured directories", func(c *C) {
		c.rule("contained", 20, "every path handed to the operating system is below the target or work directory (or a temporary created there), and its further elements are constants, numbers, or were found to be local")
		m := c.storeModel()
		if !m.ok {
			return
		}
		m.findPathFields()
		for _, f := range c.p.entryPoints(storagePkg) {
			f := f
			o := m.opts()
			o.Keep = keepNone
			c.walk(f, o, func(s *State, e *Event) {
				switch e.Kind {
				case "call":
					for i, a := range pathArgs(e) {
						p := m.placeOf(s, a)
						if p.bad == "" && (e.Name == "os.RemoveAll" || e.Name == "os.Rename" && i == 1) && p.root != "temp" && p.root != "field" && !m.below(s, p) {
							p.bad = "it may be the configured directory itself"
						}
						c.ob("contained", fmt.Sprintf("%s: %s %s, path %d", fnName(e), shortCall(e), stableSite(c, e), i+1), p.bad == "", e.pos(c.p), p.bad)
					}
				case "store":
					if e.Field != nil && m.pathFields[e.Field] && e.Val != nil {
						p := m.placeOf(s, e.Val)
						c.ob("contained", fmt.Sprintf("%s: %s is set, %s", fnName(e), e.Field.Name(), stableSite(c, e)), p.bad == "", e.pos(c.p), p.bad)
					}
				}
			}, nil)
		}
	})
}
