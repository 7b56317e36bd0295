package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Shared-state discipline: who guards what, in which order locks are taken,
// that they are released, and that nothing waits while holding them.

func pkgOf(fn *ssa.Function) string {
	return strings.TrimPrefix(fnPkgPath(fn), modPrefix+"/")
}

func isExportedFn(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && !n.Obj().Exported() {
			return false
		}
	}
	return true
}

// callers: number of static references to a function from repository code.
func (p *Program) callerCount() map[*ssa.Function]int {
	n := map[*ssa.Function]int{}
	var ops [16]*ssa.Value
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Function); ok && g != f {
						n[g]++
					}
				}
			}
		}
	}
	return n
}

// entryPoints: exported functions and methods, and functions nothing refers to.
func (p *Program) entryPoints(pkgs ...string) []*ssa.Function {
	cc := p.callerCount()
	want := map[string]bool{}
	for _, k := range pkgs {
		want[k] = true
	}
	var r []*ssa.Function
	for _, f := range p.Funcs {
		if !want[pkgOf(f)] || f.Parent() != nil || f.Synthetic != "" && !strings.HasPrefix(f.Synthetic, "instance") {
			continue
		}
		if f.TypeParams() != nil && len(f.TypeArgs()) == 0 {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		if isExportedFn(f) || cc[f] == 0 || p.recursionCut()[f] {
			r = append(r, f)
		}
	}
	return r
}

var leafPkgs = map[string]bool{"bitfield": true, "future": true, "api/metainfo": true}

// boundary: exported functions of the larger packages are analysed on their
// own and summarised where they are called.
func boundary(root *ssa.Function) func(fn *ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if fn == root {
			return false
		}
		return isExportedFn(fn) && !leafPkgs[pkgOf(fn)] && fnPkgPath(fn) != ""
	}
}

type access struct {
	f        *types.Var
	contents bool
	write    bool
	base     *Term // object that has the field
	locks    []*Lock
	where    string
	fn       string
	what     string
}

type lockEdge struct {
	from, to *types.Var
	where    string
}

type world struct {
	c        *C
	acc      []access
	globals  []access
	edges    []lockEdge
	calls    []heldCall
	blocks   []heldBlock
	acquires map[*ssa.Function]map[*types.Var]bool
	blocking map[*ssa.Function]map[string]string
	callees  map[*ssa.Function]map[*ssa.Function]bool
	mutex    map[*types.Struct]*types.Var
	structOf map[*types.Var]*types.Named
	roots    []*ssa.Function
	direct   map[*ssa.Function]map[*types.Var]bool
	nLocks   int
}

type heldCall struct {
	held  []*types.Var
	fn    *ssa.Function
	where string
	in    string
}

type heldBlock struct {
	held  *types.Var
	kind  string
	where string
	in    string
}

func (p *Program) structOwner() map[*types.Var]*types.Named {
	r := map[*types.Var]*types.Named{}
	for _, pk := range p.Pkgs {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := types.Unalias(tn.Type()).(*types.Named)
			if !ok {
				continue
			}
			st, ok := nt.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := originField(st.Field(i))
				if r[f] == nil {
					r[f] = nt
				}
			}
		}
	}
	return r
}

func (w *world) fieldName(f *types.Var) string {
	if n := w.structOf[f]; n != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
	}
	return f.Name()
}

// mutexOf: the mutex field of the struct that has f.
func (w *world) mutexOf(f *types.Var) *types.Var {
	n := w.structOf[f]
	if n == nil {
		return nil
	}
	st := n.Underlying().(*types.Struct)
	var m *types.Var
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			if m != nil {
				return nil
			}
			m = originField(st.Field(i))
		}
	}
	return m
}

// contentsOf: t is (part of) the contents reached through a struct field;
// returns the field and the object.
func contentsOf(t *Term) (*types.Var, *Term) {
	for t != nil {
		switch t.Op {
		case "init":
			a := t.Args[0]
			switch a.Op {
			case "faddr":
				v, _ := a.Obj.(*types.Var)
				return v, a.Args[0]
			case "iaddr", "maddr":
				// an element: continues only for nested containers
				if !isContainer(t.T) {
					return nil, nil
				}
				t = a.Args[0]
				continue
			case "global":
				return nil, nil
			}
			return nil, nil
		case "slice", "mget", "mval", "chtype":
			if !isContainer(t.T) {
				return nil, nil
			}
			t = t.Args[0]
		case "iaddr", "maddr":
			t = t.Args[0]
		default:
			return nil, nil
		}
	}
	return nil, nil
}

func isContainer(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

// blockingCall: external calls that wait for another party.
func blockingCall(name string) string {
	switch name {
	case "(*sync.WaitGroup).Wait", "(*golang.org/x/sync/errgroup.Group).Wait", "(*sync.Cond).Wait", "time.Sleep":
		return "wait"
	case "net.Dial", "net.DialTimeout", "(*net.Dialer).Dial", "(*net.Dialer).DialContext", "net.DialTCP", "net.Listen":
		return "dial"
	case "(net.Listener).Accept", "(*net.TCPListener).Accept":
		return "accept"
	case "(net.Conn).Read", "(io.Reader).Read", "io.ReadFull", "io.ReadAll", "io.ReadAtLeast", "(*bufio.Reader).Read":
		return "read"
	case "(net.Conn).Write", "(io.Writer).Write", "(net/http.ResponseWriter).Write":
		return "write"
	}
	if strings.HasPrefix(name, "(*net/http.Client).") || strings.HasPrefix(name, "net/http.Get") || strings.HasPrefix(name, "net/http.Post") {
		return "http"
	}
	if strings.HasPrefix(name, "os.") && !osPure[name] || strings.HasPrefix(name, "(*os.File).") && name != "(*os.File).Name" || name == "io.Copy" || name == "io.CopyN" {
		return "disk"
	}
	return ""
}

var osPure = map[string]bool{"os.Getenv": true, "os.Exit": true, "os.Getpid": true, "os.IsNotExist": true, "os.IsExist": true}

func fieldsOfLocks(l *Lock) []*types.Var {
	var r []*types.Var
	for ; l != nil; l = l.prev {
		if f := fieldOfAddr(l.Addr); f != nil {
			r = append(r, f)
		} else if l.Addr.Op == "global" {
			r = append(r, globalVar(l.Addr))
		}
	}
	return r
}

func globalVar(t *Term) *types.Var {
	if g, ok := t.Obj.(*ssa.Global); ok {
		if v, ok := g.Object().(*types.Var); ok {
			return v
		}
	}
	return nil
}

// buildWorld walks every entry point of the packages.
func buildWorld(c *C, pkgs ...string) *world {
	w := &world{c: c, direct: map[*ssa.Function]map[*types.Var]bool{}, acquires: map[*ssa.Function]map[*types.Var]bool{}, blocking: map[*ssa.Function]map[string]string{}, callees: map[*ssa.Function]map[*ssa.Function]bool{}, structOf: c.p.structOwner()}
	w.roots = c.p.entryPoints(pkgs...)
	for _, r := range w.roots {
		w.walkRoot(r)
	}
	return w
}

func (w *world) walkRoot(root *ssa.Function) {
	c := w.c
	w.acquires[root] = map[*types.Var]bool{}
	w.direct[root] = map[*types.Var]bool{}
	w.blocking[root] = map[string]string{}
	w.callees[root] = map[*ssa.Function]bool{}
	type staged struct {
		acc, glob []access
		edges     []lockEdge
		calls     []heldCall
		blocks    []heldBlock
	}
	var st staged
	o := Opts{OneIter: true, Merge: true, MergeMem: true, Loads: true, Keep: keepNone, Opaque: boundary(root)}
	add := func(s *State, e *Event, f *types.Var, contents, write bool, base *Term, what string) {
		if f == nil {
			return
		}
		st.acc = append(st.acc, access{f, contents, write, base, e.Locks.list(), e.pos(c.p), shortName(e.Fn), what})
	}
	touch := func(s *State, e *Event, t *Term, write bool, what string) {
		if t == nil {
			return
		}
		t = s.resolve(t)
		if t.Op == "iface" {
			t = t.Args[0]
		}
		if g := globalContents(t); g != nil {
			st.glob = append(st.glob, access{f: globalVar(g), contents: true, write: write, locks: e.Locks.list(), where: e.pos(c.p), fn: shortName(e.Fn), what: what})
		}
		f, b := contentsOf(t)
		if f != nil && !isLocalRoot(rootOf(b)) {
			add(s, e, f, true, write, b, what)
		}
	}
	block := func(e *Event, kind string) {
		if e.Thread == 0 || e.Locks != nil {
			if e.Thread == 0 {
				w.blocking[root][kind] = e.pos(c.p)
			}
			for _, h := range fieldsOfLocks(e.Locks) {
				st.blocks = append(st.blocks, heldBlock{h, kind, e.pos(c.p), shortName(e.Fn)})
			}
		}
	}
	on := func(s *State, e *Event) {
		switch e.Kind {
		case "load", "store":
			if e.Addr.Op == "global" {
				st.glob = append(st.glob, access{f: globalVar(e.Addr), write: e.Kind == "store", locks: e.Locks.list(), where: e.pos(c.p), fn: shortName(e.Fn), what: e.Kind})
				return
			}
			if isLocalRoot(rootOf(e.Addr)) {
				return
			}
			if e.Addr.Op == "faddr" {
				add(s, e, e.Field, false, e.Kind == "store", e.Addr.Args[0], e.Kind)
			} else {
				touch(s, e, e.Addr, e.Kind == "store", e.Kind)
			}
		case "mapload", "rangenext", "range":
			touch(s, e, e.Addr, false, e.Kind)
		case "mapstore", "mapdelete", "clear":
			touch(s, e, e.Addr, true, e.Kind)
		case "copy":
			touch(s, e, e.Addr, true, "copy")
			touch(s, e, e.Val, false, "copy")
		case "append":
			for i, a := range e.Args {
				touch(s, e, a, i == 0, "append")
			}
		case "call":
			for i, a := range e.Args {
				wr := mutatingCall(e.Name, i)
				touch(s, e, a, wr, "call "+e.Name)
			}
			if e.SFn != nil && w.c.p.isRepoFn(e.SFn) {
				if e.Thread == 0 {
					w.callees[root][e.SFn] = true
				}
				if h := fieldsOfLocks(e.Locks); len(h) > 0 {
					st.calls = append(st.calls, heldCall{h, e.SFn, e.pos(c.p), shortName(e.Fn)})
				}
			}
			// the codec writes to memory when other packages use it
			if k := blockingCall(e.Name); k != "" && pkgOf(e.Fn) != "bencode" {
				block(e, k)
			}
		case "send", "recv":
			block(e, "channel")
		case "select":
			if e.OK {
				block(e, "channel")
			}
		case "lock":
			f := fieldOfAddr(e.Addr)
			if f == nil && e.Addr.Op == "global" {
				f = globalVar(e.Addr)
			}
			if f == nil {
				c.ob("lock-identified", shortName(e.Fn)+" "+e.Addr.String(), false, e.pos(c.p), "cannot tell which mutex is locked")
				return
			}
			w.nLocks++
			if e.Thread == 0 {
				w.acquires[root][f] = true
			}
			w.direct[root][f] = true
			c.ob("lock-free-before-lock", shortName(e.Fn)+" locks "+w.fieldName(f), e.Locks.find(e.Addr) == nil, e.pos(c.p), "the mutex is locked while this goroutine already holds it (entry point "+shortName(root)+")")
			for _, h := range fieldsOfLocks(e.Locks) {
				st.edges = append(st.edges, lockEdge{h, f, e.pos(c.p)})
			}
		case "unlock":
			f := fieldOfAddr(e.Addr)
			if f == nil && e.Addr.Op == "global" {
				f = globalVar(e.Addr)
			}
			n := "?"
			if f != nil {
				n = w.fieldName(f)
			}
			c.ob("unlock-held", shortName(e.Fn)+" unlocks "+n, e.OK, e.pos(c.p), "a mutex is unlocked that is not held in that mode")
		case "oblig":
			if e.Name == "looplocks" {
				c.ob("lock-balanced-loop", shortName(e.Fn), e.OK, e.pos(c.p), "an iteration of the loop leaves the set of held locks changed")
			}
		}
	}
	o.OnReset = func() { st = staged{} }
	c.walk(root, o, on, func(t *Trace) {
		// obligations after the last event of a path
		n := shortName(root)
		if t.Final.thread > 0 {
			n += " (goroutine)"
		}
		det := ""
		if t.Final.locks != nil {
			det = "returns with " + t.Final.locks.String() + " held (end: " + t.End + ")"
		}
		if t.End != "return" && t.End != "panic" {
			return
		}
		c.ob("locks-released", n, t.Final.locks == t.Final.start, c.p.pos(root.Pos()), det)
		for _, r := range t.Ret {
			r = t.Final.resolve(r)
			if f, b := contentsOf(r); f != nil && !isLocalRoot(rootOf(b)) && t.Final.thread == 0 && t.End == "return" {
				st.acc = append(st.acc, access{f, true, false, b, nil, c.p.pos(root.Pos()), shortName(root), "returned to the caller"})
			}
		}
	})
	w.acc = append(w.acc, st.acc...)
	w.globals = append(w.globals, st.glob...)
	w.edges = append(w.edges, st.edges...)
	w.calls = append(w.calls, st.calls...)
	w.blocks = append(w.blocks, st.blocks...)
}

func globalContents(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "init":
			a := t.Args[0]
			if a.Op == "global" {
				if isContainer(t.T) {
					return a
				}
				return nil
			}
			if a.Op == "iaddr" || a.Op == "maddr" {
				t = a.Args[0]
				continue
			}
			return nil
		case "slice", "mget", "mval", "iaddr", "maddr":
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// mutatingCall: external helpers that write through a container argument.
func mutatingCall(name string, i int) bool {
	switch name {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.Sort", "slices.Reverse", "slices.DeleteFunc", "maps.DeleteFunc", "maps.Copy", "slices.Delete", "slices.Insert":
		return i == 0
	}
	return false
}

// closure of the summaries over calls
func (w *world) propagate() {
	for ch := true; ch; {
		ch = false
		for r, cs := range w.callees {
			for g := range cs {
				for f := range w.acquires[g] {
					if !w.acquires[r][f] {
						w.acquires[r][f] = true
						ch = true
					}
				}
				for k, v := range w.blocking[g] {
					if _, ok := w.blocking[r][k]; !ok {
						w.blocking[r][k] = v
						ch = true
					}
				}
			}
		}
	}
	for _, hc := range w.calls {
		for _, h := range hc.held {
			for f := range w.acquires[hc.fn] {
				w.edges = append(w.edges, lockEdge{h, f, hc.where + " (via " + shortName(hc.fn) + ")"})
			}
			for k := range w.blocking[hc.fn] {
				w.blocks = append(w.blocks, heldBlock{h, k, hc.where, hc.in + " calling " + shortName(hc.fn)})
			}
		}
	}
}

// guard table: fields that a mutex of another object guards, or that need none.
type guardExc struct {
	pkg, typ, field string
	contents        string // "" both, "field" only the cell, "contents" only what it refers to
	kind            string // "other" guarded by the mutex opkg.otyp.omu, "init" written before the object is shared
	opkg, otyp      string
	reason          string
}

var guardExceptions = []guardExc{
	{"p2p", "Peer", "Bitfield", "contents", "other", "p2p", "Server", "what a peer has is part of the server's piece index"},
	{"p2p", "Peer", "ID", "", "init", "", "", "written by dialling and the handshake, before the peer is registered"},
	{"p2p", "Peer", "cancel", "", "init", "", "", "written before the peer's loop starts"},
	{"pex", "Peer", "UpdatedAt", "", "other", "pex", "Torrent", "entries of a torrent's peer table"},
	{"pex", "Peer", "LastEvent", "", "other", "pex", "Torrent", "entries of a torrent's peer table"},
}

func (w *world) exception(f *types.Var, contents bool) *guardExc {
	n := w.structOf[f]
	if n == nil {
		return nil
	}
	for i := range guardExceptions {
		g := &guardExceptions[i]
		if g.field == f.Name() && g.typ == n.Obj().Name() && n.Obj().Pkg().Path() == modPrefix+"/"+g.pkg {
			if g.contents == "" || (g.contents == "contents") == contents {
				return g
			}
		}
	}
	return nil
}

func isAtomicType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic"
}

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync"
}

// checkGuarded decides the guarded-by rule for the structs of pkg.
func (w *world) checkGuarded(pkg string) {
	c := w.c
	type key struct {
		f        *types.Var
		contents bool
	}
	mut := map[key]bool{}
	for _, a := range w.acc {
		if a.write {
			mut[key{a.f, a.contents}] = true
		}
	}
	var ks []key
	for k := range mut {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := w.fieldName(ks[i].f), w.fieldName(ks[j].f)
		if a != b {
			return a < b
		}
		return !ks[i].contents
	})
	for _, k := range ks {
		n := w.structOf[k.f]
		if n == nil || n.Obj().Pkg().Path() != modPrefix+"/"+pkg {
			continue
		}
		if isAtomicType(k.f.Type()) || isSyncType(k.f.Type()) {
			continue
		}
		if _, ok := k.f.Type().Underlying().(*types.Chan); ok && k.contents {
			continue
		}
		exc := w.exception(k.f, k.contents)
		if exc != nil && exc.kind == "init" {
			continue
		}
		var gf *types.Var
		if exc != nil {
			gf = w.mutexOfType(exc.opkg, exc.otyp)
		} else {
			gf = w.mutexOf(k.f)
		}
		if gf == nil {
			continue // a struct without a mutex: owned by one goroutine or by its container
		}
		name := w.fieldName(k.f)
		if k.contents {
			name += " (contents)"
		}
		c.notes["guarded locations"]++
		for _, a := range w.acc {
			if a.f != k.f || a.contents != k.contents {
				continue
			}
			ok := false
			for _, l := range a.locks {
				if a.write && !l.Write {
					continue
				}
				if fieldOfAddr(l.Addr) != gf {
					continue
				}
				if exc != nil || l.Addr.Args[0] == a.base {
					ok = true
				}
			}
			mode := "read"
			if a.write {
				mode = "written"
			}
			c.ob("guarded-by", name+" in "+a.fn, ok, a.where, fmt.Sprintf("%s is %s (%s) without holding %s", name, mode, a.what, w.fieldName(gf)))
		}
	}
}

func (w *world) mutexOfType(pkg, typ string) *types.Var {
	n := w.c.p.Type(pkg, typ)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if isMutexType(st.Field(i).Type()) {
			return originField(st.Field(i))
		}
	}
	return nil
}

// checkGlobals: package variables that change after initialisation are always
// accessed with one common mutex held.
func (w *world) checkGlobals(pkg string) {
	c := w.c
	by := map[*types.Var][]access{}
	mut := map[*types.Var]bool{}
	for _, a := range w.globals {
		if a.f == nil || a.f.Pkg() == nil || a.f.Pkg().Path() != modPrefix+"/"+pkg {
			continue
		}
		by[a.f] = append(by[a.f], a)
		if a.write {
			mut[a.f] = true
		}
	}
	for f, as := range by {
		if !mut[f] || isAtomicType(f.Type()) || isSyncType(f.Type()) {
			continue
		}
		c.notes["mutable package variables"]++
		// candidate guards: mutexes held at some write
		var common map[*Term]bool
		for _, a := range as {
			if a.write == false {
				continue
			}
			held := map[*Term]bool{}
			for _, l := range a.locks {
				if l.Write {
					held[l.Addr] = true
				}
			}
			if common == nil {
				common = held
			} else {
				for k := range common {
					if !held[k] {
						delete(common, k)
					}
				}
			}
		}
		for _, a := range as {
			if !a.contents && !a.write && isContainer(f.Type()) {
				continue // loading the reference; the contents are checked
			}
			ok := false
			for _, l := range a.locks {
				if common[l.Addr] {
					ok = true
				}
			}
			c.ob("guarded-global", pkg+"."+f.Name()+" in "+a.fn, ok, a.where, "package variable "+f.Name()+" changes at run time and is accessed ("+a.what+") without the mutex its writers hold")
		}
	}
}

// checkOrder: the lock-order graph has no cycle.
func (w *world) checkOrder() {
	c := w.c
	g := map[*types.Var]map[*types.Var]string{}
	for _, e := range w.edges {
		if g[e.from] == nil {
			g[e.from] = map[*types.Var]string{}
		}
		if g[e.from][e.to] == "" {
			g[e.from][e.to] = e.where
		}
	}
	var reach func(from, to *types.Var, seen map[*types.Var]bool) bool
	reach = func(from, to *types.Var, seen map[*types.Var]bool) bool {
		if from == to {
			return true
		}
		if seen[from] {
			return false
		}
		seen[from] = true
		for n := range g[from] {
			if reach(n, to, seen) {
				return true
			}
		}
		return false
	}
	for from, m := range g {
		for to, where := range m {
			ok := !reach(to, from, map[*types.Var]bool{})
			c.ob("lock-order", w.fieldName(from)+" -> "+w.fieldName(to), ok, where, fmt.Sprintf("%s is taken while %s is held, and elsewhere the other way round", w.fieldName(to), w.fieldName(from)))
		}
	}
}

func (w *world) declare() {
	c := w.c
	c.rule("lock-identified", 0, "every mutex operation is on an identified mutex")
	c.rule("lock-free-before-lock", 1, "no goroutine locks a mutex it already holds")
	c.rule("unlock-held", 1, "a mutex is only unlocked by a goroutine that holds it")
	c.rule("lock-balanced-loop", 0, "loop iterations leave the set of held locks unchanged")
	c.rule("locks-released", 1, "every path of every entry point and goroutine ends with all mutexes released")
}
