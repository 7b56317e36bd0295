package main

import (
	"fmt"
	"go/types"
	"strings"
)

// writing: calls whose failure leaves something incomplete on disk.
func writing(e *Event) bool {
	if e.Kind != "call" || e.Defer {
		return false
	}
	switch e.Name {
	case "io.Copy", "io.CopyN", "io.CopyBuffer", "io.WriteString", "os.Create", "os.OpenFile", "os.WriteFile", "os.MkdirAll", "os.Mkdir", "os.Truncate", "os.Link", "os.CopyFS":
		return true
	case "(*os.File).Close":
		n := ""
		if len(e.Args) == 1 {
			n = callName(e.Args[0])
		}
		return n != "os.Open" && n != "os.CreateTemp"
	}
	if i := strings.Index(e.Name, ")."); i >= 0 {
		switch e.Name[i+2:] {
		case "Write", "WriteString", "WriteAt", "ReadFrom", "Sync", "Flush", "WriteTo":
			return len(e.Res) > 0 && isErrorType(lastRes(e).T) && !strings.HasPrefix(e.Name, "(hash.Hash)")
		}
	}
	return false
}

func (m *storeModel) under(s *State, t *Term) string { return m.placeOf(s, t).root }

// escapes: the handle is kept in an object for later.
func escapes(t *Trace, h *Term) bool {
	for _, e := range t.Ev {
		if e.Kind == "store" && e.Val != nil && unconv(e.Val) == h && e.Field != nil {
			return true
		}
	}
	return false
}

func init() {
	register("S02", "Results are put in place whole, under one name, and no litter stays", func(c *C) {
		c.rule("aside", 3, "files are created and written only among the temporaries, never at their final place")
		c.rule("whole", 3, "a temporary is put in place only after everything written to it is known to have succeeded, and is not written afterwards")
		c.rule("kept", 2, "the piece files are removed only after the torrent was put in place without an error")
		c.rule("tidy", 4, "on every path every file that was opened is closed, and every temporary that was not put in place is removed")
		c.rule("name", 4, "a piece's file is put in place, found at start, read and assembled under the same path")
		m := c.storeModel()
		if !m.ok {
			return
		}
		m.findPathFields()
		shapes := map[string][]string{}
		var order []string
		name := func(shape, construct string) {
			if shape == "" {
				return
			}
			if len(shapes[shape]) == 0 {
				order = append(order, shape)
			}
			shapes[shape] = append(shapes[shape], construct)
		}
		for _, f := range c.p.entryPoints(storagePkg) {
			o := m.opts()
			keep := o.Keep
			o.Keep = func(s *State, e *Event) bool {
				return keep(s, e) || e.Kind == "call" && e.Name == "fmt.Sscanf" || e.Kind == "store" && (m.pathFields[e.Field] || e.Field != nil && strings.HasSuffix(e.Field.Type().String(), "os.File"))
			}
			names := map[string]string{}
			o.OnReset = func() { names = map[string]string{} }
			c.walk(f, o, func(s *State, e *Event) {
				site := fnName(e) + ": " + shortCall(e) + " " + stableSite(c, e)
				settle := func() []*Term {
					var open []*Term
					for _, t := range tokList(s.aux) {
						if v, known := s.query(mkEq(t, mkNil())); !known || !v {
							open = append(open, t)
						}
					}
					return open
				}
				switch e.Kind {
				case "branch":
					s.aux = tokJoin(settle())
				case "rearrive":
					var open []*Term
					for _, t := range settle() {
						if !strings.Contains(","+e.Name+",", ","+tokID(t)+",") {
							open = append(open, t)
						}
					}
					if len(open) > 0 {
						c.ob("whole", fnName(e)+": loop", false, e.pos(c.p), "the loop goes on although "+callName(open[0])+" may have failed")
					}
				case "call":
					if writing(e) {
						if r := lastRes(e); r != nil && isErrorType(r.T) && r.Op != "nil" {
							s.aux = tokJoin(append(tokList(s.aux), r))
						}
					}
					switch {
					case isWriteOp(e.Name):
						pl := m.placeOf(s, e.Args[0])
						c.ob("aside", site, pl.bad == "" && pl.root == "temp", e.pos(c.p), "a file is created at "+trunc(e.Args[0].String(), 100))
					case e.Name == "os.CreateTemp" || e.Name == "os.MkdirTemp":
						pl := m.placeOf(s, e.Args[0])
						// below the work directory, in a directory of its own
						ok := pl.bad == "" && pl.root == "work" && len(pl.comps) == 1
						if ok {
							_, ok = pl.comps[0].isStrConst()
						}
						c.ob("aside", site, ok, e.pos(c.p), "temporaries are made in "+trunc(e.Args[0].String(), 100))
					case e.Name == "os.Rename":
						src := fileOf(e.Args[0])
						c.ob("whole", site, src != nil, e.pos(c.p), "what is put in place is not a temporary: "+trunc(e.Args[0].String(), 80))
						open := settle()
						c.ob("whole", site, len(open) == 0, e.pos(c.p), fmt.Sprintf("it is put in place although %s may have failed", callNames(open)))
					}
				}
			}, func(t *Trace) {
				fl := newFlow(m)
				for i, e := range t.Ev {
					site := fnName(e) + ": " + shortCall(e) + " " + stableSite(c, e)
					if e.Kind == "store" && m.pathFields[e.Field] && e.Val != nil {
						if _, sh := m.pathShape(t, e, e.Val); sh != "" {
							names[fnName(e)+": "+e.Field.Name()] = sh
						}
					}
					if e.Kind != "call" {
						continue
					}
					for k, a := range pathArgs(e) {
						if e.Name != "os.MkdirAll" {
							if _, sh := m.pathShape(t, e, a); sh != "" {
								names[fmt.Sprintf("%s, path %d", site, k+1)] = sh
							}
						}
					}
					switch e.Name {
					case "fmt.Sscanf":
						// only where the piece counts
						for _, x := range t.Ev[i+1:] {
							if x.Kind == "store" && x.Field == m.coalP {
								why := m.sameFormat(t, e)
								c.ob("name", site, why == "", e.pos(c.p), why)
								break
							}
						}
					case "os.Rename":
						if src := fileOf(e.Args[0]); src != nil {
							n := len(fl.out[src])
							for _, x := range t.Ev[i+1:] {
								fl.step(x)
							}
							c.ob("whole", site, len(fl.out[src]) == n, e.pos(c.p), "it is written after it was put in place")
							fl = newFlow(m)
							for _, x := range t.Ev[:i] {
								fl.step(x)
							}
						}
					case "os.RemoveAll", "os.Remove":
						pl := m.placeOf(eventState(t, e), e.Args[0])
						if pl.root == "temp" {
							break
						}
						ok := false
						for _, x := range t.Ev[:i] {
							if x.Kind == "call" && x.Name == "os.Rename" && m.isTarget(t, x, x.Args[1]) && isNilAt(t, e, lastRes(x)) {
								ok = true
							}
						}
						c.ob("kept", site, ok, e.pos(c.p), "files are removed although the torrent may not be in place")
					case "os.CreateTemp", "os.MkdirTemp", "os.Open", "os.Create", "os.OpenFile":
						h := e.Res[0]
						if v, known := t.Final.query(mkEq(lastRes(e), mkNil())); known && !v || t.End != "return" || escapes(t, h) {
							break
						}
						closed, gone := e.Name == "os.MkdirTemp", e.Name != "os.CreateTemp" && e.Name != "os.MkdirTemp"
						for _, x := range t.Ev[i+1:] {
							if x.Kind != "call" || len(x.Args) == 0 {
								continue
							}
							switch x.Name {
							case "(*os.File).Close":
								closed = closed || x.Args[0] == h
							case "os.Remove", "os.RemoveAll":
								gone = gone || fileOf(x.Args[0]) == h
							case "os.Rename":
								gone = gone || fileOf(x.Args[0]) == h && isNilAt(t, t.Ev[len(t.Ev)-1], lastRes(x))
							}
						}
						c.ob("tidy", site, closed, e.pos(c.p), "the file may stay open")
						c.ob("tidy", site, gone, e.pos(c.p), "the temporary may stay behind")
					}
					fl.step(e)
				}
			})
			for _, k := range sortedStrings(names) {
				name(names[k], k)
			}
		}
		for i, sh := range order {
			for _, k := range shapes[sh] {
				c.ob("name", k, i == 0, "", "the piece is found under "+sh+" here, but under "+order[0]+" at "+shapes[order[0]][0])
			}
		}
	})
}

// pathShape: like piecePath, for any path that names a piece.
func (m *storeModel) pathShape(t *Trace, e *Event, path *Term) (*Term, string) {
	if p, sh := m.piecePath(t, e, path); sh != "" {
		return p, sh
	}
	if fileOf(path) != nil {
		return nil, ""
	}
	for a := range atomsOf(path) {
		if b := loadOf(a, m.pindex); b != nil {
			return b, m.shape(path, nil)
		}
	}
	return nil, ""
}

// sameFormat: the name that is parsed is written with the same format, so
// that the piece parsed is the piece named.
func (m *storeModel) sameFormat(t *Trace, e *Event) string {
	list := func(t *Term) []*Term {
		if t != nil && t.Op == "list" {
			return t.Args
		}
		return nil
	}
	if len(e.Args) != 3 {
		return "a call that is not understood"
	}
	why := "the name is not compared with the name of the piece"
	for _, y := range equalPairs(t.Final.facts) {
		if unconv(y[0]) != unconv(e.Args[0]) {
			continue
		}
		w := unconv(y[1])
		if !isCall(w, "fmt.Sprintf") || len(w.Args) != 2 || w.Args[0] != e.Args[1] {
			return "the name is written as " + trunc(y[1].String(), 80)
		}
		as, ds := list(w.Args[1]), list(e.Args[2])
		if len(as) != 1 || len(ds) != 1 {
			return "the name has more than one part"
		}
		b := loadOf(unconv(as[0]), m.pindex)
		if b == nil || b.Op != "init" || b.Args[0].Op != "iaddr" {
			return "the name is not made from the index of the piece but from " + trunc(as[0].String(), 60)
		}
		i := b.Args[0].Args[1]
		if i.Op != "init" && i.Op != "mphi" && i.Op != "havoc" || !within(i, unconv(ds[0])) {
			return "the piece looked up is " + trunc(i.String(), 60) + ", not the one parsed"
		}
		return ""
	}
	return why
}

// within: t is made from x.
func within(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if within(a, x) {
			return true
		}
	}
	return false
}

func callNames(ts []*Term) string {
	var ns []string
	for _, t := range ts {
		ns = append(ns, callName(t))
	}
	return strings.Join(ns, ", ")
}

func sortedStrings(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

var _ types.Type
