package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (w *Walker) appResults(s *State, name string, obj *types.Func, sig *types.Signature, args []*Term) []*Term {
	it := types.Typ[types.Int]
	switch name {
	case "strconv.Itoa":
		return []*Term{mk("app", "strconv.FormatInt", nil, types.Typ[types.String], args[0], mkInt(10, nil))}
	case "strconv.FormatInt":
		return []*Term{mk("app", "strconv.FormatInt", nil, types.Typ[types.String], args[0], args[1])}
	case "strconv.FormatUint":
		return []*Term{mk("app", "strconv.FormatUint", nil, types.Typ[types.String], args[0], args[1])}
	case "bytes.Compare":
		return []*Term{mk("cmp3", "", nil, it, args...)}
	case "(encoding/binary.bigEndian).AppendUint32", "(encoding/binary.littleEndian).AppendUint32", "(encoding/binary.bigEndian).AppendUint16":
		op := "be32"
		if strings.Contains(name, "little") {
			op = "le32"
		}
		if strings.HasSuffix(name, "16") {
			op = "be16"
		}
		return []*Term{mkConcat(args[1], mk(op, "", nil, sig.Results().At(0).Type(), args[2]), sig.Results().At(0).Type())}
	case "strings.HasPrefix":
		if c, ok := args[1].isStrConst(); ok {
			if d, ok := args[0].isStrConst(); ok {
				return []*Term{mkBool(strings.HasPrefix(d, c))}
			}
		}
	case "strings.ToLower":
		if c, ok := args[0].isStrConst(); ok {
			return []*Term{mkStr(strings.ToLower(c))}
		}
		if args[0].Op == "app" && args[0].S == "strings.ToLower" {
			return []*Term{args[0]}
		}
	case "path/filepath.Join", "path.Join":
		// Join(Join(a, b), c) is Join(a, b, c)
		if len(args) == 1 && args[0].Op == "list" {
			var flat []*Term
			for _, a := range args[0].Args {
				if b := unconv(a); isCall(b, name) && len(b.Args) == 1 && b.Args[0].Op == "list" {
					flat = append(flat, b.Args[0].Args...)
				} else {
					flat = append(flat, a)
				}
			}
			if len(flat) != len(args[0].Args) {
				args = []*Term{mk("list", args[0].S, args[0].Obj, args[0].T, flat...)}
			}
		}
	case "errors.Is":
		// errors of the operating system are not the end of a file
		if strings.HasPrefix(callName(args[0]), "os.") && isGlobal(args[1], "io.EOF") {
			return []*Term{mkBool(false)}
		}
	case "fmt.Sprintf":
		// %s:%d with interface-wrapped operands stays a pure application
	}
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		k := name
		if sig.Results().Len() > 1 {
			k = fmt.Sprintf("%s#%d", name, i)
		}
		if strings.Contains(name, "Endian).Uint") {
			k += s.contentVer(args[1])
		}
		rs = append(rs, mk("app", k, obj, sig.Results().At(i).Type(), args...))
	}
	return rs
}

// contentVer distinguishes the contents of a mutable buffer over time.
func (s *State) contentVer(b *Term) string {
	r := rootOf(b)
	if h, ok := s.mem.havoc[r]; ok {
		return fmt.Sprintf("@%d", h)
	}
	return ""
}

func (w *Walker) appFacts(s *State, name string, rs, args []*Term) {
	ge0 := func(t *Term) { s.fact(condLe0(polyAdd(&Poly{}, polyOf(t), -1))) }
	switch name {
	case "(reflect.Value).Kind", "(reflect.Type).Kind", "(reflect.Value).NumField", "(reflect.Type).NumField", "(reflect.Value).NumMethod":
		ge0(rs[0])
	case "slices.Clone", "bytes.Clone":
		d := polyAdd(polyOf(mkLen(rs[0])), polyOf(mkLen(args[0])), -1)
		s.fact(condEq0(d))
	case "strings.Index", "strings.IndexByte", "bytes.IndexByte", "strings.LastIndex":
		s.fact(condLe0(polyAdd(&Poly{C: -1}, polyOf(rs[0]), -1)))
		s.fact(condLe0(polyAdd(polyAdd(polyOf(rs[0]), polyOf(mkLen(args[0])), -1), &Poly{C: 1}, 1)))
	}
	if len(rs) == 2 && rs[1].T != nil && isErrorType(rs[1].T) {
		w.errImp(s, rs)
	}
	if name == "(net.IP).To4" {
		// nil or exactly four bytes
		s.imply(mkEq(rs[0], mkNil()), false, condEq0(polyAdd(polyOf(mkLen(rs[0])), &Poly{C: -4}, 1)))
	}
}

func (w *Walker) errImp(s *State, rs []*Term) {
	err := rs[len(rs)-1]
	switch rs[0].T.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map:
		if rs[0] != err {
			s.imply(mkEq(err, mkNil()), true, canon(mkEq(rs[0], mkNil())).not())
		}
	}
}

func (w *Walker) binaryCheck(s *State, in ssa.Instruction, name string, args []*Term) {
	n := int64(0)
	switch {
	case strings.Contains(name, "Append"):
		return
	case strings.HasSuffix(name, "16"):
		n = 2
	case strings.HasSuffix(name, "32"):
		n = 4
	case strings.HasSuffix(name, "64"):
		n = 8
	}
	ok := entails(s.facts, polyAdd(&Poly{C: n}, polyOf(mkLen(args[1])), -1))
	w.oblig(s, in, "index", ok, args[1], mkInt(n-1, nil), mkLen(args[1]))
	if !ok {
		s.fact(condLe0(polyAdd(&Poly{C: n}, polyOf(mkLen(args[1])), -1)))
	}
}

// special gives precise results for some calls (nil: fresh unknowns).
func (w *Walker) special(s *State, f *Frame, in ssa.Instruction, name string, obj *types.Func, args, rargs []*Term, key string, sig *types.Signature) []*Term {
	it := types.Typ[types.Int]
	switch name {
	case "strings.Compare", "cmp.Compare":
		return []*Term{mk("cmp3", "", nil, it, rargs[0], rargs[1])}
	case "cmp.Less":
		return []*Term{mkLt(rargs[0], rargs[1])}
	case "(context.Context).Done", "(net.Conn).RemoteAddr",
		"(io/fs.DirEntry).Name", "(io/fs.DirEntry).IsDir", "(io/fs.FileInfo).Name", "(io/fs.FileInfo).Size", "(io/fs.FileInfo).IsDir", "(io/fs.FileInfo).Mode":
		return []*Term{mk("app", name, obj, sig.Results().At(0).Type(), args[0])}
	case "errors.New", "fmt.Errorf", "errors.Join":
		return nil
	case "errors.As":
		// whether the error is, or wraps, one of the target's type
		t := unconv(args[1])
		if args[0].Op == "nil" {
			return []*Term{mkBool(false)}
		}
		if p, ok := t.T.Underlying().(*types.Pointer); ok {
			return []*Term{mk("app", "errors.As:"+p.Elem().String(), obj, types.Typ[types.Bool], args[0])}
		}
	case "maps.Clone":
		ms := s.mapState(args[0])
		return []*Term{mk("app", fmt.Sprintf("maps.Clone@%d.%d", ms.ver, s.mem.ver["m"]), obj, sig.Results().At(0).Type(), args[0])}
	case "(hash.Hash).Sum":
		return []*Term{mkConcat(s.resolve(args[1]), mk("sum", key, nil, types.NewArray(types.Typ[types.Byte], 20), args[0]), sig.Results().At(0).Type())}
	}
	return nil
}

var sliceWriters = map[string]bool{
	"io.ReadFull": true, "io.ReadAtLeast": true, "(io.Reader).Read": true, "(*os.File).Read": true, "(*os.File).ReadAt": true, "(io.ReaderAt).ReadAt": true,
	"(net.Conn).Read": true, "(*bufio.Reader).Read": true, "(*bytes.Reader).Read": true, "(*bytes.Buffer).Read": true, "(*bytes.Reader).ReadAt": true,
	"math/rand.Read": true, "crypto/rand.Read": true,
	"(encoding/binary.bigEndian).PutUint16": true, "(encoding/binary.bigEndian).PutUint32": true, "(encoding/binary.bigEndian).PutUint64": true,
	"(encoding/binary.littleEndian).PutUint16": true, "(encoding/binary.littleEndian).PutUint32": true,
	"slices.Reverse": true, "slices.Sort": true, "sort.Ints": true, "sort.Strings": true,
}

func (w *Walker) after(s *State, f *Frame, in ssa.Instruction, name string, args, rs []*Term, e *Event) {
	ge0 := func(t *Term) { s.fact(condLe0(polyAdd(&Poly{}, polyOf(t), -1))) }
	le := func(a, b *Term) { s.fact(condLe0(polyAdd(polyOf(a), polyOf(b), -1))) }
	last := name[strings.LastIndex(name, ".")+1:]
	// readers
	switch last {
	case "Read", "ReadAt", "ReadFull", "ReadAtLeast":
		if len(rs) == 2 && isInt(rs[0].T) && len(args) > 1 {
			buf := args[1]
			if buf.T == nil || !isByteSlice(buf.T) {
				break
			}
			ge0(rs[0])
			le(rs[0], mkLen(buf))
			if last == "ReadAt" || last == "ReadFull" {
				s.imply(mkEq(rs[1], mkNil()), true, condEq0(polyAdd(polyOf(rs[0]), polyOf(mkLen(buf)), -1)))
			}
		}
	case "CopyN":
		ge0(rs[0])
		s.imply(mkEq(rs[1], mkNil()), true, condEq0(polyAdd(polyOf(rs[0]), polyOf(args[2]), -1)))
	case "Copy", "WriteTo", "ReadFrom":
		if len(rs) == 2 && isInt(rs[0].T) {
			ge0(rs[0])
		}
	case "Write", "WriteString":
		if name == "(hash.Hash).Write" {
			s.assume(mkEq(rs[1], mkNil()), true)
		}
		if len(rs) == 2 && isInt(rs[0].T) && len(args) > 1 {
			ge0(rs[0])
			le(rs[0], mkLen(args[len(args)-1]))
			s.imply(mkEq(rs[1], mkNil()), true, condEq0(polyAdd(polyOf(rs[0]), polyOf(mkLen(args[len(args)-1])), -1)))
		}
	case "Peek":
		if len(rs) == 2 && strings.Contains(name, "bufio") {
			s.imply(mkEq(rs[1], mkNil()), true, condEq0(polyAdd(polyOf(mkLen(rs[0])), polyOf(args[1]), -1)))
		}
	case "ReadString", "ReadBytes":
		if len(rs) == 2 && strings.Contains(name, "bufio") {
			s.imply(mkEq(rs[1], mkNil()), true, condLe0(polyAdd(&Poly{C: 1}, polyOf(mkLen(rs[0])), -1)))
		}
	case "Sum":
		if strings.Contains(name, "hash.Hash") {
			// appends into the spare capacity of arr[:0]
			if d := args[1]; d.Op == "slice" && d.Args[1] == nil && d.Args[2] != nil {
				if c, ok := d.Args[2].isIntConst(); ok && c == 0 {
					if _, ok := arrayLen(d.Args[0].T); ok {
						at := d.Args[0].T.Underlying().(*types.Pointer).Elem()
						sum := mk("sum", s.key(f, in), nil, types.NewArray(types.Typ[types.Byte], 20), args[0])
						for k := range s.mem.cells {
							if k.Op == "iaddr" && k.Args[0] == d.Args[0] {
								delete(s.mem.cells, k)
							}
						}
						s.store(d.Args[0], sum, at)
						return
					}
				}
			}
		}
	case "Len", "Buffered", "Available":
		if len(rs) == 1 && isInt(rs[0].T) {
			ge0(rs[0])
		}
	}
	if len(rs) >= 2 && isErrorType(rs[len(rs)-1].T) {
		w.errImp(s, rs)
	}
	if name == "(context.Context).Err" {
		// ended contexts have an error
		for x := s.ev; x != nil; x = x.prev {
			if (x.Kind == "select" || x.Kind == "recv") && x.Name != "send" && callName(x.Addr) == "(context.Context).Done" && x.Addr.Args[0] == args[0] {
				s.assume(mkEq(rs[0], mkNil()), false)
				break
			}
		}
	}
	if strings.HasPrefix(name, "context.With") {
		for _, r := range rs {
			s.assume(mkEq(r, mkNil()), false)
		}
	}
	if strings.HasPrefix(name, "(encoding/binary.") {
		w.binaryCheck(s, in, name, args)
	}
	if strings.HasPrefix(name, "(reflect.Value).Set") || name == "(reflect.Value).Grow" || name == "reflect.Copy" || name == "(reflect.Value).Clear" {
		s.mem.ver["reflect"]++
	}
	if sliceWriters[name] {
		for _, a := range args {
			if a.T != nil {
				if _, ok := a.T.Underlying().(*types.Slice); ok || a.Op == "slice" {
					w.havocArg(s, a)
				}
			}
		}
		return
	}
	// unknown code may write through pointers handed to it
	for i, a := range args {
		b := a
		if b.Op == "iface" {
			b = b.Args[0]
		}
		if i == 0 && e.Callee != nil && e.Callee.Type().(*types.Signature).Recv() != nil {
			continue
		}
		switch b.Op {
		case "alloc", "faddr", "iaddr":
			if readOnlyCall(name) {
				continue
			}
			w.havocArg(s, b)
		case "list":
			// variadic ...any
		case "slice":
			if b.Args[0].Op == "alloc" && !readOnlyCall(name) {
				// variadic arguments: pointers inside may be written
				for _, x := range s.resolve(b).Args {
					y := x
					if y != nil && y.Op == "iface" {
						y = y.Args[0]
					}
					if y != nil && (y.Op == "alloc" || y.Op == "faddr") {
						w.havocArg(s, y)
					}
				}
			}
		case "closure":
			w.havocArg(s, b)
		}
	}
	if name == "dynamic" || e.Callee != nil && e.Callee.Pkg() != nil && inRepoPath(e.Callee.Pkg().Path()) {
		s.forgetMutable(nil)
		s.mem.ver["reflect"]++
	}
}

func readOnlyCall(name string) bool {
	last := name[strings.LastIndex(name, ".")+1:]
	for _, p := range []string{"Write", "Print", "Sprint", "Fprint", "Error", "Marshal", "Encode", "New", "Copy", "Close", "Remove", "Mkdir", "Get", "Done", "Wait", "Is", "Add"} {
		if strings.HasPrefix(last, p) {
			return true
		}
	}
	return false
}
