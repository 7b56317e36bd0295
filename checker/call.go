package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func calleeObj(c *ssa.CallCommon) *types.Func {
	if c.IsInvoke() {
		return c.Method
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		if o, ok := v.Object().(*types.Func); ok {
			return o
		}
		if v.Origin() != nil {
			if o, ok := v.Origin().Object().(*types.Func); ok {
				return o
			}
		}
	}
	return nil
}

// qualName renders a *types.Func as "pkg/path.F" or "(*pkg/path.T).M".
func qualName(o *types.Func) string {
	if o == nil {
		return ""
	}
	o = o.Origin()
	return o.FullName()
}

func (w *Walker) calleeName(c *ssa.CallCommon, fnT *Term) string {
	if o := calleeObj(c); o != nil {
		return qualName(o)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if fnT != nil {
		if fn, ok := fnT.Obj.(*ssa.Function); ok {
			if o, ok := fn.Object().(*types.Func); ok {
				return qualName(o)
			}
			return fn.String()
		}
	}
	return "dynamic"
}

// callOperands returns the function term (nil for builtins) and all arguments
// (receiver first).
func (w *Walker) callOperands(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, s.val(c.Value))
		for _, a := range c.Args {
			args = append(args, s.val(a))
		}
		return nil, args
	}
	for _, a := range c.Args {
		args = append(args, s.val(a))
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil, args
	}
	return s.val(c.Value), args
}

func (w *Walker) call(s *State, f *Frame, in *ssa.Call, c *ssa.CallCommon, v ssa.Value) *State {
	fnT, args := w.callOperands(s, c)
	return w.invoke(s, f, in, c, fnT, args, nil)
}

// target resolves the repository function a call runs, if known.
func (w *Walker) target(c *ssa.CallCommon, fnT *Term, args []*Term) (*ssa.Function, []*Term, []*Term) {
	if c.IsInvoke() {
		r := args[0]
		if r.Op == "iface" {
			if m := w.p.SSA.LookupMethod(r.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				na := append([]*Term{r.Args[0]}, args[1:]...)
				return m, na, nil
			}
		}
		return nil, nil, nil
	}
	if fnT == nil {
		return nil, nil, nil
	}
	switch fnT.Op {
	case "func":
		return fnT.Obj.(*ssa.Function), args, nil
	case "closure":
		return fnT.Obj.(*ssa.Function), args, fnT.Args
	}
	return nil, nil, nil
}

func (w *Walker) invoke(s *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term, dfr *ssa.Defer) *State {
	// builtins
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		r := w.builtin(s, f, in, b.Name(), c, args, dfr != nil)
		if v, ok := in.(ssa.Value); ok && dfr == nil && r != nil {
			f.env[v] = r
		}
		if dfr == nil {
			f.pc++
		}
		return s
	}
	fn, nargs, binds := w.target(c, fnT, args)
	if fn != nil && (w.p.isRepoFn(fn) || fn.Pkg == nil) && len(fn.Blocks) > 0 {
		// wrappers around external methods (bound, promoted) have bodies too
		if !w.onStack(s, fn) && !w.p.recursionCut()[fn] && len(s.frames) < w.opt.MaxDepth && !(w.opt.Opaque != nil && inRepoPath(fnPkgPath(fn)) && w.opt.Opaque(fn)) && !(w.opt.Pure != nil && w.opt.Pure(fn)) {
			visit := f.visits[f.b.Index]
			nf := &Frame{fn: fn, ctx: w.ctx(f.ctx, fn, in, visit), b: fn.Blocks[0], env: map[ssa.Value]*Term{}, visits: map[int]int{0: 1}, call: in}
			if dfr != nil {
				nf.retTo = 1
				nf.deferOf = dfr
			} else if f.deferOf != nil {
				nf.deferOf = f.deferOf
			}
			for i, p := range fn.Params {
				if i < len(nargs) {
					nf.env[p] = nargs[i]
				}
			}
			for i, p := range fn.FreeVars {
				if i < len(binds) {
					nf.env[p] = binds[i]
				}
			}
			if fn.Synthetic == "" || fn.Parent() != nil || strings.HasPrefix(fn.Synthetic, "instance") {
				s.emit(&Event{Kind: "enter", In: in, SFn: fn, Name: shortName(fn), Callee: fnObj(fn), Args: nargs, Defer: dfr != nil})
			}
			if len(fn.Params) > 0 && fn.Signature.Recv() != nil && len(nargs) > 0 {
				w.recvCheck(s, in, nargs[0], c)
			}
			if w.opt.Merge {
				nf.bar = &barrier{base: s.ev, mem: s.mem.clone(), facts: s.facts, frame: len(s.frames)}
				w.work = append(w.work, workItem{bar: nf.bar})
			}
			s.frames = append(s.frames, nf)
			return s
		}
		if w.opt.Pure != nil && w.opt.Pure(fn) {
			rs := resultTerms("", fnObj(fn), fn.Signature, w.resolveArgs(s, nargs))
			s.emit(&Event{Kind: "call", In: in, SFn: fn, Name: shortName(fn), Callee: fnObj(fn), Args: nargs, Raw: nargs, Res: rs, Defer: dfr != nil || f.deferOf != nil})
			return w.setResult(s, f, in, rs, dfr)
		}
		return w.opaque(s, f, in, c, fn, nargs, dfr)
	}
	return w.external(s, f, in, c, fnT, fn, args, dfr)
}

func fnObj(fn *ssa.Function) *types.Func {
	o, _ := fn.Object().(*types.Func)
	if o == nil && fn.Origin() != nil {
		o, _ = fn.Origin().Object().(*types.Func)
	}
	return o
}

func (w *Walker) recvCheck(s *State, in ssa.Instruction, r *Term, c *ssa.CallCommon) {}

func (w *Walker) onStack(s *State, fn *ssa.Function) bool {
	n := 0
	for _, f := range s.frames {
		if f.fn == fn {
			n++
		}
	}
	return n > 0
}

func resultTerms(key string, obj any, sig *types.Signature, args []*Term) []*Term {
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		k := key
		if sig.Results().Len() > 1 {
			k = fmt.Sprintf("%s#%d", key, i)
		}
		rs = append(rs, mk("call", k, obj, t, args...))
	}
	return rs
}

func (w *Walker) setResult(s *State, f *Frame, in ssa.Instruction, rs []*Term, dfr *ssa.Defer) *State {
	if dfr != nil {
		return s
	}
	if v, ok := in.(ssa.Value); ok {
		switch len(rs) {
		case 0:
		case 1:
			f.env[v] = rs[0]
		default:
			f.env[v] = mk("tuple", "", nil, v.Type(), rs...)
		}
	}
	f.pc++
	return s
}

// opaque handles a repository function that is not expanded (recursion,
// depth, rule-specific summaries).
func (w *Walker) opaque(s *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, fn *ssa.Function, args []*Term, dfr *ssa.Defer) *State {
	key := s.key(f, in)
	rargs := w.resolveArgs(s, args)
	rs := resultTerms(key, fn, fn.Signature, rargs)
	s.emit(&Event{Kind: "call", In: in, SFn: fn, Name: shortName(fn), Callee: fnObj(fn), Args: rargs, Raw: args, Res: rs, Defer: dfr != nil || f.deferOf != nil})
	if w.opt.Harmless == nil || !w.opt.Harmless(fn) {
		for _, a := range args {
			w.havocArg(s, a)
		}
	}
	if w.opt.Inert == nil || !w.opt.Inert(fn) {
		s.forgetMutable(nil)
	}
	return w.setResult(s, f, in, rs, dfr)
}

func (w *Walker) resolveArgs(s *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = s.resolve(a)
	}
	return out
}

// havocArg: an unknown callee may write through a pointer or slice argument.
func (w *Walker) havocArg(s *State, a *Term) {
	if a.Op == "iface" {
		a = a.Args[0]
	}
	switch a.Op {
	case "closure":
		for _, b := range a.Args {
			if isLocalRoot(rootOf(b)) && writesFree(a.Obj.(*ssa.Function)) {
				s.forgetRoot(rootOf(b))
			}
		}
		return
	case "alloc", "mkslice", "mkmap":
		s.forgetRoot(a)
	case "slice", "iaddr", "faddr":
		r := rootOf(a)
		if isLocalRoot(r) {
			s.forgetRoot(r)
			return
		}
		// part of a shared object
		s.mem.epoch++
		cls := classOf(a)
		if a.Op == "slice" {
			for k := range s.mem.cells {
				if rootOf(k) == r && (k == a.Args[0] || k.Op == "iaddr") {
					delete(s.mem.cells, k)
				}
			}
			if a.Args[0].Op == "faddr" {
				delete(s.mem.cells, a.Args[0])
				s.mem.ver[classOf(a.Args[0])]++
			}
			return
		}
		delete(s.mem.cells, a)
		s.mem.ver[cls]++
	default:
		if a.T != nil {
			if sl, ok := a.T.Underlying().(*types.Slice); ok {
				cls := "e" + types.NewPointer(sl.Elem()).String()
				for k := range s.mem.cells {
					if classOf(k) == cls && rootOf(k) == rootOf(a) {
						delete(s.mem.cells, k)
					}
				}
				s.mem.ver[cls]++
			}
		}
	}
}

func (w *Walker) builtin(s *State, f *Frame, in ssa.Instruction, name string, c *ssa.CallCommon, args []*Term, isDefer bool) *Term {
	it := types.Typ[types.Int]
	var rt types.Type = it
	if v, ok := in.(ssa.Value); ok {
		rt = v.Type()
	}
	switch name {
	case "len":
		t := c.Args[0].Type().Underlying()
		if _, ok := t.(*types.Map); ok {
			ms := s.mapState(args[0])
			if args[0].Op == "nil" {
				return mkInt(0, it)
			}
			if ms.known && len(ms.keys) == 0 {
				return mkInt(0, it)
			}
			return mk("len", fmt.Sprintf("%d.%d", ms.ver, s.mem.ver["m"]), nil, it, args[0])
		}
		if _, ok := t.(*types.Chan); ok {
			return mk("chlen", s.key(f, in), nil, it, args[0])
		}
		return mkLen(args[0])
	case "cap":
		if n, ok := arrayLen(args[0].T); ok {
			return mkInt(n, it)
		}
		if args[0].Op == "mkslice" {
			return args[0].Args[0]
		}
		return mk("cap", "", nil, it, args[0])
	case "append":
		x := args[0]
		if len(args) < 2 {
			return x
		}
		y := s.resolve(args[1])
		if isString(args[1].T) {
			y = mk("conv", "", nil, rt, args[1])
		}
		r := mkConcat(x, y, rt)
		s.emit(&Event{Kind: "append", In: in, Args: []*Term{x, y}, Res: []*Term{r}})
		return r
	case "copy":
		dst, src := args[0], args[1]
		n := mkMin(s, mkLen(dst), mkLen(src))
		rsrc := s.resolve(src)
		s.emit(&Event{Kind: "copy", In: in, Addr: dst, Val: rsrc, Args: []*Term{n}})
		w.copyInto(s, dst, rsrc, n)
		return n
	case "min", "max":
		if len(args) == 2 {
			if isInt(rt) {
				d := polyAdd(polyOf(args[0]), polyOf(args[1]), -1)
				le := entails(s.facts, d)
				ge := entails(s.facts, polyAdd(&Poly{}, d, -1))
				if le && name == "min" || ge && name == "max" {
					return args[0]
				}
				if ge && name == "min" || le && name == "max" {
					return args[1]
				}
			}
			x, y := args[0], args[1]
			if x.ID > y.ID {
				x, y = y, x
			}
			return mk(name, "", nil, rt, x, y)
		}
		return mk(name, "", nil, rt, args...)
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		_, had := s.mapGet(args[0], args[1], mt.Elem())
		s.mapSet(args[0], args[1], absent, mt.Elem())
		var fld *types.Var
		fld = w.fieldOfVal(c.Args[0])
		s.emit(&Event{Kind: "mapdelete", In: in, Addr: args[0], Args: []*Term{args[1]}, Res: []*Term{had}, Field: fld, Defer: isDefer || f.deferOf != nil})
		return nil
	case "clear":
		if args[0].T != nil {
			if _, ok := args[0].T.Underlying().(*types.Map); ok {
				s.forgetMap(args[0])
			} else {
				w.havocArg(s, args[0])
			}
		}
		s.emit(&Event{Kind: "clear", In: in, Addr: args[0], Field: w.fieldOfVal(c.Args[0])})
		return nil
	case "close":
		s.emit(&Event{Kind: "close", In: in, Addr: args[0], Field: w.fieldOfVal(c.Args[0]), Defer: isDefer || f.deferOf != nil})
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		return mkNil()
	case "print", "println":
		return nil
	}
	return mk("app", name, nil, rt, args...)
}

func mkMin(s *State, a, b *Term) *Term {
	d := polyAdd(polyOf(a), polyOf(b), -1)
	if entails(s.facts, d) {
		return a
	}
	if entails(s.facts, polyAdd(&Poly{}, d, -1)) {
		return b
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("min", "", nil, types.Typ[types.Int], a, b)
}

// copyInto updates local byte arrays filled by copy.
func (w *Walker) copyInto(s *State, dst, src, n *Term) {
	base := dst
	if dst.Op == "slice" {
		base = dst.Args[0]
	}
	if al, ok := arrayLen(base.T); ok && dst.Op == "slice" {
		// whole-array copy: the array becomes (a function of) the source
		if dst.Args[1] == nil && dst.Args[2] == nil {
			for k := range s.mem.cells {
				if k.Op == "iaddr" && k.Args[0] == base {
					delete(s.mem.cells, k)
				}
			}
			et := elemType(base.T)
			at := types.NewArray(et, al)
			v := mk("arrof", "", nil, at, src, n)
			if src.Op == "arr" && types.Identical(src.Args[0].T, at) {
				v = src.Args[0]
			}
			if src.Op == "slice" && src.Args[1] == nil && src.Args[2] == nil {
				if sl, ok := arrayLen(src.Args[0].T); ok && sl == al {
					v = s.load(src.Args[0], at)
				}
			}
			s.store(base, v, at)
			return
		}
	}
	w.havocArg(s, dst)
}

// spawn starts a new thread of control from the current state.
func (w *Walker) spawn(s *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, args []*Term, how string) {
	fn, nargs, binds := w.target(c, fnT, args)
	e := &Event{Kind: "spawn", In: in, Name: how, Args: args, SFn: fn}
	s.emit(e)
	w.spawnFn(s, f, in, fn, nargs, binds, how)
}

func (w *Walker) spawnFn(s *State, f *Frame, in ssa.Instruction, fn *ssa.Function, args, binds []*Term, how string) {
	if fn == nil || w.opt.NoSpawn || len(fn.Blocks) == 0 || !(w.p.isRepoFn(fn) || fn.Pkg == nil) || w.onStack(s, fn) || s.thread > 3 {
		return
	}
	key := fmt.Sprintf("%p", in)
	for _, a := range args {
		key += fmt.Sprintf("|%d", a.ID)
	}
	for _, b := range binds {
		v := b
		if c, ok := s.mem.cells[b]; ok {
			v = c
		}
		key += fmt.Sprintf("|%d:%d", b.ID, v.ID)
	}
	key += "|" + s.aux + factKey(s.facts)
	if w.spawned[key] {
		return
	}
	w.spawned[key] = true
	n := s.clone()
	n.thread++
	n.locks = nil
	n.start = nil
	n.panics = false
	n.forgetMutable(nil)
	nf := &Frame{fn: fn, ctx: w.ctx(f.ctx, fn, in, 100+n.thread), b: fn.Blocks[0], env: map[ssa.Value]*Term{}, visits: map[int]int{0: 1}, call: in, retTo: 1}
	for i, p := range fn.Params {
		if i < len(args) {
			nf.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			nf.env[p] = binds[i]
		}
	}
	n.frames = []*Frame{nf}
	n.emit(&Event{Kind: "thread", In: in, SFn: fn, Name: how, Args: args})
	w.push(n)
}

// ---- external calls

var appNames = map[string]bool{}

func init() {
	for _, n := range strings.Fields(`
path/filepath.Join path/filepath.Clean path/filepath.Base path/filepath.Dir path/filepath.Ext path/filepath.IsLocal path/filepath.IsAbs path/filepath.FromSlash path/filepath.ToSlash path/filepath.Rel path/filepath.Abs path/filepath.Separator
path.Join path.Clean path.Base path.Dir
io/fs.ValidPath
fmt.Sprintf fmt.Sprint fmt.Sprintln
strings.ToLower strings.ToUpper strings.Contains strings.ContainsRune strings.ContainsAny strings.HasPrefix strings.HasSuffix strings.TrimSuffix strings.TrimPrefix strings.TrimSpace strings.Trim strings.TrimLeft strings.TrimRight strings.Split strings.SplitN strings.Join strings.Repeat strings.Index strings.IndexByte strings.LastIndex strings.EqualFold strings.Replace strings.ReplaceAll strings.Fields strings.Cut strings.CutPrefix strings.CutSuffix strings.Count
bytes.Equal bytes.Compare bytes.HasPrefix bytes.Contains bytes.IndexByte
strconv.Itoa strconv.FormatInt strconv.FormatUint strconv.Quote strconv.FormatBool
strconv.Atoi strconv.ParseInt strconv.ParseUint strconv.ParseBool
errors.Is
slices.Contains slices.Equal slices.Index slices.Max slices.Min
net.ParseIP net.IPv4 (net.IP).String (net.IP).To4 (net.IP).To16 (net.IP).Equal (net.IP).IsLoopback (net.IP).IsUnspecified net.JoinHostPort
net/netip.ParseAddr (net/netip.Addr).String (net/netip.Addr).Unmap (net/netip.Addr).Is4 net/netip.AddrPortFrom (net/netip.AddrPort).String
net/url.ParseQuery (net/url.Values).Get (net/url.Values).Has (net/url.Values).Encode
crypto/sha1.Sum crypto/sha256.Sum256
(reflect.Value).Kind (reflect.Value).Type (reflect.Value).CanAddr (reflect.Value).CanSet (reflect.Value).CanInterface (reflect.Value).NumMethod (reflect.Value).NumField (reflect.Value).Addr (reflect.Value).Index (reflect.Value).Field (reflect.Value).IsValid
reflect.TypeOf reflect.TypeFor reflect.PointerTo reflect.ValueOf
(reflect.Type).Kind (reflect.Type).Elem (reflect.Type).Key (reflect.Type).Implements (reflect.Type).NumField (reflect.Type).Field (reflect.Type).String (reflect.Type).Name (reflect.Type).NumMethod (reflect.Type).Len (reflect.Type).AssignableTo (reflect.Type).PkgPath (reflect.StructField).IsExported (reflect.StructTag).Get (reflect.StructTag).Lookup
(reflect.Value).OverflowInt (reflect.Value).OverflowUint
(time.Time).Add (time.Time).Sub (time.Time).After (time.Time).Before (time.Time).IsZero (time.Time).Unix (time.Duration).Seconds time.Unix (time.Time).Equal (time.Time).Compare
encoding/hex.EncodeToString
(encoding/binary.bigEndian).Uint16 (encoding/binary.bigEndian).Uint32 (encoding/binary.bigEndian).Uint64
(encoding/binary.littleEndian).Uint16 (encoding/binary.littleEndian).Uint32 (encoding/binary.littleEndian).Uint64
(encoding/binary.bigEndian).AppendUint32 (encoding/binary.bigEndian).AppendUint16 (encoding/binary.littleEndian).AppendUint32
(*os.File).Name
math/bits.OnesCount8 math/bits.LeadingZeros8 math/bits.TrailingZeros8
io.LimitReader io.MultiReader bytes.NewReader strings.NewReader io.TeeReader io.NopCloser io.MultiWriter
bytes.Clone slices.Clone maps.Keys slices.Sorted slices.Collect
(net.Addr).String (net.Conn).RemoteAddr (net.Conn).LocalAddr
(*net/url.URL).Query (*net/url.URL).String
(*net.TCPAddr).String
`) {
		appNames[n] = true
	}
}

// bumps the version of mutable reflect state
var reflectVersioned = map[string]bool{
	"(reflect.Value).IsNil": true, "(reflect.Value).Len": true, "(reflect.Value).Cap": true, "(reflect.Value).Elem": true,
	"(reflect.Value).String": true, "(reflect.Value).Int": true, "(reflect.Value).Uint": true, "(reflect.Value).Bytes": true,
	"(reflect.Value).IsZero": true, "(reflect.Value).MapKeys": true, "(reflect.Value).MapIndex": true, "(reflect.Value).Interface": true, "(reflect.Value).Bool": true,
}

func (w *Walker) external(s *State, f *Frame, in ssa.Instruction, c *ssa.CallCommon, fnT *Term, fn *ssa.Function, args []*Term, dfr *ssa.Defer) *State {
	obj := calleeObj(c)
	name := qualName(obj)
	if obj == nil && fn != nil {
		obj = fnObj(fn)
		name = qualName(obj)
	}
	if name == "" {
		name = "dynamic"
	}
	sig := c.Signature()
	isDefer := dfr != nil || f.deferOf != nil
	key := s.key(f, in)
	if dfr != nil {
		key += "d"
	}
	pkg := ""
	if obj != nil && obj.Pkg() != nil {
		pkg = obj.Pkg().Path()
	}
	// dynamic dispatch on a concrete external type known on this path
	if c.IsInvoke() && args[0].Op == "iface" {
		if m := w.p.SSA.LookupMethod(args[0].T, c.Method.Pkg(), c.Method.Name()); m != nil {
			if o := fnObj(m); o != nil {
				obj, name = o, qualName(o)
				if obj.Pkg() != nil {
					pkg = obj.Pkg().Path()
				}
				args = append([]*Term{args[0].Args[0]}, args[1:]...)
			}
		}
	}
	if c.IsInvoke() && obj != nil && obj.Name() == "Write" && strings.HasPrefix(types.TypeString(c.Value.Type(), nil), "hash.Hash") {
		name = "(hash.Hash).Write"
	}
	if pkg == "log/slog" {
		if strings.HasPrefix(obj.Name(), "Debug") || strings.HasPrefix(obj.Name(), "Info") || strings.HasPrefix(obj.Name(), "Warn") || strings.HasPrefix(obj.Name(), "Error") {
			return w.setResult(s, f, in, resultTerms(key, obj, sig, nil), dfr)
		}
	}
	if st, done := w.modelLock(s, f, in, name, args, sig, dfr, isDefer); done {
		return st
	}
	var call any = obj
	if obj == nil {
		call = nil
	}
	rargs := w.resolveArgs(s, args)

	if name == "sync/atomic.AddInt64" || strings.HasPrefix(name, "(*sync/atomic.") {
		m := name[strings.LastIndex(name, ".")+1:]
		rs := resultTerms(key, call, sig, rargs)
		s.emit(&Event{Kind: "atomic", In: in, Name: m, Callee: obj, Addr: args[0], Args: rargs, Res: rs, Field: fieldOfAddr(args[0]), Defer: isDefer})
		return w.setResult(s, f, in, rs, dfr)
	}
	if name == "bytes.Equal" && len(args) == 2 {
		if x, y := s.resolve(args[0]), s.resolve(args[1]); sameArrays(x, y) {
			return w.setResult(s, f, in, []*Term{mkEq(x.Args[0], y.Args[0])}, dfr)
		}
	}
	if appNames[name] {
		rs := w.appResults(s, name, obj, sig, rargs)
		s.emit(&Event{Kind: "call", In: in, Name: name, Callee: obj, Args: rargs, Raw: args, Res: rs, Defer: isDefer})
		w.appFacts(s, name, rs, rargs)
		if strings.HasPrefix(name, "(encoding/binary.") {
			w.binaryCheck(s, in, name, args)
		}
		return w.setResult(s, f, in, rs, dfr)
	}
	if reflectVersioned[name] {
		v := fmt.Sprintf("%s@%d", obj.Name(), s.mem.ver["reflect"])
		if s.mem.ver["reflect"] == 0 {
			v = obj.Name()
		}
		rs := []*Term{mk("app", v, obj, sig.Results().At(0).Type(), rargs...)}
		if a := rargs[0]; obj.Name() == "String" && a.Op == "app" && a.S == "reflect.ValueOf" && unconv(a.Args[0]).T != nil && isString(unconv(a.Args[0]).T) {
			rs[0] = unconv(a.Args[0])
		}
		s.emit(&Event{Kind: "call", In: in, Name: name, Callee: obj, Args: rargs, Raw: args, Res: rs, Defer: isDefer})
		if obj.Name() == "Len" || obj.Name() == "Cap" {
			s.fact(condLe0(polyAdd(&Poly{}, polyOf(rs[0]), -1)))
		}
		return w.setResult(s, f, in, rs, dfr)
	}
	// spawning helpers
	switch name {
	case "(*golang.org/x/sync/errgroup.Group).Go", "(*golang.org/x/sync/errgroup.Group).TryGo", "(*sync.WaitGroup).Go":
		s.emit(&Event{Kind: "spawn", In: in, Name: name, Callee: obj, Args: args})
		w.spawnTerm(s, f, in, args[1], nil, name)
		return w.setResult(s, f, in, resultTerms(key, call, sig, rargs), dfr)
	case "time.AfterFunc", "context.AfterFunc":
		s.emit(&Event{Kind: "spawn", In: in, Name: name, Callee: obj, Args: args})
		w.spawnTerm(s, f, in, args[1], nil, name)
		return w.setResult(s, f, in, resultTerms(key, call, sig, rargs), dfr)
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "math/rand.Shuffle", "sort.Search", "slices.ContainsFunc", "slices.IndexFunc", "slices.DeleteFunc", "maps.DeleteFunc":
		rs := resultTerms(key, call, sig, rargs)
		s.emit(&Event{Kind: "call", In: in, Name: name, Callee: obj, Args: rargs, Raw: args, Res: rs, Defer: isDefer})
		w.callback(s, f, in, name, args)
		if name != "sort.Search" && name != "slices.ContainsFunc" && name != "slices.IndexFunc" {
			for _, a := range args {
				b := a
				if b.Op == "iface" {
					b = b.Args[0]
				}
				if b.Op != "closure" && b.Op != "func" {
					w.havocArg(s, b)
				}
			}
		}
		return w.setResult(s, f, in, rs, dfr)
	case "(*sync.Once).Do":
		if t := args[1]; t.Op == "func" || t.Op == "closure" {
			g := t.Obj.(*ssa.Function)
			if len(g.Blocks) > 0 && w.p.isRepoFn(g) && !w.onStack(s, g) && len(s.frames) < w.opt.MaxDepth {
				// it ran before, or it runs now
				w.joinBarrier(s, f)
				o := s.clone()
				o.emit(&Event{Kind: "once", In: in, Addr: args[0], OK: false})
				of := o.top()
				if dfr == nil {
					of.pc++
				}
				w.push(o)
				s.emit(&Event{Kind: "once", In: in, Addr: args[0], OK: true})
				nf := &Frame{fn: g, ctx: w.ctx(f.ctx, g, in, f.visits[f.b.Index]), b: g.Blocks[0], env: map[ssa.Value]*Term{}, visits: map[int]int{0: 1}, call: in, deferOf: f.deferOf}
				if dfr != nil {
					nf.retTo, nf.deferOf = 1, dfr
				}
				for i, p := range g.FreeVars {
					if i < len(t.Args) {
						nf.env[p] = t.Args[i]
					}
				}
				if w.opt.Merge {
					nf.bar = &barrier{base: s.ev, mem: s.mem.clone(), facts: s.facts, frame: len(s.frames)}
					w.work = append(w.work, workItem{bar: nf.bar})
				}
				s.frames = append(s.frames, nf)
				return s
			}
		}
	}
	rs := resultTerms(key, call, sig, rargs)
	if r := w.special(s, f, in, name, obj, args, rargs, key, sig); r != nil {
		rs = r
	}
	var callee *Term
	if name == "dynamic" {
		callee = fnT
	}
	e := s.emit(&Event{Kind: "call", In: in, Name: name, Callee: obj, Val: callee, Args: rargs, Raw: args, Res: rs, Defer: isDefer, Field: func() *types.Var {
		if len(args) > 0 {
			return fieldOfAddr(args[0])
		}
		return nil
	}()})
	w.after(s, f, in, name, args, rs, e)
	if name == "(context.Context).Err" && dfr == nil {
		// asking for the error is looking whether the context is done
		if v, known := s.query(mkEq(rs[0], mkNil())); !known || v {
			if it, ok := obj.Pkg().Scope().Lookup("Context").Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					d := it.Method(i)
					if d.Name() != "Done" {
						continue
					}
					ch := mk("app", "(context.Context).Done", d, d.Type().(*types.Signature).Results().At(0).Type(), args[0])
					n := s.clone()
					if !known && n.assume(mkEq(rs[0], mkNil()), false) {
						n.emit(&Event{Kind: "select", In: in, Case: 0, Name: "recv", Args: []*Term{ch}, Addr: ch, Val: mkNil()})
						if n = w.setResult(n, n.top(), in, rs, nil); n != nil {
							w.push(n)
						}
					}
					if !s.assume(mkEq(rs[0], mkNil()), true) {
						return nil
					}
					s.emit(&Event{Kind: "select", In: in, Case: -1, Args: []*Term{ch}})
				}
			}
		}
	}
	return w.setResult(s, f, in, rs, dfr)
}

func fieldOfAddr(a *Term) *types.Var {
	if a != nil && a.Op == "faddr" {
		v, _ := a.Obj.(*types.Var)
		return v
	}
	if a != nil && a.Op == "init" {
		return fieldOfAddr(a.Args[0])
	}
	return nil
}

func (w *Walker) spawnTerm(s *State, f *Frame, in ssa.Instruction, t *Term, args []*Term, how string) {
	switch t.Op {
	case "func":
		w.spawnFn(s, f, in, t.Obj.(*ssa.Function), args, nil, how)
	case "closure":
		w.spawnFn(s, f, in, t.Obj.(*ssa.Function), args, t.Args, how)
	}
}

// factKey identifies what is known on the way to here.
func factKey(fs *Facts) string {
	var ids []int
	for ; fs != nil; fs = fs.prev {
		id := fs.t.ID * 2
		if fs.val {
			id++
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

// callback walks a comparison/visitor function as its own thread with the
// arguments its caller promises.
func (w *Walker) callback(s *State, f *Frame, in ssa.Instruction, name string, args []*Term) {
	t := args[len(args)-1]
	fn, ok := t.Obj.(*ssa.Function)
	if !ok || t.Op != "closure" && t.Op != "func" || len(fn.Blocks) == 0 || !w.p.isRepoFn(fn) || w.opt.NoSpawn {
		return
	}
	key := fmt.Sprintf("cb%p", in) + factKey(s.facts)
	if w.spawned[key] {
		return
	}
	w.spawned[key] = true
	n := s.clone()
	n.thread++
	n.start = n.locks
	var pa []*Term
	for i, p := range fn.Params {
		pa = append(pa, mk("cbarg", fmt.Sprintf("%s.%d", s.key(f, in), i), p, p.Type()))
	}
	var L *Term
	switch name {
	case "sort.Slice", "sort.SliceStable":
		a := args[0]
		if a.Op == "iface" {
			a = a.Args[0]
		}
		L = mkLen(a)
	case "math/rand.Shuffle":
		L = args[0]
	}
	if L != nil {
		for _, p := range pa {
			n.fact(condLe0(polyAdd(&Poly{}, polyOf(p), -1)))
			n.fact(condLe0(polyAdd(polyAdd(polyOf(p), polyOf(L), -1), &Poly{C: 1}, 1)))
		}
	}
	nf := &Frame{fn: fn, ctx: w.ctx(f.ctx, fn, in, 100+n.thread), b: fn.Blocks[0], env: map[ssa.Value]*Term{}, visits: map[int]int{0: 1}, call: in, retTo: 1}
	for i, p := range fn.Params {
		nf.env[p] = pa[i]
	}
	for i, p := range fn.FreeVars {
		if i < len(t.Args) {
			nf.env[p] = t.Args[i]
		}
	}
	n.frames = []*Frame{nf}
	n.emit(&Event{Kind: "thread", In: in, SFn: fn, Name: "callback:" + name, Args: args})
	w.push(n)
}

// ---- locks

func (w *Walker) modelLock(s *State, f *Frame, in ssa.Instruction, name string, args []*Term, sig *types.Signature, dfr *ssa.Defer, isDefer bool) (*State, bool) {
	if !strings.HasPrefix(name, "(*sync.Mutex).") && !strings.HasPrefix(name, "(*sync.RWMutex).") && !strings.HasPrefix(name, "(sync.Locker).") {
		return nil, false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	a := args[0]
	switch m {
	case "Lock", "RLock":
		s.emit(&Event{Kind: "lock", In: in, Name: m, Addr: a, Field: fieldOfAddr(a), Defer: isDefer})
		s.locks = &Lock{a, m == "Lock", in, s.locks}
		w.lockEpoch(s, a)
	case "Unlock", "RUnlock":
		held := false
		for l := s.locks; l != nil; l = l.prev {
			if l.Addr == a && l.Write == (m == "Unlock") {
				held = true
			}
		}
		s.emit(&Event{Kind: "unlock", In: in, Name: m, Addr: a, OK: held, Field: fieldOfAddr(a), Defer: isDefer})
		s.locks = s.locks.remove(a, m == "Unlock")
	case "TryLock", "TryRLock":
		key := s.key(f, in)
		o := s.clone()
		of := o.top()
		w.setResult(o, of, in, []*Term{mkBool(false)}, dfr)
		w.push(o)
		s.emit(&Event{Kind: "lock", In: in, Name: m, Addr: a, Field: fieldOfAddr(a), Defer: isDefer})
		s.locks = &Lock{a, m == "TryLock", in, s.locks}
		w.lockEpoch(s, a)
		_ = key
		return w.setResult(s, f, in, []*Term{mkBool(true)}, dfr), true
	default:
		return nil, false
	}
	return w.setResult(s, f, in, nil, dfr), true
}

// lockEpoch: whatever the mutex protects may have changed while it was free.
func (w *Walker) lockEpoch(s *State, a *Term) {
	if a.Op != "faddr" {
		s.forgetMutable(nil)
		return
	}
	fld := a.Obj.(*types.Var)
	own := w.p.ownerFields(fld)
	s.mem.epoch++
	for _, v := range own {
		if w.p.immutable[v] {
			continue
		}
		cls := fmt.Sprintf("f%d", objID(v))
		for k := range s.mem.cells {
			if classOf(k) == cls && !isLocalRoot(rootOf(k)) {
				delete(s.mem.cells, k)
			}
		}
		s.mem.ver[cls]++
	}
	for k, ms := range s.mem.maps {
		if isLocalRoot(rootOf(k)) {
			continue
		}
		ms.ver++
		ms.known = false
	}
	for k := range s.mem.cells {
		if k.Op == "maddr" && !isLocalRoot(k.Args[0]) {
			delete(s.mem.cells, k)
		}
	}
	s.mem.ver["m"]++
}

// ownerFields lists the fields of the struct that declares f.
func (p *Program) ownerFields(f *types.Var) []*types.Var {
	if p.owner == nil {
		p.owner = map[*types.Var][]*types.Var{}
		for _, pk := range p.Pkgs {
			for _, n := range pk.Types.Scope().Names() {
				tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
				if !ok {
					continue
				}
				st, ok := tn.Type().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				var fs []*types.Var
				for i := 0; i < st.NumFields(); i++ {
					fs = append(fs, originField(st.Field(i)))
				}
				for _, v := range fs {
					p.owner[v] = fs
				}
			}
		}
	}
	return p.owner[f]
}
