package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Byte images: what one path writes to a writer or buffer, and from which
// offsets of its input a value was read. Computed from a path's events.

// tok is a part of a byte sequence.
type tok struct {
	kind string // byte, be16, be32, be64, le.., zero, bytes
	val  *Term
	n    *Poly
}

func (t tok) String() string {
	if t.kind == "zero" {
		return fmt.Sprintf("zero(%d)", t.n.C)
	}
	return t.kind + "(" + trunc(t.val.String(), 60) + ")"
}

func toksString(ts []tok) string {
	var ss []string
	for _, t := range ts {
		ss = append(ss, t.String())
	}
	return strings.Join(ss, " ")
}

type imgSeg struct {
	off, n *Poly
	t      tok
}

// image of the memory written on a path.
type image struct {
	s       *State
	mem     map[*Term][]imgSeg // by base
	out     map[*Term][]tok    // by writer
	lastErr *Term
	strange string
}

func polyConst(c int64) *Poly { return &Poly{C: c} }

func polySub(a, b *Poly) *Poly { return polyAdd(a, b, -1) }

// eqPoly: a == b on this path.
func eqPoly(s *State, a, b *Poly) bool {
	d := polySub(a, b)
	if len(d.Ms) == 0 {
		return d.C == 0
	}
	v, known := s.query(boolTerm(condEq0(d)))
	return known && v
}

// lePoly: a <= b on this path.
func lePoly(s *State, a, b *Poly) bool {
	d := polySub(a, b)
	if len(d.Ms) == 0 {
		return d.C <= 0
	}
	v, known := s.query(boolTerm(condLe0(d)))
	return known && v
}

// baseOf splits a slice into its base and offset.
func baseOf(t *Term) (*Term, *Poly) {
	off := polyConst(0)
	for t != nil {
		switch {
		case t.Op == "slice":
			if t.Args[1] != nil {
				off = polyAdd(off, polyOf(t.Args[1]), 1)
			}
			t = t.Args[0]
			continue
		case t.Op == "conv" && (isString(t.T) || isByteSlice(t.T)):
			t = t.Args[0]
			continue
		case t.Op == "iface":
			t = t.Args[0]
			continue
		}
		break
	}
	return t, off
}

func lenPoly(t *Term) *Poly {
	t = unconv(t)
	if t.Op == "arr" && t.Args[0].T != nil {
		if n, ok := arrayLen(t.Args[0].T); ok {
			return polyConst(n)
		}
	}
	return polyOf(mkLen(t))
}

func (im *image) put(base *Term, off, n *Poly, t tok) {
	im.mem[base] = append(im.mem[base], imgSeg{off, n, t})
}

// read gives the parts of base[lo:hi] as they stand.
func (im *image) read(base *Term, lo, hi *Poly) ([]tok, bool) {
	var out []tok
	segs := im.mem[base]
	fresh := base.Op == "alloc" || strings.HasPrefix(base.Op, "mkslice")
	for guard := 0; !eqPoly(im.s, lo, hi); guard++ {
		if guard > 200 {
			return out, false
		}
		found := false
		for i := len(segs) - 1; i >= 0 && !found; i-- {
			if eqPoly(im.s, segs[i].off, lo) {
				out = append(out, segs[i].t)
				lo = polyAdd(lo, segs[i].n, 1)
				found = true
			}
		}
		if found {
			continue
		}
		if !fresh {
			return out, false
		}
		// zero up to the next part
		var next *Poly
		for _, sg := range append(append([]imgSeg{}, segs...), imgSeg{off: hi}) {
			d := polySub(sg.off, lo)
			if len(d.Ms) == 0 && d.C > 0 && (next == nil || polySub(sg.off, next).C < 0) {
				next = sg.off
			}
		}
		if next == nil {
			return out, false
		}
		// nothing that starts before may reach into the gap
		for _, sg := range segs {
			if !lePoly(im.s, polyAdd(sg.off, sg.n, 1), lo) && !lePoly(im.s, next, sg.off) {
				return out, false
			}
		}
		out = append(out, tok{"zero", nil, polySub(next, lo)})
		lo = next
	}
	return out, true
}

// bytesOf gives the parts of a byte string or slice.
func (im *image) bytesOf(t *Term) ([]tok, bool) {
	if t == nil || t.Op == "nil" {
		return nil, true
	}
	t = unconv(t)
	if c, ok := t.isStrConst(); ok {
		var out []tok
		for i := 0; i < len(c); i++ {
			out = append(out, tok{"byte", mkInt(int64(c[i]), types.Typ[types.Uint8]), polyConst(1)})
		}
		return out, true
	}
	switch t.Op {
	case "concat":
		var out []tok
		for _, a := range t.Args {
			p, ok := im.bytesOf(a)
			if !ok {
				return out, false
			}
			out = append(out, p...)
		}
		return out, true
	case "be16", "be32", "be64", "le16", "le32", "le64":
		n := map[string]int64{"16": 2, "32": 4, "64": 8}[t.Op[2:]]
		return []tok{{t.Op, t.Args[0], polyConst(n)}}, true
	case "list":
		var out []tok
		for i := 0; i < len(t.Args); {
			a := t.Args[i]
			if a.Op == "init" && a.Args[0].Op == "iaddr" && im.mem[a.Args[0].Args[0]] != nil {
				// an element of written memory: take as much as the list has
				b, off := a.Args[0].Args[0], polyOf(a.Args[0].Args[1])
				j := i + 1
				for j < len(t.Args) && t.Args[j].Op == "init" && t.Args[j].Args[0].Op == "iaddr" && t.Args[j].Args[0].Args[0] == b && eqPoly(im.s, polyOf(t.Args[j].Args[0].Args[1]), polyAdd(off, polyConst(int64(j-i)), 1)) {
					j++
				}
				p, ok := im.read(b, off, polyAdd(off, polyConst(int64(j-i)), 1))
				if !ok {
					return out, false
				}
				out = append(out, p...)
				i = j
				continue
			}
			out = append(out, tok{"byte", a, polyConst(1)})
			i++
		}
		return out, true
	}
	b, off := baseOf(t)
	if im.out[b] != nil && t.Op == "app" {
		return im.out[b], true
	}
	if b.Op == "arr" {
		b = b.Args[0]
	}
	if im.mem[b] != nil || b.Op == "alloc" || strings.HasPrefix(b.Op, "mkslice") {
		return im.read(b, off, polyAdd(off, lenPoly(t), 1))
	}
	if t.Op == "slice" && t.Args[0] != nil {
		if t.Args[1] == nil && t.Args[2] == nil {
			return im.bytesOf(t.Args[0])
		}
	}
	return []tok{{"bytes", t, lenPoly(t)}}, true
}

// replay computes the image of a path's events.
func (c *C) replay(t *Trace) *image {
	im := &image{s: t.Final, mem: map[*Term][]imgSeg{}, out: map[*Term][]tok{}}
	odd := func(e *Event, what string) {
		if im.strange == "" {
			im.strange = what + " at " + e.pos(c.p)
		}
	}
	bufOf := map[*Term]*Term{}
	write := func(e *Event, w, v *Term) {
		w = unconv(w)
		v = unconv(v)
		if b := bufOf[v]; b != nil {
			im.out[w] = append(im.out[w], im.out[b]...)
			return
		}
		p, ok := im.bytesOf(v)
		if !ok {
			odd(e, "write of bytes that are not tracked")
			return
		}
		if im.out[w] == nil {
			im.out[w] = []tok{}
		}
		im.out[w] = append(im.out[w], p...)
	}
	for _, e := range t.Ev {
		switch e.Kind {
		case "store":
			if e.Addr != nil && e.Addr.Op == "iaddr" && e.Val != nil && e.Val.T != nil && isInt(e.Val.T) {
				b, off := baseOf(e.Addr.Args[0])
				im.put(b, polyAdd(off, polyOf(e.Addr.Args[1]), 1), polyConst(1), tok{"byte", e.Val, polyConst(1)})
			}
		case "copy":
			b, off := baseOf(e.Addr)
			n := polyOf(e.Args[0])
			src := unconv(e.Val)
			p, ok := im.bytesOf(src)
			if !ok {
				odd(e, "copy of bytes that are not tracked")
				continue
			}
			if !eqPoly(im.s, n, lenPoly(src)) {
				// a prefix of the source
				if sb, so := baseOf(src); im.mem[sb] != nil {
					if p, ok = im.read(sb, so, polyAdd(so, n, 1)); !ok {
						odd(e, "partial copy")
						continue
					}
				} else if len(p) == 1 && p[0].kind == "bytes" {
					p = []tok{{"bytes", mk("slice", "", nil, src.T, src, nil, polyTerm(n, types.Typ[types.Int]), nil), n}}
				} else {
					odd(e, "partial copy")
					continue
				}
			}
			for _, x := range p {
				im.put(b, off, x.n, x)
				off = polyAdd(off, x.n, 1)
			}
		case "call":
			n := e.Name
			switch {
			case strings.Contains(n, "Endian).PutUint"):
				k := "be"
				if strings.Contains(n, "little") {
					k = "le"
				}
				bits := n[strings.Index(n, "PutUint")+7:]
				w := map[string]int64{"16": 2, "32": 4, "64": 8}[bits]
				d := e.Raw[1]
				b, off := baseOf(d)
				im.put(b, off, polyConst(w), tok{k + bits, e.Args[2], polyConst(w)})
			case n == "(io.Writer).Write" || n == "io.WriteString" || n == "(io.StringWriter).WriteString" || n == "(net.Conn).Write" ||
				strings.HasPrefix(n, "(*bytes.Buffer).Write") && n != "(*bytes.Buffer).WriteTo" && n != "(*bytes.Buffer).WriteByte" ||
				n == "(*bufio.Writer).Write" || n == "(*bufio.Writer).WriteString" || n == "(*strings.Builder).Write" || n == "(*strings.Builder).WriteString":
				write(e, e.Args[0], e.Args[1])
			case n == "(*bytes.Buffer).WriteByte" || n == "(io.ByteWriter).WriteByte" || n == "(*bufio.Writer).WriteByte" || n == "(*strings.Builder).WriteByte":
				w := unconv(e.Args[0])
				im.out[w] = append(im.out[w], tok{"byte", e.Args[1], polyConst(1)})
			case n == "(*bytes.Buffer).WriteTo":
				im.out[unconv(e.Args[1])] = append(im.out[unconv(e.Args[1])], im.out[unconv(e.Args[0])]...)
			case n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).String" || n == "(*strings.Builder).String":
				bufOf[e.Res[0]] = unconv(e.Args[0])
			case n == "encoding/binary.Write":
				v := e.Args[2]
				if v.Op == "iface" {
					v = v.Args[0]
				}
				k := "be"
				if strings.Contains(e.Args[1].String(), "ittle") {
					k = "le"
				}
				w := map[types.BasicKind]int64{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4, types.Uint64: 8}
				var sz int64
				if v.T != nil {
					if b, ok := v.T.Underlying().(*types.Basic); ok {
						sz = w[b.Kind()]
					}
				}
				wr := unconv(e.Args[0])
				switch {
				case sz == 1:
					im.out[wr] = append(im.out[wr], tok{"byte", v, polyConst(1)})
				case sz > 1:
					im.out[wr] = append(im.out[wr], tok{fmt.Sprintf("%s%d", k, 8*sz), v, polyConst(sz)})
				default:
					write(e, wr, v)
				}
			case n == "io.Copy":
				odd(e, "io.Copy")
			}
		}
	}
	im.out[nil] = nil
	for r, b := range bufOf {
		if im.out[b] == nil {
			im.out[b] = []tok{}
		}
		im.out[r] = im.out[b]
	}
	return im
}

// norm splits constant parts into single bytes.
func norm(ts []tok) []tok {
	var out []tok
	b := func(v int64) { out = append(out, tok{"byte", mkInt(v&255, types.Typ[types.Uint8]), polyConst(1)}) }
	for _, t := range ts {
		if t.kind == "zero" && len(t.n.Ms) == 0 {
			for i := int64(0); i < t.n.C; i++ {
				b(0)
			}
			continue
		}
		if t.val != nil {
			if v, ok := t.val.isIntConst(); ok {
				switch t.kind {
				case "byte":
					b(v)
					continue
				case "be16":
					b(v >> 8)
					b(v)
					continue
				case "be32":
					b(v >> 24)
					b(v >> 16)
					b(v >> 8)
					b(v)
					continue
				}
			}
		}
		if t.kind == "bytes" && len(t.n.Ms) == 0 && t.n.C == 0 {
			continue
		}
		out = append(out, t)
	}
	return out
}

// sameToks compares two byte sequences on a path.
func sameToks(s *State, a, b []tok) bool {
	a, b = norm(a), norm(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].kind != b[i].kind {
			return false
		}
		if a[i].kind == "bytes" {
			if content(a[i].val) != content(b[i].val) {
				return false
			}
			continue
		}
		if a[i].val == b[i].val {
			continue
		}
		if !eqPoly(s, polyOf(a[i].val), polyOf(b[i].val)) {
			return false
		}
	}
	return true
}

// ---- reading

type readRec struct {
	base        *Term
	off, n, pos *Poly
}

// inputs: the reads from a stream on a path that succeeded, in order.
func (c *C) inputs(t *Trace, isStream func(*Term) bool) (rs []readRec, total *Poly, failed bool) {
	total = polyConst(0)
	for _, e := range t.Ev {
		if e.Kind == "copy" {
			// a copy of what was read
			if p, _, ok := streamRange(t.Final, rs, e.Val); ok {
				b, off := baseOf(e.Addr)
				rs = append(rs, readRec{b, off, polyOf(e.Args[0]), p})
			}
		}
		if e.Kind != "call" {
			continue
		}
		switch e.Name {
		case "bytes.Clone", "slices.Clone":
			if p, n, ok := streamRange(t.Final, rs, e.Args[0]); ok {
				rs = append(rs, readRec{e.Res[0], polyConst(0), n, p})
			}
		case "io.ReadFull":
			if !isStream(unconv(e.Args[0])) {
				continue
			}
			dst := e.Raw[1]
			if v, known := t.Final.query(mkEq(e.Res[1], mkNil())); !known || !v {
				return rs, total, true
			}
			b, off := baseOf(dst)
			n := lenPoly(dst)
			rs = append(rs, readRec{b, off, n, total})
			total = polyAdd(total, n, 1)
		case "(io.Reader).Read", "io.ReadAtLeast", "io.Copy", "io.CopyN", "io.ReadAll":
			if isStream(unconv(e.Args[0])) {
				return rs, nil, true
			}
		case "encoding/binary.Read":
			if !isStream(unconv(e.Args[0])) {
				continue
			}
			if v, known := t.Final.query(mkEq(e.Res[0], mkNil())); !known || !v {
				return rs, total, true
			}
			p := e.Args[2]
			if p.Op == "iface" {
				p = p.Args[0]
			}
			pt, ok := p.T.(*types.Pointer)
			if !ok || !strings.Contains(e.Args[1].String(), "igEndian") || !isInt(pt.Elem()) {
				return rs, nil, false
			}
			bt, _ := underBasic(pt.Elem())
			n := polyConst(int64(sizeOf(bt)) / 8)
			rs = append(rs, readRec{p, polyConst(0), n, total})
			total = polyAdd(total, n, 1)
		}
	}
	return rs, total, false
}

// streamRange: which bytes of the stream t is made of.
func streamRange(s *State, rs []readRec, t *Term) (pos, n *Poly, ok bool) {
	t = unconv(t)
	find := func(b *Term, off, n *Poly) (*Poly, bool) {
		for i := len(rs) - 1; i >= 0; i-- {
			r := rs[i]
			if r.base == b && lePoly(s, r.off, off) && lePoly(s, polyAdd(off, n, 1), polyAdd(r.off, r.n, 1)) {
				return polyAdd(r.pos, polySub(off, r.off), 1), true
			}
		}
		return nil, false
	}
	switch {
	case t.Op == "list":
		var p0 *Poly
		for i, a := range t.Args {
			p, n, ok := streamRange(s, rs, a)
			if !ok || !eqPoly(s, n, polyConst(1)) {
				return nil, nil, false
			}
			if i == 0 {
				p0 = p
			} else if !eqPoly(s, p, polyAdd(p0, polyConst(int64(i)), 1)) {
				return nil, nil, false
			}
		}
		return p0, polyConst(int64(len(t.Args))), p0 != nil
	case t.Op == "init" && t.Args[0].Op == "iaddr":
		b, off := baseOf(t.Args[0].Args[0])
		p, ok := find(b, polyAdd(off, polyOf(t.Args[0].Args[1]), 1), polyConst(1))
		return p, polyConst(1), ok
	case t.Op == "arr":
		t = t.Args[0]
	case t.Op == "init" && t.Args[0].Op == "toarr":
		t = t.Args[0].Args[0]
	}
	b, off := baseOf(t)
	n = lenPoly(t)
	p, ok := find(b, off, n)
	return p, n, ok
}

// stripInt removes integer conversions.
func stripInt(t *Term) *Term {
	for t != nil && t.Op == "conv" && isInt(t.T) && t.Args[0].T != nil && isInt(t.Args[0].T) {
		t = t.Args[0]
	}
	return t
}

// stripWide removes integer conversions that keep the low bits (and, when
// exact, the value of an unsigned integer of that width).
func stripWide(t *Term, bits int, exact bool) *Term {
	for t != nil && t.Op == "conv" && isInt(t.T) && t.Args[0].T != nil && isInt(t.Args[0].T) {
		b, ok := underBasic(t.T)
		if !ok || sizeOf(b) < bits || exact && b.Info()&types.IsUnsigned == 0 && sizeOf(b) == bits {
			break
		}
		t = t.Args[0]
	}
	return t
}

// beRange: t is the big-endian integer at this range of the stream.
func beRange(s *State, rs []readRec, t *Term) (pos *Poly, width int64, ok bool) {
	t = stripWide(t, 32, true)
	if t == nil {
		return nil, 0, false
	}
	if (t.Op == "app" || t.Op == "call") && strings.Contains(t.S, "bigEndian).Uint") {
		w := int64(0)
		switch {
		case strings.Contains(t.S, "Uint32"):
			w = 4
		case strings.Contains(t.S, "Uint16"):
			w = 2
		case strings.Contains(t.S, "Uint64"):
			w = 8
		}
		p, n, ok := streamRange(s, rs, t.Args[len(t.Args)-1])
		if !ok || !lePoly(s, polyConst(w), n) {
			return nil, 0, false
		}
		return p, w, true
	}
	if p, n, ok := streamRange(s, rs, t); ok && eqPoly(s, n, polyConst(1)) && t.Op == "init" {
		return p, 1, true
	}
	if t.Op == "init" && t.Args[0].Op == "alloc" {
		for i := len(rs) - 1; i >= 0; i-- {
			if rs[i].base == t.Args[0] && len(rs[i].n.Ms) == 0 {
				return rs[i].pos, rs[i].n.C, true
			}
		}
	}
	return nil, 0, false
}

// content: the value of an array behind the slice of it.
func content(t *Term) *Term {
	for {
		t = unconv(t)
		if t != nil && t.Op == "arr" {
			t = t.Args[0]
			continue
		}
		return t
	}
}

func polyScale(p *Poly, k int64) *Poly {
	r := &Poly{C: p.C * k}
	for _, m := range p.Ms {
		r.Ms = append(r.Ms, Mono{Atoms: m.Atoms, K: m.K * k})
	}
	return r
}
