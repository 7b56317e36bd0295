package main

import (
	"go/types"
	"sort"
	"strconv"
)

// A small polyhedra-domain entailment test: linear inequalities over value
// numbers (non-linear monomials are opaque), integer-tightened, refuted by
// Fourier-Motzkin elimination with a size cap. It only ever answers
// "entailed" or "not shown".

type mk1 struct {
	id int
	k  int64
}

// ineq is sum ks + c <= 0, ks sorted by variable.
type ineq struct {
	c  int64
	ks []mk1
}

type prover struct {
	sys   []ineq
	mins  map[int]*Term
	seenA map[int]bool
	depth int
}

var monoIDs = map[string]int{}

func (pr *prover) lin(p *Poly) ineq {
	q := ineq{c: p.C, ks: make([]mk1, 0, len(p.Ms))}
	for _, m := range p.Ms {
		id := varID(m)
		q.ks = append(q.ks, mk1{id, m.K})
	}
	sort.Slice(q.ks, func(i, j int) bool { return q.ks[i].id < q.ks[j].id })
	return q
}

func (pr *prover) add(p *Poly) { // p <= 0
	pr.sys = append(pr.sys, pr.lin(p))
	pr.axioms(p)
}

func (pr *prover) axioms(p *Poly) {
	for _, m := range p.Ms {
		for _, a := range m.Atoms {
			pr.atomAxioms(a)
		}
		// product of non-negative atoms is non-negative
		if len(m.Atoms) > 1 {
			ok := true
			for _, a := range m.Atoms {
				if !nonNegAtom(a) {
					ok = false
				}
			}
			if ok {
				pr.sys = append(pr.sys, pr.lin(&Poly{Ms: []Mono{{-1, m.Atoms}}}))
			}
		}
	}
}

func nonNegAtom(a *Term) bool {
	switch a.Op {
	case "len", "cap", "iter":
		return true
	}
	if b, ok := underBasic(a.T); ok && b.Info()&types.IsUnsigned != 0 {
		return true
	}
	if a.Op == "conv" {
		if b, ok := underBasic(a.Args[0].T); ok && b.Info()&types.IsUnsigned != 0 && sizeOf(b) < 64 {
			return true
		}
	}
	return false
}

func underBasic(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (pr *prover) atomAxioms(a *Term) {
	if pr.seenA[a.ID] {
		return
	}
	pr.seenA[a.ID] = true
	if a.Op == "min" || a.Op == "max" {
		pr.mins[a.ID] = a
	}
	one := func(t *Term, k, c int64) *Poly { return polyAdd(&Poly{C: c}, polyOf(t), k) }
	if nonNegAtom(a) {
		pr.add(one(a, -1, 0))
	}
	if b, ok := underBasic(a.T); ok && b.Info()&types.IsInteger != 0 {
		switch n := sizeOf(b); {
		case b.Info()&types.IsUnsigned != 0 && n < 64:
			pr.add(one(a, 1, -(int64(1)<<n - 1)))
		case b.Info()&types.IsUnsigned == 0 && n < 64:
			pr.add(one(a, 1, -(int64(1)<<(n-1) - 1)))
			pr.add(one(a, -1, -(int64(1) << (n - 1))))
		}
	}
	switch a.Op {
	case "quo", "rem":
		x := a.Args[0]
		c, ok := a.Args[1].isIntConst()
		if !ok || c <= 0 || c > 1<<40 {
			break
		}
		q := mk("quo", "", nil, a.T, x, a.Args[1])
		r := mk("rem", "", nil, a.T, x, a.Args[1])
		pr.seenA[q.ID], pr.seenA[r.ID] = true, true
		// x - c*q - r = 0
		e := polyAdd(polyAdd(polyOf(x), polyOf(q), -c), polyOf(r), -1)
		pr.add(e)
		pr.add(polyAdd(&Poly{}, e, -1))
		pr.add(one(r, 1, -(c - 1)))
		if pr.depth < 3 && pr.sub(polyAdd(&Poly{}, polyOf(x), -1)) {
			pr.add(one(r, -1, 0))
			pr.add(one(q, -1, 0))
		} else {
			pr.add(one(r, -1, -(c - 1)))
		}
	case "min":
		for _, y := range a.Args {
			pr.add(polyAdd(polyOf(a), polyOf(y), -1))
		}
	case "max":
		for _, y := range a.Args {
			pr.add(polyAdd(polyOf(y), polyOf(a), -1))
		}
	case "and":
		// x & c with a non-negative constant mask
		if c, ok := a.Args[1].isIntConst(); ok && c >= 0 {
			pr.add(one(a, -1, 0))
			pr.add(one(a, 1, -c))
		}
	}
}

// sub proves p<=0 from the current system in a nested query.
func (pr *prover) sub(p *Poly) bool {
	n := &prover{mins: map[int]*Term{}, seenA: map[int]bool{}, depth: pr.depth + 1}
	n.sys = append(make([]ineq, 0, len(pr.sys)+8), pr.sys...)
	return n.refute(p)
}

// refute shows p<=0 by refuting p>=1.
func (pr *prover) refute(p *Poly) bool {
	if len(p.Ms) == 0 {
		return p.C <= 0
	}
	neg := polyAdd(&Poly{C: 1}, p, -1)
	pr.add(neg)
	return fm(pr.sys)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (q ineq) tighten() ineq {
	var g int64
	for _, k := range q.ks {
		g = gcd(g, k.k)
	}
	if g > 1 {
		n := ineq{ks: make([]mk1, len(q.ks))}
		for i, k := range q.ks {
			n.ks[i] = mk1{k.id, k.k / g}
		}
		// sum + c/g <= 0  =>  sum <= floor(-c/g)
		n.c = -floorDiv(-q.c, g)
		return n
	}
	return q
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (q ineq) key() string {
	b := make([]byte, 0, len(q.ks)*12)
	for _, k := range q.ks {
		b = strconv.AppendInt(b, int64(k.id), 36)
		b = append(b, ':')
		b = strconv.AppendInt(b, k.k, 36)
		b = append(b, ';')
	}
	return string(b)
}

func (q ineq) coef(id int) int64 {
	for _, k := range q.ks {
		if k.id == id {
			return k.k
		}
	}
	return 0
}

func itoa(i int64) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	if neg {
		i = -i
	}
	var b []byte
	for i > 0 {
		b = append([]byte{byte('0' + i%10)}, b...)
		i /= 10
	}
	if neg {
		return "-" + string(b)
	}
	return string(b)
}

const fmCap = 300

// fm returns true when the system is unsatisfiable over the integers (as far
// as rational elimination with tightening can show).
func fm(sys []ineq) bool {
	fmCalls++
	fmSize += len(sys)
	idx := map[string]int{}
	var work []ineq
	dead := 0
	put := func(q ineq) bool { // returns true on contradiction
		q = q.tighten()
		if len(q.ks) == 0 {
			return q.c > 0
		}
		k := q.key()
		if i, ok := idx[k]; ok {
			if work[i].c < q.c {
				work[i] = q
			}
			return false
		}
		idx[k] = len(work)
		work = append(work, q)
		return false
	}
	for _, q := range sys {
		if put(q) {
			return true
		}
	}
	_ = dead
	const big = int64(1) << 50
	for len(work) > 0 {
		pos, neg := map[int]int{}, map[int]int{}
		inexact := map[int]int{} // 1 positive, 2 negative coefficient other than one
		var names []int
		for _, q := range work {
			for _, k := range q.ks {
				if pos[k.id] == 0 && neg[k.id] == 0 {
					names = append(names, k.id)
				}
				if k.k > 0 {
					pos[k.id]++
					if k.k != 1 {
						inexact[k.id] |= 1
					}
				} else {
					neg[k.id]++
					if k.k != -1 {
						inexact[k.id] |= 2
					}
				}
			}
		}
		best, bc := -1, 0
		for _, k := range names {
			c := pos[k]*neg[k] - pos[k] - neg[k]
			if inexact[k] == 3 && pos[k] > 0 && neg[k] > 0 {
				c += 4 // loses integer precision: late
			}
			if best < 0 || c < bc || c == bc && k < best {
				best, bc = k, c
			}
		}
		var ps, ns, rest []ineq
		for _, q := range work {
			switch v := q.coef(best); {
			case v > 0:
				ps = append(ps, q)
			case v < 0:
				ns = append(ns, q)
			default:
				rest = append(rest, q)
			}
		}
		work = rest
		idx = make(map[string]int, len(work))
		for i, q := range work {
			idx[q.key()] = i
		}
		for _, a := range ps {
			for _, b := range ns {
				ka, kb := a.coef(best), -b.coef(best)
				n := ineq{c: a.c*kb + b.c*ka, ks: make([]mk1, 0, len(a.ks)+len(b.ks))}
				over := n.c > big || n.c < -big
				i, j := 0, 0
				for i < len(a.ks) || j < len(b.ks) {
					var id int
					var v int64
					switch {
					case j >= len(b.ks) || i < len(a.ks) && a.ks[i].id < b.ks[j].id:
						id, v = a.ks[i].id, a.ks[i].k*kb
						i++
					case i >= len(a.ks) || b.ks[j].id < a.ks[i].id:
						id, v = b.ks[j].id, b.ks[j].k*ka
						j++
					default:
						id, v = a.ks[i].id, a.ks[i].k*kb+b.ks[j].k*ka
						i++
						j++
					}
					if v == 0 || id == best {
						continue
					}
					if v > big || v < -big {
						over = true
					}
					n.ks = append(n.ks, mk1{id, v})
				}
				if over {
					continue
				}
				if put(n) {
					return true
				}
			}
		}
		if len(work) > fmCap {
			return false
		}
	}
	return false
}

// entails reports whether the facts imply p <= 0.
func entails(f *Facts, p *Poly) bool {
	if len(p.Ms) == 0 {
		return p.C <= 0
	}
	entCalls++
	// relevance: linear variables connected to the goal through facts
	rel := map[int]bool{}
	mark := func(p *Poly) {
		for _, x := range polyVars(p) {
			rel[x] = true
		}
	}
	mark(p)
	type nf struct {
		p   *Poly
		neq bool
		key int
	}
	var fs []nf
	for n := f; n != nil; n = n.prev {
		switch n.t.Op {
		case "le0":
			q := n.t.Args[0]
			if n.val {
				fs = append(fs, nf{polyOf(q), false, n.t.ID * 2})
			} else {
				fs = append(fs, nf{polyAdd(&Poly{C: 1}, polyOf(q), -1), false, n.t.ID*2 + 1})
			}
		case "eq0":
			q := polyOf(n.t.Args[0])
			if n.val {
				fs = append(fs, nf{q, false, n.t.ID * 2}, nf{polyAdd(&Poly{}, q, -1), false, n.t.ID * 2})
			} else {
				fs = append(fs, nf{q, true, n.t.ID*2 + 1})
			}
		}
	}
	used := make([]bool, len(fs))
	for changed, round := true, 0; changed && round < 6; round++ {
		changed = false
		for i, x := range fs {
			if used[i] {
				continue
			}
			hit := false
			for _, y := range polyVars(x.p) {
				if rel[y] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				mark(x.p)
			}
		}
	}
	var ks []int
	for i, x := range fs {
		if used[i] {
			ks = append(ks, x.key)
		}
	}
	sort.Ints(ks)
	kb := make([]byte, 0, 8*len(ks)+40)
	last := -1
	for _, k := range ks {
		if k != last {
			kb = strconv.AppendInt(kb, int64(k), 36)
			kb = append(kb, ',')
		}
		last = k
	}
	kb = append(kb, '|')
	kb = strconv.AppendInt(kb, p.C, 36)
	for _, m := range p.Ms {
		kb = append(kb, ';')
		kb = strconv.AppendInt(kb, m.K, 36)
		for _, a := range m.Atoms {
			kb = append(kb, '*')
			kb = strconv.AppendInt(kb, int64(a.ID), 36)
		}
	}
	memoKey := string(kb)
	if r, ok := entailMemo[memoKey]; ok {
		return r
	}
	entMiss++
	res := func(r bool) bool { entailMemo[memoKey] = r; return r }
	build := func() *prover {
		pr := &prover{mins: map[int]*Term{}, seenA: map[int]bool{}}
		for i, x := range fs {
			if used[i] && !x.neq {
				pr.sys = append(pr.sys, pr.lin(x.p))
			}
		}
		for i, x := range fs {
			if used[i] && !x.neq {
				pr.axioms(x.p)
			}
		}
		return pr
	}
	base := build()
	base.axioms(p)
	if base.sub(p) {
		return res(true)
	}
	var extra []*Poly
	for i, x := range fs {
		if !used[i] || !x.neq {
			continue
		}
		base.axioms(x.p)
		if base.sub(x.p) { // x<=0 and x!=0 -> x<=-1
			extra = append(extra, polyAdd(x.p, &Poly{C: 1}, 1))
		} else if n := polyAdd(&Poly{}, x.p, -1); base.sub(n) {
			extra = append(extra, polyAdd(n, &Poly{C: 1}, 1))
		}
	}
	for _, e := range extra {
		base.add(e)
	}
	if base.sub(p) {
		return res(true)
	}
	// case split on one min/max atom
	var mm *Term
	for _, a := range base.mins {
		if mm == nil || a.ID < mm.ID {
			mm = a
		}
	}
	if mm != nil {
		for _, y := range mm.Args {
			n := &prover{mins: map[int]*Term{}, seenA: map[int]bool{}, sys: append([]ineq{}, base.sys...)}
			d := polyAdd(polyOf(mm), polyOf(y), -1)
			n.add(d)
			n.add(polyAdd(&Poly{}, d, -1))
			if !n.sub(p) {
				return res(false)
			}
		}
		return res(true)
	}
	return res(false)
}

var (
	fmCalls, fmSize, entMiss, entCalls int
	entailMemo                         = map[string]bool{}
	subMemo                            = map[int][]int{}
)

// varID names the linear variable of a monomial.
func varID(m Mono) int {
	if len(m.Atoms) == 1 {
		return m.Atoms[0].ID * 2
	}
	k := monoKey(m.Atoms)
	n, ok := monoIDs[k]
	if !ok {
		n = len(monoIDs)*2 + 1
		monoIDs[k] = n
	}
	return n
}

// polyVars lists the linear variables p is connected to, directly or through
// the axioms of quotients, remainders and extrema.
func polyVars(p *Poly) []int {
	var r []int
	for _, m := range p.Ms {
		if len(m.Atoms) == 1 {
			r = append(r, atomVars(m.Atoms[0])...)
			continue
		}
		r = append(r, varID(m))
		for _, a := range m.Atoms {
			switch a.Op {
			case "quo", "rem", "min", "max":
				r = append(r, atomVars(a)...)
			}
		}
	}
	return r
}

func atomVars(a *Term) []int {
	if r, ok := subMemo[a.ID]; ok {
		return r
	}
	r := []int{a.ID * 2}
	switch a.Op {
	case "quo", "rem", "min", "max":
		for _, x := range a.Args {
			r = append(r, polyVars(polyOf(x))...)
		}
		if a.Op == "quo" || a.Op == "rem" {
			r = append(r, mk("quo", "", nil, a.T, a.Args...).ID*2, mk("rem", "", nil, a.T, a.Args...).ID*2)
		}
	}
	subMemo[a.ID] = r
	return r
}
