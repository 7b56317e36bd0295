package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Joining of analysis states (ESP style): at the return of an expanded call
// and at the post-dominator of a branch, states that agree on memory, kept
// history, locks and the values that flow on are represented by one state
// whose facts are those implied by every one of them.

type workItem struct {
	s   *State
	bar *barrier
}

type barrier struct {
	pending []*State
	rets    [][]*Term
	base    *Event
	mem     *Mem
	facts   *Facts
	frame   int
	to      *ssa.BasicBlock // join point, nil for a call
}

type joinRef struct {
	to   *ssa.BasicBlock
	bar  *barrier
	prev *joinRef
}

func (w *Walker) push(s *State) { w.work = append(w.work, workItem{s: s}) }

// ipdom returns the block where the paths that fork at b meet again, or nil:
// within the innermost loop when b is in one (exits of the loop aside), else
// on the way to the last return, else the post-dominator proper. Paths that do
// not come there simply continue on their own.
func (w *Walker) ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	pd, ok := w.pdoms[fn]
	if !ok {
		pd = w.joinPoints(fn)
		if w.pdoms == nil {
			w.pdoms = map[*ssa.Function][]int{}
		}
		w.pdoms[fn] = pd
	}
	if i := pd[b.Index]; i >= 0 {
		return fn.Blocks[i]
	}
	return nil
}

func (w *Walker) joinPoints(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	out := make([]int, n)
	for i := range out {
		out[i] = -1
	}
	isRet := make([]bool, n)
	last := -1
	for _, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			isRet[b.Index] = true
			if last < 0 || b.Instrs[len(b.Instrs)-1].Pos() > fn.Blocks[last].Instrs[len(fn.Blocks[last].Instrs)-1].Pos() {
				last = b.Index
			}
		}
	}
	all := func(x, y int) bool { return true }
	fill := func(pd []int, only map[int]bool) {
		for i, d := range pd {
			if (only == nil || only[i]) && out[i] < 0 && d >= 0 {
				out[i] = d
			}
		}
	}
	// innermost loops first
	type lp struct {
		h    int
		body map[int]bool
	}
	var ls []lp
	for h, body := range w.loops(fn) {
		ls = append(ls, lp{h, body})
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].body) != len(ls[j].body) {
			return len(ls[i].body) < len(ls[j].body)
		}
		return ls[i].h < ls[j].h
	})
	done := map[int]bool{}
	for _, l := range ls {
		// the backedge to the header is the exit
		edge := func(x, y int) bool { return l.body[x] && l.body[y] && y != l.h }
		ends := make([]bool, n)
		for x := range l.body {
			for _, y := range fn.Blocks[x].Succs {
				if y.Index == l.h {
					ends[x] = true
				}
			}
		}
		pd := postdoms(fn, ends, edge)
		only := map[int]bool{}
		for x := range l.body {
			if x != l.h && !done[x] {
				only[x] = true
				done[x] = true
				// blocks that meet at the backedge meet at the header
				if pd[x] == -2 {
					pd[x] = l.h
				}
			}
		}
		fill(pd, only)
	}
	if last >= 0 {
		ends := make([]bool, n)
		ends[last] = true
		fill(postdoms(fn, ends, all), nil)
	}
	fill(postdoms(fn, isRet, all), nil)
	return out
}

// postdoms computes immediate post-dominators towards ends: -1 unreached,
// -2 the virtual exit.
func postdoms(fn *ssa.Function, ends []bool, edge func(x, y int) bool) []int {
	n := len(fn.Blocks)
	const exit = -2
	order := []int{}
	seen := make([]bool, n)
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for _, p := range b.Preds {
			if edge(p.Index, b.Index) {
				dfs(p)
			}
		}
		order = append(order, b.Index)
	}
	for _, b := range fn.Blocks {
		if ends[b.Index] {
			dfs(b)
		}
	}
	pos := make([]int, n)
	for i, b := range order {
		pos[b] = i
	}
	idom := make([]int, n)
	for i := range idom {
		idom[i] = -1
	}
	posOf := func(x int) int {
		if x == exit {
			return n
		}
		return pos[x]
	}
	inter := func(a, b int) int {
		for a != b {
			for posOf(a) < posOf(b) {
				a = idom[a]
			}
			for posOf(b) < posOf(a) {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			b := fn.Blocks[order[i]]
			nd := -1
			if ends[b.Index] {
				nd = exit
			}
			for _, x := range b.Succs {
				if !edge(b.Index, x.Index) || !seen[x.Index] || idom[x.Index] == -1 {
					continue
				}
				if nd == -1 {
					nd = x.Index
				} else {
					nd = inter(nd, x.Index)
				}
			}
			if nd != -1 && idom[b.Index] != nd {
				idom[b.Index] = nd
				changed = true
			}
		}
	}
	return idom
}

// joinBarrier makes the states that fork at the current branch of f meet
// again at its post-dominator.
func (w *Walker) joinBarrier(s *State, f *Frame) {
	if !w.opt.Merge {
		return
	}
	j := w.ipdom(f.b)
	if j == nil {
		return
	}
	bar := &barrier{base: s.ev, mem: s.mem.clone(), facts: s.facts, frame: len(s.frames), to: j}
	w.work = append(w.work, workItem{bar: bar})
	f.joins = &joinRef{j, bar, f.joins}
}

func (w *Walker) flush(b *barrier) {
	groups := map[string][]*State{}
	var keys []string
	for i, s := range b.pending {
		var rs []*Term
		if i < len(b.rets) {
			rs = b.rets[i]
		}
		k := w.sig(b, s, rs)
		if _, ok := groups[k]; !ok {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], s)
	}
	for i := len(keys) - 1; i >= 0; i-- {
		g := groups[keys[i]]
		s := g[0]
		if len(g) > 1 {
			w.Stat["joined"] += len(g) - 1
			s = w.join(b, g)
		}
		if b.to != nil {
			f := s.top()
			vals := f.pend
			f.pend = nil
			if f.joins != nil && f.joins.to == b.to {
				f.pend = vals
				bar := f.joins.bar
				f.joins = f.joins.prev
				bar.pending = append(bar.pending, s)
				continue
			}
			if r := w.arrive(s, f, b.to, vals); r != nil {
				w.push(r)
			}
			continue
		}
		w.push(s)
	}
}

type sigBuf struct{ b []byte }

func (x *sigBuf) i(n int) {
	x.b = strconv.AppendInt(x.b, int64(n), 36)
	x.b = append(x.b, ',')
}
func (x *sigBuf) t(t *Term) {
	if t == nil {
		x.b = append(x.b, '_', ',')
		return
	}
	x.i(t.ID)
}
func (x *sigBuf) s(s string) { x.b = append(append(x.b, s...), ';') }

func (w *Walker) sig(b *barrier, s *State, rs []*Term) string {
	x := &sigBuf{}
	for _, r := range rs {
		x.t(r)
	}
	f := s.top()
	if b.to != nil {
		for _, in := range b.to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			x.t(f.pend[ph])
		}
		// loop bookkeeping
		body := w.loops(f.fn)[b.to.Index]
		if body != nil && body[f.b.Index] {
			x.s("in")
		}
		var hs []int
		for h := range f.loops {
			hs = append(hs, h)
		}
		sort.Ints(hs)
		for _, h := range hs {
			l := f.loops[h]
			x.i(h)
			x.i(l.count)
			n := 0
			for k, v := range []bool{l.generic, l.mustEnd, l.mustBody} {
				if v {
					n |= 1 << k
				}
			}
			x.i(n)
		}
	}
	for d := f.defers; d != nil; d = d.prev {
		x.i(w.instrIdx(d.in))
		x.t(d.fn)
		for _, a := range d.args {
			x.t(a)
		}
	}
	x.s("|")
	if s.panics {
		x.s("panics")
	}
	if f.unwind {
		x.s("unwind")
	}
	for l := s.locks; l != nil; l = l.prev {
		x.t(l.Addr)
		if l.Write {
			x.s("w")
		}
	}
	x.s(s.aux)
	x.s("|")
	// history since the barrier
	for e := s.ev; e != nil && e != b.base; e = e.prev {
		x.s(e.Kind)
		x.s(e.Name)
		x.s(e.Tag)
		if e.In != nil {
			x.i(w.instrIdx(e.In))
		}
		if e.Stack != nil {
			x.i(e.Stack.id)
		}
		for _, a := range e.Args {
			x.t(a)
		}
		for _, a := range e.Res {
			x.t(a)
		}
		x.t(e.Addr)
		x.t(e.Val)
		x.i(e.Case)
		if e.OK {
			x.s("ok")
		}
	}
	x.s("|")
	w.collect(b, s, rs)
	if !w.opt.MergeMem {
		w.memSig(x, s.mem)
	}
	return string(x.b)
}

func (w *Walker) memSig(x *sigBuf, m *Mem) {
	var ks []int
	tm := map[int]*Term{}
	for k, v := range m.cells {
		ks = append(ks, k.ID)
		tm[k.ID] = v
	}
	sort.Ints(ks)
	for _, k := range ks {
		x.i(k)
		x.t(tm[k])
	}
	x.s("|")
	var ss []string
	for k, v := range m.ver {
		ss = append(ss, k+"="+strconv.Itoa(v))
	}
	sort.Strings(ss)
	x.s(strings.Join(ss, ";"))
	ss = nil
	for k, v := range m.havoc {
		ss = append(ss, strconv.Itoa(k.ID)+"="+strconv.Itoa(v))
	}
	sort.Strings(ss)
	x.s(strings.Join(ss, ";"))
	x.i(m.epoch)
	ss = nil
	for k, v := range m.maps {
		y := strconv.Itoa(k.ID) + "=" + strconv.Itoa(v.ver)
		if v.known {
			y += "k"
		}
		for _, t := range v.keys {
			y += "," + strconv.Itoa(t.ID)
		}
		ss = append(ss, y)
	}
	sort.Strings(ss)
	x.s(strings.Join(ss, ";"))
}

// collect drops local objects created since the barrier that nothing can
// reach any more.
func (w *Walker) collect(b *barrier, s *State, rs []*Term) {
	old := map[*Term]bool{}
	for k := range b.mem.cells {
		old[rootOf(k)] = true
	}
	cand := map[*Term]bool{}
	for k := range s.mem.cells {
		r := rootOf(k)
		if r.Op == "alloc" && !old[r] {
			cand[r] = true
		}
	}
	for r := range s.mem.havoc {
		if _, ok := b.mem.havoc[r]; !ok && r.Op == "alloc" && !old[r] {
			cand[r] = true
		}
	}
	if len(cand) == 0 {
		return
	}
	live := map[*Term]bool{}
	var queue []*Term
	mark := func(t *Term) {
		t.any(func(y *Term) bool {
			if cand[y] && !live[y] {
				live[y] = true
				queue = append(queue, y)
			}
			return false
		})
	}
	for _, r := range rs {
		mark(r)
	}
	for i, f := range s.frames {
		for _, v := range f.pend {
			mark(v)
		}
		for d := f.defers; d != nil; d = d.prev {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
		// what enclosing code created before, and locals that dominate the join
		for v, t := range f.env {
			if in, ok := v.(ssa.Instruction); ok && b.to != nil && i == len(s.frames)-1 && in.Block() != nil && !in.Block().Dominates(b.to) {
				continue
			}
			mark(t)
		}
	}
	for k, v := range s.mem.cells {
		if !cand[rootOf(k)] {
			mark(v)
			if k.Op == "maddr" {
				mark(k)
			}
		}
	}
	for len(queue) > 0 {
		q := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		for k, v := range s.mem.cells {
			if rootOf(k) == q {
				mark(v)
			}
		}
	}
	for k := range s.mem.cells {
		if r := rootOf(k); cand[r] && !live[r] {
			delete(s.mem.cells, k)
		}
	}
	for r := range s.mem.havoc {
		if cand[r] && !live[r] {
			delete(s.mem.havoc, r)
		}
	}
}

func (w *Walker) join(b *barrier, g []*State) *State {
	s := g[0]
	var held map[*Term]bool
	if w.opt.MergeMem {
		held = heldKeys(g)
	}
	facts := s.facts
	for _, o := range g[1:] {
		facts = joinFacts(b.facts, facts, o.facts)
	}
	s.facts = facts
	f := s.top()
	for _, o := range g[1:] {
		of := o.top()
		for k, v := range of.visits {
			if v > f.visits[k] {
				f.visits[k] = v
			}
		}
		for h, l := range of.loops {
			if m := f.loops[h]; m != nil && l.forked {
				m.forked = true
			}
		}
		s.imps = joinImps(s.imps, o.imps)
		if w.opt.MergeMem {
			w.joinMem(s, o)
		}
	}
	var ks []*Term
	for k := range held {
		if s.mem.cells[k] == nil {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	for _, k := range ks {
		w.uniq++
		v := mk("join", strconv.Itoa(1<<20+w.uniq), nil, mapElem(k), k)
		s.mem.cells[k] = v
		if held[k] {
			s.facts = s.facts.add(mkEq(v, mkNil()), false)
		}
	}
	return s
}

func mapElem(k *Term) types.Type {
	if m, ok := k.Args[0].T.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

// heldKeys: the map entries that one of the states wrote and all of them know
// to be present, with whether all of them know their value not to be nil.
func heldKeys(g []*State) map[*Term]bool {
	out := map[*Term]bool{}
	for _, o := range g {
		for k := range o.mem.cells {
			if k.Op != "maddr" || k.Args[0].T == nil || mapElem(k) == nil {
				continue
			}
			if _, done := out[k]; done {
				continue
			}
			diff, in, full := false, true, true
			for _, s := range g {
				diff = diff || s.mem.cells[k] != o.mem.cells[k]
				v, ok := s.mapGet(k.Args[0], k.Args[1], mapElem(k))
				if v.Op == "mval" {
					v = mk("mget", "", nil, mapElem(k), v, ok)
				}
				isNil, known := s.query(mkEq(v, mkNil()))
				isNonNil := known && !isNil
				b, known := ok.isBoolConst()
				in = in && (known && b || isNonNil)
				full = full && isNonNil
			}
			if diff && in {
				out[k] = full
			}
		}
	}
	return out
}

// joinImps: implications speak about values that exist on one path only, so
// the union holds.
func joinImps(a, b *Imp) *Imp {
	in := map[*Imp]bool{}
	for x := a; x != nil; x = x.prev {
		in[x] = true
	}
	type key struct {
		t   *Term
		val bool
		n   int
	}
	have := map[key]bool{}
	for x := a; x != nil; x = x.prev {
		have[key{x.t, x.val, len(x.then)}] = true
	}
	for x := b; x != nil && !in[x]; x = x.prev {
		if have[key{x.t, x.val, len(x.then)}] {
			continue
		}
		a = &Imp{x.t, x.val, x.then, a}
	}
	return a
}

func (w *Walker) joinMem(s, o *State) {
	a, b := s.mem, o.mem
	fresh := func() int { w.uniq++; return 1<<20 + w.uniq }
	cls := map[string]bool{}
	for k, v := range a.cells {
		if b.cells[k] == v {
			continue
		}
		if rootOf(k).Op == "alloc" && b.cells[k] != nil {
			a.cells[k] = mk("join", strconv.Itoa(fresh()), nil, v.T, k)
			continue
		}
		delete(a.cells, k)
		cls[classOf(k)] = true
	}
	for k := range b.cells {
		if _, ok := a.cells[k]; !ok {
			cls[classOf(k)] = true
		}
	}
	for k, v := range b.ver {
		if a.ver[k] != v {
			cls[k] = true
		}
	}
	for k, v := range a.ver {
		if b.ver[k] != v {
			cls[k] = true
		}
	}
	for k := range cls {
		a.ver[k] = fresh()
	}
	for k, v := range b.havoc {
		if a.havoc[k] != v {
			a.havoc[k] = fresh()
		}
	}
	for k, v := range a.havoc {
		if b.havoc[k] != v {
			a.havoc[k] = fresh()
		}
	}
	if a.epoch != b.epoch {
		a.epoch = fresh()
	}
	eq := func(x, y *mapState) bool {
		if x == nil || y == nil || x.known != y.known || x.ver != y.ver || len(x.keys) != len(y.keys) {
			return false
		}
		for i := range x.keys {
			if x.keys[i] != y.keys[i] {
				return false
			}
		}
		return true
	}
	for k, v := range a.maps {
		if !eq(v, b.maps[k]) {
			a.maps[k] = &mapState{ver: fresh()}
		}
	}
	for k := range b.maps {
		if a.maps[k] == nil {
			a.maps[k] = &mapState{ver: fresh()}
		}
	}
}

// joinFacts keeps the common prefix and every later fact (or half of an
// equality) of one side that the other side implies.
func joinFacts(base, a, b *Facts) *Facts {
	if a == b {
		return a
	}
	in := map[*Facts]bool{}
	for x := a; x != nil; x = x.prev {
		in[x] = true
	}
	var com *Facts
	for x := b; x != nil; x = x.prev {
		if in[x] {
			com = x
			break
		}
	}
	out := com
	side := func(p, q *Facts) {
		var l []*Facts
		for x := p; x != com; x = x.prev {
			l = append(l, x)
		}
		have := map[*Term]bool{}
		for x := q; x != com; x = x.prev {
			if _, ok := have[x.t]; !ok {
				have[x.t] = x.val
			}
		}
		for i := len(l) - 1; i >= 0; i-- {
			x := l[i]
			if v, ok := have[x.t]; ok && v == x.val {
				out = out.add(x.t, x.val)
				continue
			}
			switch x.t.Op {
			case "le0":
				g := polyOf(x.t.Args[0])
				if !x.val {
					g = polyAdd(&Poly{C: 1}, g, -1)
				}
				if entails(q, g) {
					out = out.add(x.t, x.val)
				}
			case "eq0":
				g := polyOf(x.t.Args[0])
				n := polyAdd(&Poly{}, g, -1)
				if x.val {
					for _, h := range []*Poly{g, n} {
						if entails(q, h) {
							c := condLe0(h)
							out = out.add(c.T, !c.Neg)
						}
					}
				} else if entails(q, polyAdd(&Poly{C: 1}, g, 1)) || entails(q, polyAdd(&Poly{C: 1}, n, 1)) {
					out = out.add(x.t, x.val)
				}
			}
		}
	}
	side(a, b)
	side(b, a)
	return out
}
