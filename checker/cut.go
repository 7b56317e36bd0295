package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// recursionCut picks, for every group of mutually recursive repository
// functions, functions whose removal breaks the recursion (most connected
// first). Calls to them are never expanded; each is a root of its own.
func (p *Program) recursionCut() map[*ssa.Function]bool {
	if p.cut != nil {
		return p.cut
	}
	succ := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		m := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && p.isRepoFn(g) {
						m[g] = true
					}
				}
			}
		}
		succ[f] = m
	}
	cut := map[*ssa.Function]bool{}
	for {
		sccs := sccOf(p.Funcs, succ, cut)
		if len(sccs) == 0 {
			break
		}
		for _, c := range sccs {
			in := map[*ssa.Function]bool{}
			for _, f := range c {
				in[f] = true
			}
			sort.Slice(c, func(i, j int) bool { return shortName(c[i]) < shortName(c[j]) })
			var best *ssa.Function
			bs := -1
			for _, f := range c {
				o, i := 0, 0
				for g := range succ[f] {
					if in[g] {
						o++
					}
				}
				for _, g := range c {
					if succ[g][f] {
						i++
					}
				}
				if o*i > bs {
					best, bs = f, o*i
				}
			}
			cut[best] = true
		}
	}
	p.cut = cut
	return cut
}

func sccOf(fs []*ssa.Function, succ map[*ssa.Function]map[*ssa.Function]bool, skip map[*ssa.Function]bool) [][]*ssa.Function {
	idx := map[*ssa.Function]int{}
	low := map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var st []*ssa.Function
	var out [][]*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		idx[f] = len(idx) + 1
		low[f] = idx[f]
		st = append(st, f)
		on[f] = true
		for g := range succ[f] {
			if skip[g] {
				continue
			}
			if idx[g] == 0 {
				visit(g)
				low[f] = min(low[f], low[g])
			} else if on[g] {
				low[f] = min(low[f], idx[g])
			}
		}
		if low[f] == idx[f] {
			var c []*ssa.Function
			for {
				g := st[len(st)-1]
				st = st[:len(st)-1]
				on[g] = false
				c = append(c, g)
				if g == f {
					break
				}
			}
			if len(c) > 1 || succ[f][f] {
				out = append(out, c)
			}
		}
	}
	for _, f := range fs {
		if !skip[f] && idx[f] == 0 {
			visit(f)
		}
	}
	return out
}
