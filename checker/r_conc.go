package main

import (
	"go/types"
	"sort"
	"strings"
)

var allPkgs = []string{"storage", "p2p", "pex", "bencode", "api/peer", "api/tracker", "api/metainfo", "api/magnet", "bitfield", "future"}

func fullWorld(c *C) *world {
	w := buildWorld(c, allPkgs...)
	w.propagate()
	return w
}

// dropLockRules: a check about guarding does not repeat the rules on lock
// handling, which C04 decides.
func (c *C) dropRules(names ...string) {
	for _, n := range names {
		delete(c.rules, n)
		for k := range c.obs {
			if strings.HasPrefix(k, n+"|") {
				delete(c.obs, k)
			}
		}
		var o []string
		for _, x := range c.order {
			if x != n {
				o = append(o, x)
			}
		}
		c.order = o
	}
}

func guardedCheck(globals bool, min int, pkgs ...string) func(c *C) {
	return func(c *C) {
		c.rule("guarded-by", min, "every access to a field that changes after construction, or to the contents it refers to, holds the mutex of the object that owns it (writers exclusively)")
		if globals {
			c.rule("guarded-global", 1, "every access to a package variable that changes at run time holds the mutex its writers hold")
		}
		w := &world{c: c}
		w.declare()
		w = fullWorld(c)
		c.dropRules("lock-identified", "lock-free-before-lock", "unlock-held", "lock-balanced-loop", "locks-released")
		for _, p := range pkgs {
			w.checkGuarded(p)
			if globals {
				w.checkGlobals(p)
			}
		}
		c.assume = append(c.assume,
			"exported fields of the repository's types are not written by code outside the repository while an object is in use",
			"fields of types without a mutex belong to one goroutine or are guarded by the container that holds them (listed as exceptions in DESIGN.md)")
	}
}

// what must not be waited for while a mutex of the type is held
type blockPolicy struct {
	pkg, typ, global string
	forbid           []string
}

var blockPolicies = []blockPolicy{
	{"p2p", "Server", "", []string{"wait", "dial", "accept", "read", "write", "http", "channel", "disk"}},
	{"p2p", "Peer", "", []string{"wait", "dial", "accept", "read", "http", "channel"}},
	{"p2p", "Multitracker", "", []string{"wait", "dial", "accept", "read", "write", "http", "channel", "disk"}},
	{"storage", "Torrent", "", []string{"wait", "dial", "accept", "http", "channel", "write", "read"}},
	{"storage", "Piece", "", []string{"wait", "dial", "accept", "http", "channel", "write", "read"}},
	{"pex", "Torrent", "", []string{"wait", "dial", "accept", "read", "write", "http", "channel", "disk"}},
}

func init() {
	register("C01", "storage state is only touched under its locks", guardedCheck(false, 25, "storage"))
	register("C02", "server and peer state is only touched under its locks", guardedCheck(false, 15, "p2p"))
	register("C03", "tracker tables and codec caches are only touched under their locks", guardedCheck(true, 4, "pex", "bencode"))
	register("C04", "locks are released, never taken twice, and ordered", func(c *C) {
		w := &world{c: c}
		w.declare()
		c.rule("lock-order", 3, "the graph of 'taken while held' over all mutexes has no cycle")
		w = fullWorld(c)
		w.checkOrder()
		for _, m := range w.allMutexes() {
			c.notes["mutexes: "+m]++
		}
		c.assume = append(c.assume, "two objects of the same type are not distinguished in the lock-order graph; a mutex taken while another of the same type is held counts as a cycle")
	})
	register("C05", "nothing waits for another party while holding a shared lock", func(c *C) {
		c.rule("no-wait-under-lock", 20, "no goroutine join, channel operation that can block, dial, accept, network read or write, HTTP exchange or (where listed) disk operation happens while the mutex is held, in the function or in anything it calls")
		w := &world{c: c}
		w.declare()
		w = fullWorld(c)
		c.dropRules("lock-identified", "lock-free-before-lock", "unlock-held", "lock-balanced-loop", "locks-released")
		w.checkBlocks()
	})
}

func (w *world) allMutexes() []string {
	var r []string
	seen := map[*types.Named]bool{}
	for _, n := range w.structOf {
		if seen[n] {
			continue
		}
		seen[n] = true
		st := n.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				r = append(r, w.fieldName(originField(st.Field(i))))
			}
		}
	}
	sort.Strings(r)
	return r
}

// checkBlocks applies blockPolicies. An instance is a critical section: a
// function that takes the mutex.
func (w *world) checkBlocks() {
	c := w.c
	pol := map[*types.Var]map[string]bool{}
	for _, p := range blockPolicies {
		m := w.mutexOfType(p.pkg, p.typ)
		if m == nil {
			c.undecide("anchor not found: mutex of %s.%s", p.pkg, p.typ)
			continue
		}
		pol[m] = map[string]bool{}
		for _, k := range p.forbid {
			pol[m][k] = true
		}
	}
	for r, ms := range w.acquires {
		for m := range ms {
			if pol[m] != nil && w.direct[r][m] {
				c.ob("no-wait-under-lock", "sections of "+w.fieldName(m)+" in "+shortName(r), true, c.p.pos(r.Pos()), "")
			}
		}
	}
	for _, b := range w.blocks {
		if pol[b.held] == nil || !pol[b.held][b.kind] {
			c.notes["allowed waits under a lock"]++
			continue
		}
		c.ob("no-wait-under-lock", w.fieldName(b.held)+": "+b.kind+" in "+b.in, false, b.where, "waits ("+b.kind+") while "+w.fieldName(b.held)+" is held")
	}
}
