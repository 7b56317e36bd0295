package main

import (
	"golang.org/x/tools/go/ssa"
)

const (
	metaPkg   = "api/metainfo"
	magnetPkg = "api/magnet"
)

// Totality of what reads files, links, queries and answers.

func init() {
	register("T05", "Torrent files, links and announces never crash or silently fail a reader", func(c *C) {
		c.rule("no-panic", 8, "no index, slice, allocation, conversion, nil dereference or explicit panic can fail on any path of metainfo, magnet links, the tracker API and the tracker")
		c.rule("errors", 4, "no error met while reading or writing is lost")
		for _, pkg := range []string{metaPkg, magnetPkg, trackerPkg, pexPkg} {
			for _, f := range c.p.entryPoints(pkg) {
				f := f
				opts := func(o *Opts) {
					o.SplitLit = true
					o.Opaque = func(fn *ssa.Function) bool { return fn != f && pkgOf(fn) != pkg && pkgOf(fn) != trackerPkg }
				}
				c.total(f, panicCfg{opts: opts, absent: true})
				c.noLostErrors("errors", f, errCfg{opts: opts})
			}
		}
	})
}
