package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func repoRoot() string {
	if r := os.Getenv("DRIPLINT_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driplint <property>|trace <fn>|funcs")
		os.Exit(2)
	}
	if os.Args[1] == "check" && len(os.Args) == 4 {
		debug.SetGCPercent(400)
		os.Exit(runProperty(os.Args[2], os.Args[3]))
	}
	t0 := time.Now()
	if f := os.Getenv("PROF"); f != "" {
		fd, _ := os.Create(f)
		pprof.StartCPUProfile(fd)
		defer pprof.StopCPUProfile()
	}
	p, err := loadProgram(repoRoot())
	if err != nil {
		fmt.Println("LOAD ERROR", err)
		os.Exit(1)
	}
	switch os.Args[1] {
	case "funcs":
		for _, f := range p.Funcs {
			fmt.Println(shortName(f))
		}
	case "cut":
		for f := range p.recursionCut() {
			fmt.Println(shortName(f))
		}
	case "trace":
		for _, f := range p.Funcs {
			if shortName(f) != os.Args[2] {
				continue
			}
			w := newWalker(p, Opts{Oblig: true, Loads: os.Getenv("LOADS") != "", Opaque: defaultOpaque, OneIter: os.Getenv("ONE") != "", Merge: os.Getenv("MERGE") != "", MergeMem: os.Getenv("MERGE") == "2"})
			if os.Getenv("NOHIST") != "" {
				w.opt.Keep = func(*State, *Event) bool { return false }
			}
			n := 0
			w.Run(f, func(t *Trace) {
				n++
				if os.Getenv("Q") != "" {
					return
				}
				fmt.Printf("=== %d end=%s thread=%d ret=%v\n", n, t.End, t.Final.thread, t.Ret)
				for _, e := range t.Ev {
					if e.Kind == "enter" && false {
						continue
					}
					fmt.Printf("  [%d] %s  %s %s\n", e.Thread, e.String(), e.Locks.String(), e.pos(p))
				}
			})
			fmt.Println("traces", n, "steps", w.steps, "err", w.Err, "joined", w.Stat["joined"], "entails", entCalls, entMiss, "fm", fmCalls, fmSize)
		}
	}
	_ = strings.Join
	fmt.Fprintln(os.Stderr, "time", time.Since(t0))
}
