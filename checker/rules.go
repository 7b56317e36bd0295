package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Property is one registered check.
type Property struct {
	ID    string
	Title string
	Run   func(c *C)
}

var properties []*Property

func register(id, title string, run func(c *C)) {
	properties = append(properties, &Property{id, title, run})
}

// Ob is one obligation: a rule applied to a construct of the source.
type Ob struct {
	Rule, Construct string
	OK              bool
	Where, Detail   string
	N               int
}

type ruleInfo struct {
	Name, Text string
	Min        int
	N, Bad     int
}

// C collects what one check analysed and decided.
type C struct {
	parsed    map[ssa.Instruction]bool // number parsing seen
	p         *Program
	prop      *Property
	rules     map[string]*ruleInfo
	order     []string
	obs       map[string]*Ob
	stage     []Ob
	staging   bool
	fns       map[string]bool
	roots     map[string]bool
	steps     int
	paths     int
	events    int
	undecided []string
	samples   []string
	assume    []string
	notes     map[string]int
	deferred  []func()
}

// after: judged once everything has been seen.
func (c *C) after(do func()) { c.deferred = append(c.deferred, do) }

func (c *C) runAfter() {
	for i := 0; i < len(c.deferred); i++ {
		c.deferred[i]()
	}
	c.deferred = nil
}

func newC(p *Program, prop *Property) *C {
	return &C{parsed: map[ssa.Instruction]bool{}, p: p, prop: prop, rules: map[string]*ruleInfo{}, obs: map[string]*Ob{}, fns: map[string]bool{}, roots: map[string]bool{}, notes: map[string]int{}}
}

// rule declares a rule and how many instances of it there have to be.
func (c *C) rule(name string, min int, text string) {
	if c.rules[name] == nil {
		c.rules[name] = &ruleInfo{Name: name, Text: text, Min: min}
		c.order = append(c.order, name)
	}
}

// ob records the outcome of a rule on a construct. A construct that is seen
// several times (paths, contexts) holds only if it holds every time.
func (c *C) ob(rule, construct string, ok bool, where, detail string) {
	if c.rules[rule] == nil {
		panic("undeclared rule " + rule)
	}
	o := Ob{Rule: rule, Construct: construct, OK: ok, Where: where, Detail: detail, N: 1}
	if c.staging {
		c.stage = append(c.stage, o)
		return
	}
	c.commit(o)
}

func (c *C) commit(o Ob) {
	k := o.Rule + "|" + o.Construct
	if p := c.obs[k]; p != nil {
		p.N++
		if p.OK && !o.OK {
			p.OK, p.Where, p.Detail = false, o.Where, o.Detail
		}
		return
	}
	c.obs[k] = &o
}

// borrow decides rules of another property here as well, where both
// properties promise the same.
func (c *C) borrow(id string, names ...string) {
	for _, pr := range properties {
		if pr.ID != id {
			continue
		}
		d := newC(c.p, pr)
		pr.Run(d)
		for _, n := range names {
			r := d.rules[n]
			if r == nil {
				panic("undeclared rule " + n)
			}
			c.rule(n, r.Min, r.Text)
		}
		for _, o := range d.obs {
			if slices.Contains(names, o.Rule) {
				c.commit(*o)
			}
		}
		c.undecided = append(c.undecided, d.undecided...)
		c.steps += d.steps
		c.paths += d.paths
		c.events += d.events
		maps.Copy(c.fns, d.fns)
		maps.Copy(c.roots, d.roots)
	}
}

func (c *C) undecide(format string, a ...any) {
	c.undecided = append(c.undecided, fmt.Sprintf(format, a...))
}

// walk analyses fn. Obligations raised meanwhile count once the inductive
// loop states are stable.
func (c *C) walk(fn *ssa.Function, o Opts, on func(s *State, e *Event), sink func(t *Trace)) *Walker {
	if fn == nil {
		c.undecide("entry point not found")
		return nil
	}
	n, mark := 0, len(c.deferred)
	user := o.OnReset
	o.OnReset = func() {
		c.stage = c.stage[:0]
		c.deferred = c.deferred[:mark]
		n = 0
		if user != nil {
			user()
		}
	}
	o.OnEvent = func(s *State, e *Event) {
		n++
		c.fns[shortName(e.Fn)] = true
		if on != nil {
			on(s, e)
		}
	}
	c.stage = c.stage[:0]
	c.staging = true
	w := newWalker(c.p, o)
	w.Run(fn, func(t *Trace) {
		c.paths++
		if sink != nil {
			sink(t)
		}
	})
	c.staging = false
	for _, ob := range c.stage {
		c.commit(ob)
	}
	c.stage = c.stage[:0]
	c.roots[shortName(fn)] = true
	c.fns[shortName(fn)] = true
	c.steps += w.steps
	c.events += n
	if w.Err != "" {
		c.undecide("%s", w.Err)
	}
	return w
}

// keepNone: no event distinguishes joined states.
func keepNone(*State, *Event) bool { return false }

// ---- anchors

func (c *C) field(pkg, typ, name string, pred func(types.Type) bool) *types.Var {
	if f := c.p.Field(pkg, typ, name); f != nil {
		return f
	}
	// renamed: the only field of that kind
	if n := c.p.Type(pkg, typ); n != nil && pred != nil {
		if st, ok := n.Underlying().(*types.Struct); ok {
			var found *types.Var
			k := 0
			for i := 0; i < st.NumFields(); i++ {
				if pred(st.Field(i).Type()) {
					found = st.Field(i)
					k++
				}
			}
			if k == 1 {
				return found
			}
		}
	}
	c.undecide("anchor not found: field %s.%s.%s", pkg, typ, name)
	return nil
}

func (c *C) method(pkg, typ, name string) *ssa.Function {
	if m := c.p.Method(pkg, typ, name); m != nil {
		return m
	}
	c.undecide("anchor not found: method %s.(%s).%s", pkg, typ, name)
	return nil
}

func (c *C) fn(pkg, name string) *ssa.Function {
	if m := c.p.Func(pkg, name); m != nil {
		return m
	}
	c.undecide("anchor not found: function %s.%s", pkg, name)
	return nil
}

func isPtrTo(pkg, name string) func(types.Type) bool {
	return func(t types.Type) bool {
		p, ok := t.(*types.Pointer)
		return ok && isNamed(p.Elem(), pkg, name)
	}
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == pkg || n.Obj().Pkg().Path() == modPrefix+"/"+pkg)
}

func isMutexType(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

func isBasicKind(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Kind() == k
	}
}

// constructName names an event for reports and for keys: enclosing function
// plus what it does, without line numbers.
func (c *C) at(e *Event) string { return e.pos(c.p) }

func fnName(e *Event) string { return shortName(e.Fn) }

// ---- result

type knownFinding struct{ prop, key, text string }

func readKnown(dir string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		// known: property=<id> rule=<rule> construct=<construct> :: text
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known:"), "::")
		var k knownFinding
		k.text = strings.TrimSpace(text)
		rest := strings.TrimSpace(head)
		if a, b, ok := strings.Cut(rest, " rule="); ok {
			k.prop = strings.TrimPrefix(strings.TrimSpace(a), "property=")
			r, cn, _ := strings.Cut(b, " construct=")
			k.key = strings.TrimSpace(r) + "|" + strings.TrimSpace(cn)
		}
		out = append(out, k)
	}
	return out
}

func (c *C) finish(dir string, t0 time.Time) int {
	var keys []string
	for k, o := range c.obs {
		keys = append(keys, k)
		r := c.rules[o.Rule]
		r.N++
		if !o.OK {
			r.Bad++
		}
	}
	sort.Strings(keys)
	known := map[string]knownFinding{}
	for _, k := range readKnown(dir) {
		if k.prop == c.prop.ID {
			known[k.key] = k
		}
	}
	var viol []string
	for _, k := range keys {
		o := c.obs[k]
		if o.OK {
			continue
		}
		if kf, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop.ID, kf.text)
			continue
		}
		viol = append(viol, fmt.Sprintf("%s: [%s] %s: %s", o.Where, o.Rule, o.Construct, o.Detail))
	}
	for _, n := range c.order {
		r := c.rules[n]
		// code that was said twice may be said once in a function of its own
		if r.N < r.Min && (r.N == 0 || 2*r.N+1 < r.Min) {
			viol = append(viol, fmt.Sprintf("?: [%s] only %d instances of the rule were found in the source, at least %d are expected: %s", n, r.N, r.Min, r.Text))
		}
	}
	seen := map[string]bool{}
	for _, u := range c.undecided {
		if !seen[u] {
			seen[u] = true
			viol = append(viol, "?: [undecided] "+u)
		}
	}
	if len(c.order) == 0 {
		viol = append(viol, "?: [undecided] no rule ran")
	}
	good := 0
	for _, k := range keys {
		if c.obs[k].OK {
			good++
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	var rules []map[string]any
	for _, n := range c.order {
		r := c.rules[n]
		rules = append(rules, map[string]any{"rule": n, "text": r.Text, "instances": r.N, "violated": r.Bad})
	}
	var samples []string
	step := len(keys)/12 + 1
	for i := 0; i < len(keys); i += step {
		o := c.obs[keys[i]]
		samples = append(samples, fmt.Sprintf("[%s] %s at %s: %v (seen %d times)", o.Rule, o.Construct, o.Where, o.OK, o.N))
	}
	ev := map[string]any{
		"property": c.prop.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]any{
			"explanation":          "Static analysis of /repo's current source: every rule below was evaluated on every matching construct on every abstract path of the analysed entry points; nothing was executed.",
			"rules":                rules,
			"obligations":          len(keys),
			"discharged":           good,
			"entry_points":         sortedKeys(c.roots),
			"functions_analysed":   sortedKeys(c.fns),
			"abstract_paths":       c.paths,
			"events":               c.events,
			"instructions_walked":  c.steps,
			"repository_packages":  len(c.p.Pkgs),
			"repository_functions": len(c.p.Funcs),
			"counts":               c.notes,
			"samples":              samples,
			"undecided":            c.undecided,
		},
		"assumptions": append([]string{
			"int and int64 arithmetic of the analysed code does not overflow",
			"pointer parameters and receivers of entry points are not nil; objects reached through different fields or maps are not proven distinct unless freshly allocated",
			"the standard library behaves as documented",
		}, c.assume...),
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(viol),
	}
	edir := filepath.Join(dir, "evidence")
	os.MkdirAll(edir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(edir, c.prop.ID+".json"), append(b, '\n'), 0o644)
	rep := filepath.Join(edir, c.prop.ID+".violation.txt")
	os.Remove(rep)
	if len(viol) == 0 {
		fmt.Printf("OK property=%s obligations=%d entry_points=%d paths=%d\n", c.prop.ID, len(keys), len(c.roots), c.paths)
		return 0
	}
	os.WriteFile(rep, []byte(strings.Join(viol, "\n")+"\n"), 0o644)
	for _, v := range viol {
		fmt.Println(v)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop.ID, rep)
	return 1
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// runProperty is the body of one check.
func runProperty(id, dir string) int {
	t0 := time.Now()
	for _, pr := range properties {
		if pr.ID != id {
			continue
		}
		p, err := loadProgram(repoRoot())
		if err != nil {
			c := newC(&Program{}, pr)
			c.undecide("%v", err)
			return c.finish(dir, t0)
		}
		c := newC(p, pr)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("DEBUG") != "" {
						panic(r)
					}
					c.staging = false
					c.undecide("analysis failed: %v", r)
				}
			}()
			pr.Run(c)
		}()
		return c.finish(dir, t0)
	}
	fmt.Fprintln(os.Stderr, "unknown property", id)
	return 2
}
