package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked, SSA-built view of /repo that every rule reads.
type Program struct {
	lib       []*ssa.Package
	quiet     map[*ssa.Function]bool         // quietFn
	mapw      map[*ssa.Function]*mapWriteSet // mapWrites
	constMaps map[*ssa.Global][]constEntry
	cut       map[*ssa.Function]bool
	Root      string
	Fset      *token.FileSet
	Pkgs      []*packages.Package          // repository packages
	ByPth     map[string]*packages.Package // import path -> package (repo only)
	SSA       *ssa.Program
	SPkgs     map[string]*ssa.Package
	Funcs     []*ssa.Function // every function with a body declared in the repository (incl. closures, instances)

	immutable map[*types.Var]bool
	owner     map[*types.Var][]*types.Var
}

const modPrefix = "github.com/browles/drip"

func inRepoPath(p string) bool {
	return p == modPrefix || strings.HasPrefix(p, modPrefix+"/")
}

func loadProgram(root string) (*Program, error) {
	abs, err := filepath.Abs(root)
	if err != nil {
		return nil, err
	}
	if r, err := filepath.EvalSymlinks(abs); err == nil {
		abs = r
	}
	fset := token.NewFileSet()
	work, cleanup, err := goWork(abs)
	if err != nil {
		return nil, err
	}
	defer cleanup()
	env := append(os.Environ(),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GO111MODULE=on", "GOWORK="+work)
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   abs,
		Env:   env,
		Fset:  fset,
		Tests: false,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(filename, abs+string(filepath.Separator)) {
				// Dependencies are used for their types only.
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && !libInlined(f.Name.Name, fd.Name.Name) {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	pats := []string{"./...", "./bencode/..."}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	p := &Program{Root: abs, Fset: fset, ByPth: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}}
	var errs []string
	for _, pk := range pkgs {
		if !inRepoPath(pk.PkgPath) {
			continue
		}
		if p.ByPth[pk.PkgPath] != nil {
			continue
		}
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
		p.ByPth[pk.PkgPath] = pk
		p.Pkgs = append(p.Pkgs, pk)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not type-check: %s", strings.Join(errs, "; "))
	}
	if len(p.Pkgs) < 9 {
		return nil, fmt.Errorf("expected at least 9 repository packages, loaded %d", len(p.Pkgs))
	}
	sort.Slice(p.Pkgs, func(i, j int) bool { return p.Pkgs[i].PkgPath < p.Pkgs[j].PkgPath })

	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var create func(pk *packages.Package)
	create = func(pk *packages.Package) {
		if pk.Types == nil || seen[pk.Types] {
			return
		}
		seen[pk.Types] = true
		for _, im := range pk.Imports {
			create(im)
		}
		if inRepoPath(pk.PkgPath) {
			sp := prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true)
			p.SPkgs[pk.PkgPath] = sp
		} else if pk.PkgPath == "maps" {
			p.lib = append(p.lib, prog.CreatePackage(pk.Types, pk.Syntax, pk.TypesInfo, true))
		} else {
			prog.CreatePackage(pk.Types, nil, nil, true)
		}
	}
	for _, pk := range p.Pkgs {
		create(pk)
	}
	for _, sp := range p.lib {
		sp.Build()
	}
	for _, sp := range p.SPkgs {
		sp.Build()
	}
	p.SSA = prog
	for fn := range ssautil.AllFunctions(prog) {
		if inRepoPath(fnPkgPath(fn)) && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	// AllFunctions only reaches what is referenced; add every declared member.
	have := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		have[f] = true
	}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || have[fn] || len(fn.Blocks) == 0 || !p.isRepoFn(fn) {
			return
		}
		have[fn] = true
		p.Funcs = append(p.Funcs, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for path, sp := range p.SPkgs {
		_ = path
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if tn, ok := m.Type().(*types.Named); ok && tn.TypeParams().Len() > 0 {
							continue
						}
						add(prog.MethodValue(ms.At(i)))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	p.computeImmutable()
	return p, nil
}

// goWork writes a scratch go.work joining the repository's modules.
func goWork(root string) (string, func(), error) {
	dir, err := os.MkdirTemp("", "driplint-work-")
	if err != nil {
		return "", nil, err
	}
	cleanup := func() { os.RemoveAll(dir) }
	var mods []string
	filepath.WalkDir(root, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "vendor" || d.Name() == "testdata") {
			return filepath.SkipDir
		}
		if d.Name() == "go.mod" {
			mods = append(mods, filepath.Dir(path))
		}
		return nil
	})
	sort.Strings(mods)
	ver := "1.22.2"
	if b, err := os.ReadFile("/opt/vp/work/go.work"); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
				ver = f[1]
			}
		}
	}
	s := "go " + ver + "\nuse (\n"
	for _, m := range mods {
		s += "\t" + m + "\n"
	}
	s += ")\n"
	f := filepath.Join(dir, "go.work")
	if err := os.WriteFile(f, []byte(s), 0o600); err != nil {
		cleanup()
		return "", nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.work.sum"), []byte(goWorkSum), 0o600); err != nil {
		cleanup()
		return "", nil, err
	}
	return f, cleanup, nil
}

const goWorkSum = `github.com/google/go-cmp v0.6.0 h1:ofyhxvXcZhMsU5ulbFiLKl/XBFqE1GSq7atu8tAmTRI=
github.com/google/go-cmp v0.6.0/go.mod h1:17dUlkBOakJ0+DkrSSNjCkIjxS6bF9zb3elmeNGIjoY=
golang.org/x/sync v0.7.0 h1:YsImfSBoP9QPYL0xyKJPq0gcaJdG3rInoqxTWbfQu9M=
golang.org/x/sync v0.7.0/go.mod h1:Czt+wKu1gCyEFDUtn0jG5QVvpJ6rzVqr5aXyt9drQfk=
`

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
	}
	return ""
}

func (p *Program) isRepoFn(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil && o.Pkg != nil && libInlined(o.Pkg.Pkg.Path(), o.Name()) {
		return len(fn.Blocks) > 0
	}
	return inRepoPath(fnPkgPath(fn))
}

// libInlined: functions of the library that are analysed like the
// repository's, from their source.
func libInlined(pkg, name string) bool {
	return pkg == "maps" && name == "DeleteFunc"
}

func (p *Program) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "?"
	}
	x := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.Root, x.Filename)
	if err != nil {
		rel = x.Filename
	}
	return fmt.Sprintf("%s:%d", rel, x.Line)
}

// Type finds a named type of a repository package ("storage", "Piece").
func (p *Program) Type(pkg, name string) *types.Named {
	pk := p.ByPth[modPrefix+"/"+pkg]
	if pk == nil {
		return nil
	}
	o := pk.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Field finds a struct field by name.
func (p *Program) Field(pkg, typ, field string) *types.Var {
	n := p.Type(pkg, typ)
	if n == nil {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return st.Field(i)
		}
	}
	return nil
}

// Method finds a declared method (pointer or value receiver).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	n := p.Type(pkg, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if m := n.Method(i); m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.SPkgs[modPrefix+"/"+pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// shortName renders a function as pkg.(*T).m without the module prefix.
func shortName(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPrefix+"/", "")
	return s
}

// computeImmutable finds the fields that are only ever stored while the
// struct is a fresh local object of the storing function.
func (p *Program) computeImmutable() {
	p.immutable = map[*types.Var]bool{}
	mut := map[*types.Var]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok {
						if !freshBase(fa.X) {
							mut[fieldOf(fa)] = true
						}
					} else if _, ok := in.Addr.(*ssa.Alloc); !ok {
						if st, ok := in.Val.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								mut[st.Field(i)] = true
							}
						}
					}
				case *ssa.FieldAddr:
					// The address escapes other than by load, store or a method call on it.
					for _, r := range *in.Referrers() {
						switch r := r.(type) {
						case *ssa.Store:
							if r.Val == in {
								mut[fieldOf(in)] = true
							}
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
						case ssa.CallInstruction:
						default:
							mut[fieldOf(in)] = true
						}
					}
				}
			}
		}
	}
	for _, pk := range p.Pkgs {
		for _, n := range pk.Types.Scope().Names() {
			tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); !mut[f] {
					p.immutable[f] = true
				}
			}
		}
	}
}

func freshBase(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshBase(v.X)
	}
	return false
}

func fieldOf(fa *ssa.FieldAddr) *types.Var {
	pt := fa.X.Type().Underlying().(*types.Pointer)
	return originField(pt.Elem().Underlying().(*types.Struct).Field(fa.Field))
}

func originField(v *types.Var) *types.Var { return v.Origin() }

type constEntry struct{ k, v *ssa.Const }

// constMap: the entries of a package-level map that is filled with constants
// when the program starts and never changed or handed out.
func (p *Program) constMap(m *Term) []constEntry {
	if m.Op != "init" || m.Args[0].Op != "global" {
		return nil
	}
	g, ok := m.Args[0].Obj.(*ssa.Global)
	if !ok {
		return nil
	}
	if p.constMaps == nil {
		p.constMaps = map[*ssa.Global][]constEntry{}
	}
	if r, ok := p.constMaps[g]; ok {
		return r
	}
	p.constMaps[g] = nil
	if g.Pkg == nil || g.Pkg.Func("init") == nil {
		return nil
	}
	var out []constEntry
	fns := append([]*ssa.Function{g.Pkg.Func("init")}, p.Funcs...)
	made := false
	for i, fn := range fns {
		if i > 0 && fn == fns[0] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						mm, ok := x.Val.(*ssa.MakeMap)
						if !ok || made || fn != fns[0] {
							return nil
						}
						made = true
						for _, r := range *mm.Referrers() {
							switch u := r.(type) {
							case *ssa.Store:
								if u != x {
									return nil
								}
							case *ssa.MapUpdate:
								k, ok1 := u.Key.(*ssa.Const)
								v, ok2 := u.Value.(*ssa.Const)
								if !ok1 || !ok2 || u.Map != mm {
									return nil
								}
								out = append(out, constEntry{k, v})
							default:
								return nil
							}
						}
					case *ssa.UnOp:
						for _, r := range *x.Referrers() {
							switch u := r.(type) {
							case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
							case *ssa.Call:
								if bi, ok := u.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
									return nil
								}
							default:
								return nil
							}
						}
					default:
						return nil
					}
				}
			}
		}
	}
	if !made {
		return nil
	}
	p.constMaps[g] = out
	return out
}
