package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath = "github.com/Eyevinn/dash-mpd"
	mpdPath = modPath + "/mpd"
	xmlPath = modPath + "/xml"
)

// Program is the resolved program under analysis: every package of /repo,
// type-checked from its current source together with its dependencies.
type Program struct {
	Dir    string
	Fset   *token.FileSet
	Pkgs   []*packages.Package // packages of the module
	Prog   *ssa.Program
	MPD    *ssa.Package
	XML    *ssa.Package
	Funcs  []*ssa.Function // every source function of the module with a body
	Sizes  types.Sizes
	ginfo  *globalInfo
	tables map[*ssa.Global]*table

	mapAddrs    map[string]bool
	mods        map[*ssa.Function]*modSet
	clearing    map[*ssa.Function][]clears
	fieldRanges map[fieldKey]*valueRange

	compared map[string]Obligation // verdicts on functions of the codec, by name

	pruned map[string]string // reference functions that no longer fit the tree, and why
}

func repoEnv() []string {
	goroot := "/opt/veriftools/go1.25.14"
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOROOT", "GOOS", "GOARCH", "HOME":
			continue
		}
		env = append(env, e)
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat(goroot + "/bin/go"); err == nil {
		path = goroot + "/bin:" + path
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
	}
	return append(env, "PATH="+path, "HOME="+home, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOSUMDB=off")
}

// Load type-checks the module in dir from source and builds SSA for it.
func Load(dir string) (*Program, error) {
	env := repoEnv()
	for _, e := range env { // go/packages resolves "go" through the process PATH
		if strings.HasPrefix(e, "PATH=") {
			os.Setenv("PATH", strings.TrimPrefix(e, "PATH="))
		}
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Tests: false, Overlay: overlays(dir)}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, fmt.Errorf("loading %s: %w", dir, err)
	}
	pruned := map[string]string{}
	for round := 0; round < 8; round++ { // references that do not type-check against the tree
		if !pruneSpecs(pkgs, cfg.Overlay, pruned) {
			break
		}
		if pkgs, err = packages.Load(cfg, "./..."); err != nil {
			return nil, fmt.Errorf("loading %s: %w", dir, err)
		}
	}
	if ov := plainLoops(pkgs, cfg.Overlay); len(ov) > 0 {
		for f, src := range ov {
			cfg.Overlay[f] = src
		}
		if pkgs, err = packages.Load(cfg, "./..."); err != nil {
			return nil, fmt.Errorf("loading %s: %w", dir, err)
		}
	}
	p := &Program{Dir: dir, pruned: pruned}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			// examples/ holds only _test files; no non-test package to analyse.
			if strings.Contains(e.Msg, "no non-test Go files") {
				continue
			}
			errs = append(errs, e.Error())
		}
		if strings.HasPrefix(pk.PkgPath, modPath) && len(pk.Syntax) > 0 {
			p.Pkgs = append(p.Pkgs, pk)
		}
		for _, f := range pk.IgnoredFiles {
			if strings.HasSuffix(f, ".go") && !strings.HasSuffix(f, "_test.go") {
				errs = append(errs, "file excluded by build constraints, not analysed: "+f)
			}
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.Prog, p.Fset = prog, prog.Fset
	for _, pk := range pkgs {
		sp := prog.Package(pk.Types)
		if sp == nil {
			continue
		}
		switch pk.PkgPath {
		case mpdPath:
			p.MPD = sp
		case xmlPath:
			p.XML = sp
		}
		if p.Sizes == nil {
			p.Sizes = pk.TypesSizes
		}
	}
	if p.MPD == nil || p.XML == nil {
		return nil, fmt.Errorf("packages mpd and xml not found in %s", dir)
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && p.InModule(fn) && !isSpecFunc(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func fnPkg(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

// InModule reports whether fn belongs to the analysed module.
func (p *Program) InModule(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

// SourceFuncs returns module functions written in source (no wrappers).
func (p *Program) SourceFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Synthetic == "" || strings.HasPrefix(f.Synthetic, "package init") {
			out = append(out, f)
		}
	}
	return out
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// Func finds a package-level function, nil if absent.
func (p *Program) Func(pkg *ssa.Package, name string) *ssa.Function { return pkg.Func(name) }

// Named finds a named type of pkg.
func (p *Program) Named(pkg *ssa.Package, name string) *types.Named {
	if o, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
		if n, ok := types.Unalias(o.Type()).(*types.Named); ok {
			return n
		}
	}
	return nil
}

// Method finds the method name on type T or *T declared in pkg.
func (p *Program) Method(pkg *ssa.Package, typ, name string) *ssa.Function {
	n := p.Named(pkg, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.Prog.MethodValue(ms.At(i))
				// Prefer the declared function over a promotion/indirection wrapper.
				if tf, ok := ms.At(i).Obj().(*types.Func); ok {
					if df := p.Prog.FuncValue(tf); df != nil {
						return df
					}
				}
				return f
			}
		}
	}
	return nil
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func asStruct(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

// isNamed reports whether t (or *t) is the named type pkgpath.name.
func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, mpdPath, "mpd")
	s = strings.ReplaceAll(s, xmlPath, "xml")
	return s
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// plainLoops rewrites "for i := range n" over integers into the equivalent
// three-clause loop, so that both spellings have one control flow graph. Line
// numbers stay as they are.
func plainLoops(pkgs []*packages.Package, base map[string][]byte) map[string][]byte {
	out := map[string][]byte{}
	type edit struct {
		from, to int
		text     string
	}
	for _, pk := range pkgs {
		if !strings.HasPrefix(pk.PkgPath, modPath) {
			continue
		}
		for _, file := range pk.Syntax {
			tf := pk.Fset.File(file.Pos())
			name := tf.Name()
			var edits []edit
			n := 0
			ast.Inspect(file, func(nd ast.Node) bool {
				rs, ok := nd.(*ast.RangeStmt)
				if !ok {
					return true
				}
				tv, ok := pk.TypesInfo.Types[rs.X]
				if !ok || !isIntType(tv.Type) || rs.Value != nil || rs.Key != nil && rs.Tok != token.DEFINE {
					return true
				}
				v, typ := fmt.Sprintf("verifI%d", n), ""
				if rs.Key != nil {
					id := rs.Key.(*ast.Ident)
					if id.Name != "_" {
						v = id.Name
						if assigned(pk.TypesInfo, rs.Body, pk.TypesInfo.Defs[id]) {
							return true
						}
					}
				}
				src := overlayOr(out, base, name)
				if src == nil {
					return true
				}
				x := string(src[tf.Offset(rs.X.Pos()):tf.Offset(rs.X.End())])
				if b, ok := tv.Type.(*types.Basic); !ok {
					return true
				} else if b.Info()&types.IsUntyped == 0 && b.Kind() != types.Int {
					typ = b.Name()
				}
				zero, lim, pre := "0", x, ""
				if typ != "" {
					zero = typ + "(0)"
				}
				if tv.Value == nil {
					lim = fmt.Sprintf("verifN%d", n)
					pre = ", " + lim
					zero += ", " + x
				}
				n++
				edits = append(edits, edit{tf.Offset(rs.For) + 3, tf.Offset(rs.X.End()), fmt.Sprintf(" %s%s := %s; %s < %s; %s++", v, pre, zero, v, lim, v)})
				return true
			})
			if len(edits) == 0 {
				continue
			}
			src := overlayOr(out, base, name)
			sort.Slice(edits, func(i, j int) bool { return edits[i].from > edits[j].from })
			for _, e := range edits {
				src = append(append(append([]byte{}, src[:e.from]...), e.text...), src[e.to:]...)
			}
			out[name] = src
		}
	}
	return out
}

func overlayOr(ov, base map[string][]byte, name string) []byte {
	if s, ok := ov[name]; ok {
		return s
	}
	if s, ok := base[name]; ok {
		return s
	}
	b, err := os.ReadFile(name)
	if err != nil {
		return nil
	}
	return b
}

// stubOf stands in for a reference that does not fit: it calls the function it
// was the reference of, so that the references that call it remain.
func stubOf(d *ast.FuncDecl, head string) string {
	if d.Type.TypeParams != nil || d.Recv != nil {
		return ""
	}
	var names []string
	for _, f := range d.Type.Params.List {
		if _, ok := f.Type.(*ast.Ellipsis); ok || len(f.Names) == 0 {
			return ""
		}
		for _, n := range f.Names {
			if n.Name == "_" {
				return ""
			}
			names = append(names, n.Name)
		}
	}
	call := strings.TrimPrefix(d.Name.Name, specPrefix)
	if _, m, ok := strings.Cut(call, "_"); ok {
		if len(names) == 0 {
			return ""
		}
		call = names[0] + "." + m
		names = names[1:]
	}
	call += "(" + strings.Join(names, ", ") + ")"
	if d.Type.Results != nil {
		call = "return " + call
	}
	return head + "{ " + call + " }"
}

// pruneSpecs removes from the overlays the reference functions in which type
// errors are reported, and unused imports. It reports whether it changed any.
func pruneSpecs(pkgs []*packages.Package, ov map[string][]byte, pruned map[string]string) bool {
	changed := false
	for _, pk := range pkgs {
		if len(pk.Errors) == 0 {
			continue
		}
		for _, file := range pk.Syntax {
			tf := pk.Fset.File(file.Pos())
			src, ok := ov[tf.Name()]
			if !ok {
				continue
			}
			lines := map[int]string{}
			for _, e := range pk.Errors {
				if rest, ok := strings.CutPrefix(e.Pos, tf.Name()+":"); ok {
					var l int
					fmt.Sscanf(rest, "%d", &l)
					lines[l] = e.Msg
				}
			}
			type span struct {
				from, to int
				text     string
			}
			var cut []span
			for _, d := range file.Decls {
				from, to := tf.Position(d.Pos()).Line, tf.Position(d.End()).Line
				switch d := d.(type) {
				case *ast.FuncDecl:
					for l, msg := range lines {
						if from <= l && l <= to {
							stub := ""
							if _, ok := pruned[d.Name.Name]; !ok {
								pruned[d.Name.Name] = msg
								stub = stubOf(d, string(src[tf.Offset(d.Pos()):tf.Offset(d.Body.Pos())]))
							}
							cut = append(cut, span{tf.Offset(d.Pos()), tf.Offset(d.End()), stub})
							break
						}
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						if im, ok := sp.(*ast.ImportSpec); ok && lines[tf.Position(im.Pos()).Line] != "" {
							cut = append(cut, span{tf.Offset(im.Pos()), tf.Offset(im.End()), ""})
						}
					}
				}
			}
			sort.Slice(cut, func(i, j int) bool { return cut[i].from > cut[j].from })
			for _, c := range cut {
				src = append(append(append([]byte{}, src[:c.from]...), c.text...), src[c.to:]...)
				changed = true
			}
			ov[tf.Name()] = src
		}
	}
	return changed
}

// assigned: the body stores to obj or takes its address.
func assigned(info *types.Info, body ast.Node, obj types.Object) bool {
	found := false
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && info.Uses[id] == obj
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.AssignStmt:
			for _, l := range s.Lhs {
				found = found || is(l)
			}
		case *ast.IncDecStmt:
			found = found || is(s.X)
		case *ast.UnaryExpr:
			found = found || s.Op == token.AND && is(s.X)
		case *ast.FuncLit:
			found = true
		}
		return !found
	})
	return found
}
