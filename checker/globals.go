package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Package-level variables: which are written only while the package is
// initialised, and what they hold then.

type globalInfo struct {
	byName   map[string]*ssa.Global
	mutable  map[*ssa.Global]bool
	content  map[*ssa.Global]bool // what it refers to may change after initialisation
	initVals map[*ssa.Global][]ssa.Value
}

func (p *Program) globals() *globalInfo {
	if p.ginfo != nil {
		return p.ginfo
	}
	gi := &globalInfo{byName: map[string]*ssa.Global{}, mutable: map[*ssa.Global]bool{}, content: map[*ssa.Global]bool{}, initVals: map[*ssa.Global][]ssa.Value{}}
	p.ginfo = gi
	for _, pk := range p.Prog.AllPackages() {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok {
				gi.byName[globalName(g)] = g
			}
		}
	}
	for fn := range ssautil.AllFunctions(p.Prog) {
		if isSpecFunc(fn) {
			continue
		}
		isInit := fn.Pkg != nil && fn == fn.Pkg.Func("init")
		inInit := isInit || fn.Pkg != nil && fn.Parent() == nil && strings.HasPrefix(fn.Name(), "init#")
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp: // load
						if !gi.content[g] && (&contentUses{p, inInit && fn.Pkg == g.Pkg, map[ssa.Value]bool{}}).content(in) {
							gi.content[g] = true
						}
						continue
					case *ssa.IndexAddr, *ssa.Slice:
						v := in.(ssa.Value)
						u := &contentUses{p, inInit && fn.Pkg == g.Pkg, map[ssa.Value]bool{}}
						if _, ok := in.(*ssa.Slice); ok && !u.content(v) || !ok && !u.addr(v) {
							continue
						}
					case *ssa.Store:
						if in.Addr == g && in.Val != ssa.Value(g) {
							if isInit && fn.Pkg == g.Pkg {
								gi.initVals[g] = append(gi.initVals[g], in.Val)
							} else if inInit && fn.Pkg == g.Pkg {
								gi.initVals[g] = append(gi.initVals[g], in.Val, nil) // not known which
							} else {
								gi.mutable[g] = true
							}
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					gi.mutable[g] = true // address taken
				}
			}
		}
	}
	return gi
}

func (p *Program) global(name string) *ssa.Global { return p.globals().byName[name] }

func (p *Program) initOnly(g *ssa.Global) bool { return !p.globals().mutable[g] }

func (p *Program) initConst(g *ssa.Global) (*ssa.Const, bool) {
	vs := p.globals().initVals[g]
	if len(vs) != 1 {
		return nil, false
	}
	c, ok := vs[0].(*ssa.Const)
	return c, ok
}

// initErrorsNew: initialised once with a fresh non-nil error.
func (p *Program) initErrorsNew(g *ssa.Global) bool {
	vs := p.globals().initVals[g]
	if len(vs) != 1 {
		return false
	}
	if c, ok := vs[0].(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil {
			s := f.String()
			return s == "errors.New" || s == "fmt.Errorf"
		}
	}
	if _, ok := vs[0].(*ssa.MakeInterface); ok {
		return strings.Contains(g.Type().String(), "error")
	}
	return false
}
