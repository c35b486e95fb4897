package main

import (
	_ "embed"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed constants.tsv
var constantsTSV string

// identifiers lists the exported constants and the exported variables that
// are initialised with a string constant and never written.
func (p *Program) identifiers(pkg *ssa.Package) map[string]string {
	out := map[string]string{}
	sc := pkg.Pkg.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !c.Exported() || strings.HasPrefix(n, specPrefix) {
			continue
		}
		out[n] = constText(c.Val())
	}
	return out
}

func constText(v constant.Value) string {
	if v.Kind() == constant.String {
		return "s:" + constant.StringVal(v)
	}
	return "n:" + v.ExactString()
}

func (r *Report) checkConstants() {
	have := r.P.identifiers(r.P.MPD)
	want := map[string]string{}
	for _, l := range strings.Split(strings.TrimSpace(constantsTSV), "\n") {
		if n, v, ok := strings.Cut(l, "\t"); ok {
			want[n] = v
		}
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		h, ok := have[n]
		where := ""
		if o := r.P.MPD.Pkg.Scope().Lookup(n); o != nil {
			where = r.P.Pos(o.Pos())
		}
		switch {
		case !ok:
			r.Ob("identifier", n, where, false, "the published constant is gone")
		default:
			r.Ob("identifier", n, where, h == want[n], "value %s, registered %s", h, want[n])
		}
	}
	r.Units["constants_not_in_the_table"] = len(have) - len(names)
}
