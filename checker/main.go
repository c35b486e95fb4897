// Command checker decides the properties of /verif/properties.jsonl from the
// source of /repo by static analysis.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkFn func(r *Report)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker ID | all | list | dump FUNC")
		os.Exit(2)
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
		if exe, err := os.Executable(); err == nil {
			root = filepath.Dir(filepath.Dir(exe))
		}
	}
	dir := os.Getenv("REPO_DIR")
	if dir == "" {
		dir = "/repo"
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			if id == "XALL" {
				continue
			}
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if ids[0] == "eval" {
		p, err := Load(dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, n := range ids[1:] {
			for _, fn := range p.Funcs {
				if shortFn(fn) == n || fn.Name() == n {
					func() {
						defer func() {
							if x := recover(); x != nil {
								fmt.Println("aborted:", x)
							}
						}()
						ev := newEngine(p).newEval()
						if os.Getenv("EVAL_OPAQUE") != "" {
							ev.modes = func(f *ssa.Function) callMode {
								for _, o := range strings.Split(os.Getenv("EVAL_OPAQUE"), ",") {
									if shortFn(f) == o || f.Pkg != nil && f.Pkg.Pkg.Name() == o {
										return modeEvent
									}
								}
								return modeDefault
							}
						}
						fmt.Print(ev.Run(fn, nil).describe())
					}()
				}
			}
		}
		return
	}
	if ids[0] == "consts" {
		p, err := Load(dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		m := p.identifiers(p.MPD)
		var ns []string
		for n := range m {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Printf("%s\t%s\n", n, m[n])
		}
		return
	}
	if ids[0] == "tables" {
		p, err := Load(dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, n := range ids[1:] {
			init, pk := p.varInit(p.XML.Pkg.Path(), n)
			fmt.Printf("%s\t%s\n", n, p.canonical(pk, init))
		}
		return
	}
	if ids[0] == "wire" {
		p, err := Load(dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		m := p.wire("MPD", "Period")
		for _, l := range m.rows() {
			fmt.Println(l)
		}
		for _, n := range m.order {
			for _, pr := range m.types[n].problems {
				fmt.Println("#", n, pr)
			}
		}
		return
	}
	if ids[0] == "dump" {
		dump(dir, os.Args[2:])
		return
	}
	start := time.Now()
	p, err := Load(dir)
	code := 0
	for _, id := range ids {
		f := checks[id]
		if f == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		r := NewReport(id, p)
		r.Rule("resolved-program", "every non-test file of the module is parsed, type-checked and analysed")
		if err != nil {
			r.Ob("resolved-program", "load", dir, false, "%v", err)
		} else {
			r.Units["packages"] = len(p.Pkgs)
			r.Units["functions_in_module"] = len(p.Funcs)
			r.Ob("resolved-program", "load", dir, len(p.Funcs) > 150, "%d packages, %d functions with bodies", len(p.Pkgs), len(p.Funcs))
			runSafely(r, f)
		}
		if c := r.Finish(root, start, "other"); c > code {
			code = c
		}
		start = time.Now()
	}
	os.Exit(code)
}

func runSafely(r *Report, f checkFn) {
	defer func() {
		if e := recover(); e != nil {
			r.Rule("undecided", "the analysis reaches a verdict on every construct")
			if _, ok := e.(string); ok {
				r.Undecided("undecided", fmt.Sprint(e), "", "analysis aborted: %v", e)
			} else {
				r.Undecided("undecided", fmt.Sprint(e), "", "analysis aborted: %v %s", e, strings.ReplaceAll(string(debug.Stack()), "\n", " "))
			}
		}
	}()
	f(r)
}

func dump(dir string, names []string) {
	p, err := Load(dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, fn := range p.Funcs {
		for _, n := range names {
			if shortFn(fn) == n || fn.Name() == n {
				fn.WriteTo(os.Stdout)
			}
		}
	}
}
