package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line program is a main package, which nothing can import. Each run
// makes a copy of its current source as package zcli, in which os.Exit ends only
// the call of ZzRun. Nothing else is changed, and the lines keep their numbers.

const cliPkg = modPath + "/zz_verif/zcli"

const cliShim = `package zcli

import "os"

type zzExited struct{ code int }

func zzExit_(code int) { panic(zzExited{code}) }

// ZzRun runs the program with these arguments and gives its exit status.
func ZzRun(args []string) (code int) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(zzExited)
			if !ok {
				panic(r)
			}
			code = e.code
		}
	}()
	os.Args = append([]string{"db-recovery"}, args...)
	main()
	return 0
}
`

// cliOverlay writes the copy to dir; it gives nil if the program has another form.
func cliOverlay(repo, dir string) map[string]string {
	files, _ := filepath.Glob(filepath.Join(repo, "cmd", "db-recovery", "*.go"))
	ov := map[string]string{}
	haveMain := false
	os.MkdirAll(dir, 0755)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil || af.Name.Name != "main" {
			return nil
		}
		osName := ""
		for _, im := range af.Imports {
			if im.Path.Value == `"os"` {
				osName = "os"
				if im.Name != nil {
					osName = im.Name.Name
				}
			}
		}
		out := append([]byte(nil), src...)
		copy(out[fset.Position(af.Name.Pos()).Offset:], "zcli")
		exits := false
		ast.Inspect(af, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok && osName == "os" && s.Sel.Name == "Exit" {
				if x, ok := s.X.(*ast.Ident); ok && x.Name == "os" && s.End()-s.Pos() == 7 {
					copy(out[fset.Position(s.Pos()).Offset:], "zzExit_")
					exits = true
				}
			}
			return true
		})
		if exits {
			out = append(out, "\nvar _ = os.Args\n"...)
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "main" && fd.Recv == nil {
				haveMain = true
			}
		}
		p := filepath.Join(dir, filepath.Base(f))
		if os.WriteFile(p, out, 0644) != nil {
			return nil
		}
		ov[filepath.Join(repo, "zz_verif", "zcli", filepath.Base(f))] = p
	}
	if !haveMain {
		return nil
	}
	p := filepath.Join(dir, "zz_run.go")
	if os.WriteFile(p, []byte(cliShim), 0644) != nil {
		return nil
	}
	ov[filepath.Join(repo, "zz_verif", "zcli", "zz_run.go")] = p
	return ov
}

func init() {
	// The usage text is made by text/template, with reflection; it is left empty.
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		return zero(fn.Signature.Results().At(0).Type()), true
	}, "github.com/spf13/cobra.tmpl")
	reg(func(r *Run, fn *ssa.Function, a []V) (V, bool) {
		pkg := r.p.pkgs[cliPkg]
		if pkg == nil {
			r.unsupported("the command line program is not encoded")
		}
		if !r.cliInit {
			r.cliInit = true
			steps := r.steps
			r.p.ensureBuilt(pkg)
			r.initDepth++
			r.call(pkg.Func("init"), nil, nil)
			r.initDepth--
			r.steps = steps
		}
		r.cliArgs = r.ifaceArgs(a[0])
		return r.call(pkg.Func("ZzRun"), a, nil), true
	}, symPkg+"CLI")
}

// flagParse is package flag reading arguments up to the first that is no flag; the
// flags are those of glog, and any other ends the process.
func (r *Run) flagParse(args []V) {
	for i := 0; i < len(args); i++ {
		s, ok := isConcreteStr(args[i])
		if !ok {
			r.unsupported("flag.Parse of a symbolic argument")
		}
		if len(s) < 2 || s[0] != '-' || s == "--" {
			return
		}
		n, _, hasValue := strings.Cut(strings.TrimPrefix(s[1:], "-"), "=")
		switch n {
		case "logtostderr", "alsologtostderr":
		case "v", "stderrthreshold", "vmodule", "log_backtrace_at", "log_dir":
			if n == "v" {
				r.unsupported("flag -v")
			}
			if !hasValue {
				i++
			}
		default:
			panic(pathEnd{"exit", "flag provided but not defined: -" + n})
		}
	}
}
