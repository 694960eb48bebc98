// Command instr writes the build overlay with which the checks compile go-ini/ini.
//
//	instr -repo /repo -out DIR [-race]
//
// DIR/overlay.json maps every non-test source file of the repository to an
// instrumented copy (scheduling points before statements, simulated locks,
// ordered map iteration), and some files of the standard library to versions
// that talk to the simulated kernel. Nothing below -repo is changed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
)

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(2)
}

type edit struct {
	off  int
	end  int // replaced up to here (== off for insertions)
	text string
	seq  int
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "", "output directory")
	std := flag.String("std", "", "directory with the standard library overlay sources")
	race := flag.Bool("race", false, "overlay for a race-detector build")
	flag.Parse()
	if *out == "" || *std == "" {
		fatal("-out and -std are required")
	}
	repl := map[string]string{}
	if err := os.MkdirAll(*out, 0o777); err != nil {
		fatal("%v", err)
	}
	instrumentRepo(*repo, *out, repl)
	overlayStd(*out, *std, *race, repl)
	data, _ := json.MarshalIndent(map[string]interface{}{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), data, 0o666); err != nil {
		fatal("%v", err)
	}
}

type noImporter struct{}

func (noImporter) Import(path string) (*types.Package, error) {
	name := path[strings.LastIndexByte(path, '/')+1:]
	p := types.NewPackage(path, name)
	p.MarkComplete()
	return p, nil
}

func instrumentRepo(repo, out string, repl map[string]string) {
	ctx := build.Default
	ctx.CgoEnabled = false
	pkg, err := ctx.ImportDir(repo, 0)
	if err != nil {
		fatal("%v", err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, n := range pkg.GoFiles {
		path := filepath.Join(repo, n)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
		srcs[f] = src
		names[f] = n
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: noImporter{}, Error: func(error) {}, FakeImportC: true}
	_, _ = conf.Check("github.com/go-ini/ini", fset, files, info)

	site := 0
	var sites []string
	for _, f := range files {
		src := srcs[f]
		var edits []edit
		add := func(off, end int, text string) {
			edits = append(edits, edit{off, end, text, len(edits)})
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		yield := func(p token.Pos) string {
			site++
			pos := fset.Position(p)
			sites = append(sites, fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
			return fmt.Sprintf("zzsim.Yield(%d); ", site)
		}
		used := false
		stmts := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				used = true
				add(off(s.Pos()), off(s.Pos()), yield(s.Pos()))
				// Between reading and writing back, others may run as well.
				text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
				split := func(lhs ast.Expr, from token.Pos, pre, post string) {
					add(off(s.Pos()), off(from), "{ zzt := "+pre)
					add(off(s.End()), off(s.End()), post+"; "+yield(s.Pos())+text(lhs)+" = zzt }")
				}
				switch s := s.(type) {
				case *ast.AssignStmt:
					if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !shared(s.Lhs[0], info) {
						continue
					}
					if s.Tok == token.ASSIGN {
						call, ok := s.Rhs[0].(*ast.CallExpr)
						if !ok {
							continue
						}
						if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "append" {
							split(s.Lhs[0], s.Rhs[0].Pos(), "", "")
						}
					} else if s.Tok != token.DEFINE {
						split(s.Lhs[0], s.Rhs[0].Pos(), text(s.Lhs[0])+" "+strings.TrimSuffix(s.Tok.String(), "=")+" (", ")")
					}
				case *ast.IncDecStmt:
					if shared(s.X, info) {
						add(off(s.Pos()), off(s.End()), "{ zzt := "+text(s.X)+" "+s.Tok.String()[:1]+" 1; "+yield(s.Pos())+text(s.X)+" = zzt }")
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				if n.Body != nil && n.Name.Name == "init" && n.Recv == nil {
					return true
				}
			case *ast.BlockStmt:
				stmts(n.List)
			case *ast.CaseClause:
				stmts(n.Body)
			case *ast.CommClause:
				stmts(n.Body)
			case *ast.ForStmt:
				// A loop without statements in its body still has to take steps.
				used = true
				o := off(n.Body.Lbrace) + 1
				add(o, o, " "+yield(n.Body.Lbrace))
			case *ast.RangeStmt:
				if tv, ok := info.Types[n.X]; ok && tv.Type != nil {
					if _, isMap := tv.Type.Underlying().(*types.Map); isMap {
						used = true
						add(off(n.X.Pos()), off(n.X.Pos()), "zzsim.MapRange(")
						add(off(n.X.End()), off(n.X.End()), ")")
					}
				}
				if len(n.Body.List) == 0 {
					used = true
					o := off(n.Body.Lbrace) + 1
					add(o, o, " "+yield(n.Body.Lbrace))
				}
			case *ast.GoStmt:
				used = true
				add(off(n.Pos()), off(n.Pos())+2, "zzsim.Go(func() {")
				add(off(n.End()), off(n.End()), "})")
			case *ast.CallExpr:
				if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
					if x, ok := sel.X.(*ast.Ident); ok && x.Obj == nil && importPath(f, x.Name) == "time" &&
						(sel.Sel.Name == "Sleep") {
						used = true
						add(off(sel.Pos()), off(sel.End()), "zzsim.Sleep")
					}
					if x, ok := sel.X.(*ast.Ident); ok && x.Obj == nil && importPath(f, x.Name) == "runtime" &&
						sel.Sel.Name == "Gosched" {
						used = true
						add(off(sel.Pos()), off(sel.End()), "zzsim.Gosched")
					}
				}
			case *ast.ImportSpec:
				if n.Path.Value == `"sync"` {
					name := "sync"
					if n.Name != nil {
						name = n.Name.Name
					}
					add(off(n.Pos()), off(n.End()), name+` "inisim/simsync"`)
				}
			}
			return true
		})
		imp := `; import zzsim "inisim/simrt"`
		if !used {
			imp = `; import _ "inisim/simrt"`
		}
		for _, keep := range []string{"time", "runtime"} {
			// Keep imports used although their only use may have been replaced.
			for _, is := range f.Imports {
				if is.Path.Value == `"`+keep+`"` && is.Name == nil {
					switch keep {
					case "time":
						src = append(src, "\nvar _ time.Duration\n"...)
					case "runtime":
						src = append(src, "\nconst _ = runtime.GOOS\n"...)
					}
				}
			}
		}
		add(off(f.Name.End()), off(f.Name.End()), imp)
		sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
		var b strings.Builder
		last := 0
		for _, e := range edits {
			b.Write(src[last:e.off])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(src[last:])
		dst := filepath.Join(out, "ini_"+names[f])
		write(dst, b.String())
		repl[filepath.Join(repo, names[f])] = dst
	}
	write(filepath.Join(out, "sites.txt"), strings.Join(sites, "\n")+"\n")
	mod := filepath.Join(out, "ini.go.mod")
	write(mod, "module github.com/go-ini/ini\n\ngo "+strings.TrimPrefix(langVersion(), "go")+"\n")
	repl[filepath.Join(repo, "go.mod")] = mod
	repl[filepath.Join(repo, "go.sum")] = ""
}

// shared tells whether an expression without calls may name memory that others use too.
func shared(x ast.Expr, info *types.Info) bool {
	is := false
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr, *ast.StarExpr:
			is = true
		case *ast.Ident:
			if o := info.Uses[n]; o != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
				is = true
			}
		}
		return true
	})
	ast.Inspect(x, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			is = false
			return false
		}
		return true
	})
	return is
}

func langVersion() string {
	v := runtime.Version() // go1.27.3
	parts := strings.Split(v, ".")
	if len(parts) >= 2 {
		return parts[0] + "." + parts[1]
	}
	return "go1.23"
}

func importPath(f *ast.File, name string) string {
	for _, is := range f.Imports {
		p := strings.Trim(is.Path.Value, `"`)
		n := p[strings.LastIndexByte(p, '/')+1:]
		if is.Name != nil {
			n = is.Name.Name
		}
		if n == name {
			return p
		}
	}
	return ""
}

func write(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o666); err != nil {
		fatal("%v", err)
	}
}

func readFile(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	return string(b)
}

func overlayStd(out, std string, race bool, repl map[string]string) {
	root := build.Default.GOROOT
	if root == "" {
		fatal("no GOROOT")
	}
	sys := filepath.Join(root, "src", "syscall")
	path := filepath.Join(sys, "zsyscall_linux_amd64.go")
	src := readFile(path)
	for _, n := range []string{"openat", "Close", "read", "write", "pread", "pwrite", "Fstat", "fstatat", "Ftruncate",
		"Truncate", "Seek", "Fsync", "Fdatasync", "Flock", "Fchmod", "fchmodat", "unlinkat", "Renameat", "linkat",
		"Mkdirat", "fcntl", "Getdents"} {
		re := regexp.MustCompile(`(?m)^func ` + n + `\(`)
		if len(re.FindAllString(src, -1)) != 1 {
			fatal("cannot find func %s in %s", n, path)
		}
		src = re.ReplaceAllString(src, "func "+n+"_real(")
	}
	dst := filepath.Join(out, "std_zsyscall.go")
	write(dst, src)
	repl[path] = dst
	dst = filepath.Join(out, "std_zz_verif_sim.go")
	write(dst, readFile(filepath.Join(std, "zz_verif_sim.go.txt")))
	repl[filepath.Join(sys, "zz_verif_sim.go")] = dst
	if !race {
		return
	}
	// No happens-before edges that come from the harness's or the library's I/O as such.
	path = filepath.Join(sys, "syscall_unix.go")
	src = readFile(path)
	re := regexp.MustCompile(`race\.(Acquire|ReleaseMerge)\(unsafe\.Pointer\(&ioSync\)\)`)
	if len(re.FindAllString(src, -1)) < 4 {
		fatal("cannot find ioSync annotations in %s", path)
	}
	src = re.ReplaceAllString(src, "_ = ioSync")
	dst = filepath.Join(out, "std_syscall_unix.go")
	write(dst, src)
	repl[path] = dst
	// Pools inside the standard library would order unrelated tasks (and drop objects at random).
	path = filepath.Join(root, "src", "sync", "pool.go")
	src = readFile(path)
	a := strings.Replace(src, "func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif race.Enabled {\n\t\treturn\n\t}\n", 1)
	b := strings.Replace(a, "func (p *Pool) Get() any {\n", "func (p *Pool) Get() any {\n\tif race.Enabled {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n", 1)
	if a == src || b == a {
		fatal("cannot find Put and Get in %s", path)
	}
	dst = filepath.Join(out, "std_pool.go")
	write(dst, b)
	repl[path] = dst
}
