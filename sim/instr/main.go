// Command instr rewrites Go sources so that every statement is a simulated
// step, and writes the overlay file for 'go build -overlay'.
//
//	instr [-nosync] FSMDIR OUTDIR DIR...
//
// Lines keep their numbers. Test files are left alone.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var fsmDir string // where the packages of the simulated machine are

type ins struct {
	off  int
	text string
	del  int
}

func main() {
	args := os.Args[1:]
	nosync := false
	if len(args) > 0 && args[0] == "-nosync" {
		nosync = true
		args = args[1:]
	}
	fsmDir = args[0]
	out := args[1]
	replace := map[string]string{}
	n := 0
	vars := map[string]*pkgVars{}
	for _, dir := range args[2:] {
		err := filepath.Walk(dir, func(path string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			base := filepath.Base(path)
			if fi.IsDir() {
				if path != dir && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_") || base == "testdata" || base == "vendor" || base == "build") {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(base, ".go") || strings.HasSuffix(base, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			res, err := instrument(path, src, nosync)
			if err != nil {
				fmt.Fprintf(os.Stderr, "instr: %s: %v (left as it is)\n", path, err)
				return nil
			}
			to := filepath.Join(out, fmt.Sprintf("%03d_%s", n, base))
			n++
			if err := os.WriteFile(to, res, 0o644); err != nil {
				return err
			}
			replace[path] = to
			if ok, err := build.Default.MatchFile(filepath.Dir(path), base); ok && err == nil {
				globals(path, src, vars)
			}
			return nil
		})
		if err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
	}
	// every package tells the simulator its variables
	for dir, p := range vars {
		if len(p.names) == 0 {
			continue
		}
		sort.Strings(p.names)
		src := fmt.Sprintf("package %s\n\nimport _vh \"github.com/roy2220/fsm/simhook\"\n\nfunc init() { _vh.Globals(&%s) }\n", p.pkg, strings.Join(p.names, ", &"))
		to := filepath.Join(out, "vars_"+strings.ReplaceAll(strings.Trim(dir, "/"), "/", "_")+".go")
		if err := os.WriteFile(to, []byte(src), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "instr:", err)
			os.Exit(1)
		}
		replace[filepath.Join(dir, "zz_sim_vars.go")] = to
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

type pkgVars struct {
	pkg   string
	names []string
}

// globals collects the package-level variables of a file.
func globals(path string, src []byte, vars map[string]*pkgVars) {
	f, err := parser.ParseFile(token.NewFileSet(), path, src, 0)
	if err != nil || f.Name.Name == "main" {
		return
	}
	dir := filepath.Dir(path)
	if vars[dir] == nil {
		vars[dir] = &pkgVars{pkg: f.Name.Name}
	}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			for _, id := range sp.(*ast.ValueSpec).Names {
				if id.Name != "_" {
					vars[dir].names = append(vars[dir].names, id.Name)
				}
			}
		}
	}
}

// seams maps packages of nondeterminism to the packages of the simulated
// machine that replace some of their identifiers.
var seams = map[string]struct{ pkg, alias, keep string }{
	"os":        {"simos", "_vos", "O_RDWR"},
	"io/ioutil": {"simos", "_vos", "Discard"},
	"time":      {"simtime", "_vtime", "Second"},
	"math/rand": {"simrand", "_vrand", "NewSource"},
}

var declared = map[string]map[string]bool{}

// exported returns the exported identifiers a simulated package declares.
func exported(pkg string) map[string]bool {
	if m := declared[pkg]; m != nil {
		return m
	}
	m := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(fsmDir, pkg, "*.go"))
	for _, p := range files {
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.IsExported() {
					m[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					if ts, ok := sp.(*ast.TypeSpec); ok && ts.Name.IsExported() {
						m[ts.Name.Name] = true
					}
				}
			}
		}
	}
	declared[pkg] = m
	return m
}

// redirect replaces the uses of an imported package that have a simulated
// counterpart.
func redirect(f *ast.File, g *ast.ImportSpec, path string, off func(token.Pos) int, list []ins) ([]ins, string) {
	sm, ok := seams[path]
	if !ok {
		return list, ""
	}
	name := filepath.Base(path)
	if g.Name != nil {
		name = g.Name.Name
	}
	if name == "." || name == "_" {
		return list, ""
	}
	n := len(list)
	m := exported(sm.pkg)
	ast.Inspect(f, func(nd ast.Node) bool {
		if se, ok := nd.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && id.Name == name && id.Obj == nil && m[se.Sel.Name] {
				list = append(list, ins{off(id.Pos()), sm.alias, len(name)})
			}
		}
		return true
	})
	if len(list) == n {
		return list, ""
	}
	list = append(list, ins{off(f.Name.End()), fmt.Sprintf("; import %s \"github.com/roy2220/fsm/%s\"", sm.alias, sm.pkg), 0})
	return list, "\nvar _ = " + name + "." + sm.keep + "\n"
}

func instrument(path string, src []byte, nosync bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var list []ins
	tail := ""
	imported := map[string]bool{}
	for _, g := range f.Imports {
		ip, _ := strconv.Unquote(g.Path.Value)
		if sm := seams[ip]; !nosync && sm.pkg != "" && !imported[sm.alias] {
			var t string
			if list, t = redirect(f, g, ip, off, list); t != "" {
				imported[sm.alias] = true
				tail += t
			}
		}
		if p, _ := strconv.Unquote(g.Path.Value); p == "sync" && !nosync {
			name := "sync "
			if g.Name != nil {
				name = ""
			}
			list = append(list, ins{off(g.Path.Pos()), name + `"github.com/roy2220/fsm/simsync"`, len(g.Path.Value)})
		}
	}
	noSplit := map[*ast.BlockStmt]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Doc == nil || fd.Body == nil {
			continue
		}
		for _, c := range fd.Doc.List {
			if strings.HasPrefix(c.Text, "//go:nosplit") {
				noSplit[fd.Body] = true
			}
		}
	}
	// the steps of the storage layer are not those of plainkv
	call := "_vh.P()"
	if strings.HasPrefix(path, fsmDir) {
		call = "_vh.Y()"
	}
	y := call + "; "
	used := false
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			}
			list = append(list, ins{off(s.Pos()), y, 0})
			used = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			if noSplit[b] {
				return false
			}
			if len(b.List) == 0 {
				list = append(list, ins{off(b.Lbrace) + 1, " " + call + " ", 0})
				used = true
			} else {
				stmts(b.List)
			}
		case *ast.CaseClause:
			stmts(b.Body)
		case *ast.CommClause:
			stmts(b.Body)
		}
		return true
	})
	if used {
		list = append(list, ins{off(f.Name.End()), `; import _vh "github.com/roy2220/fsm/simhook"`, 0})
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var out []byte
	at := 0
	for _, x := range list {
		out = append(out, src[at:x.off]...)
		out = append(out, x.text...)
		at = x.off + x.del
	}
	out = append(out, src[at:]...)
	out = append(out, tail...)
	if _, err := parser.ParseFile(token.NewFileSet(), path, out, 0); err != nil {
		return nil, err
	}
	return out, nil
}
