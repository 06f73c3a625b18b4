// instr SRCDIR OUTDIR IMPORTPATH: writes instrumented copies of the package in
// SRCDIR to OUTDIR and prints a build overlay map (JSON) from the original files
// to the copies.
//
//   - package net is replaced by kmverif/simnet and syscall by kmverif/simsys;
//   - a scheduling point, runtime.SimY(n), precedes every statement;
//   - a value assigned to anything but a local variable passes through a
//     scheduling point between its computation and its store, so that an
//     unsynchronised read-modify-write can lose an update.
//
// Everything stays on its line.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	at   int
	del  int
	text string
	seq  int
}

type file struct {
	path  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  strings.Builder
}

var fset = token.NewFileSet()
var points int
var info *types.Info

func (f *file) off(p token.Pos) int { return fset.Position(p).Offset }

func (f *file) insert(p token.Pos, text string) {
	f.edits = append(f.edits, edit{at: f.off(p), text: text, seq: len(f.edits)})
}

func (f *file) replace(from, to token.Pos, text string) {
	f.edits = append(f.edits, edit{at: f.off(from), del: f.off(to) - f.off(from), text: text, seq: len(f.edits)})
}

func (f *file) text(n ast.Node) string { return string(f.src[f.off(n.Pos()):f.off(n.End())]) }

func point() string {
	points++
	return fmt.Sprintf("kmrt.SimY(%d); ", points)
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func (f *file) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		}
		f.insert(s.Pos(), point())
	}
}

// local reports whether e is a plain variable (or blank).
func local(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return local(e.X)
	}
	return false
}

// pure: evaluating e twice has no effect.
func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// wrappable: the value has a definite type of its own.
func wrappable(e ast.Expr) bool {
	if info == nil {
		return false
	}
	// expressions whose own type may be untyped until they are assigned
	untyped := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.IndexExpr, *ast.CompositeLit:
			return false
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				untyped = true
			}
		case *ast.BinaryExpr:
			switch n.Op {
			case token.SHL, token.SHR, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.LAND, token.LOR:
				untyped = true
			}
		}
		return true
	})
	if untyped {
		return false
	}
	tv, ok := info.Types[e]
	if !ok || tv.Value != nil || tv.Type == nil || !tv.IsValue() || tv.IsNil() {
		return false
	}
	switch t := tv.Type.(type) {
	case *types.Basic:
		return t.Info()&types.IsUntyped == 0 && t.Kind() != types.Invalid
	case *types.Tuple:
		return false
	}
	return true
}

func (f *file) assign(s *ast.AssignStmt) {
	switch {
	case s.Tok == token.DEFINE:
	case s.Tok == token.ASSIGN:
		if len(s.Lhs) != len(s.Rhs) {
			return
		}
		for i, r := range s.Rhs {
			if !local(s.Lhs[i]) && wrappable(r) {
				f.insert(r.Pos(), "kmV(")
				f.insert(r.End(), ")")
			}
		}
	default: // x op= y
		l := s.Lhs[0]
		if local(l) || !pure(l) || info == nil {
			return
		}
		if _, ok := info.Types[l]; !ok {
			return
		}
		op := strings.TrimSuffix(s.Tok.String(), "=")
		f.replace(s.TokPos, s.TokPos+token.Pos(len(s.Tok.String())), "= kmV("+f.text(l)+" "+op+" (")
		f.insert(s.Rhs[0].End(), "))")
	}
}

func (f *file) walk(n ast.Node) bool {
	switch n := n.(type) {
	case *ast.BlockStmt:
		f.stmts(n.List)
	case *ast.CaseClause:
		f.stmts(n.Body)
	case *ast.CommClause:
		f.stmts(n.Body)
		// the communication itself may be an assignment: leave it alone
		for _, s := range n.Body {
			ast.Inspect(s, f.walk)
		}
		if n.Comm != nil {
			ast.Inspect(n.Comm, func(m ast.Node) bool {
				if fl, ok := m.(*ast.FuncLit); ok {
					ast.Inspect(fl, f.walk)
					return false
				}
				return true
			})
		}
		return false
	case *ast.SwitchStmt:
		f.clauses(n.Init, n.Tag, n.Body)
		return false
	case *ast.TypeSwitchStmt:
		f.clauses(n.Init, n.Assign, n.Body)
		return false
	case *ast.SelectStmt:
		for _, c := range n.Body.List {
			ast.Inspect(c, f.walk)
		}
		return false
	case *ast.ForStmt:
		if len(n.Body.List) == 0 {
			f.insert(n.Body.Lbrace+1, " "+strings.TrimSuffix(point(), "; ")+" ")
		}
	case *ast.RangeStmt:
		if len(n.Body.List) == 0 {
			f.insert(n.Body.Lbrace+1, " "+strings.TrimSuffix(point(), "; ")+" ")
		}
	case *ast.AssignStmt:
		f.assign(n)
	case *ast.IncDecStmt:
		if !local(n.X) && pure(n.X) && info != nil {
			if _, ok := info.Types[n.X]; ok {
				op := "+"
				if n.Tok == token.DEC {
					op = "-"
				}
				f.replace(n.TokPos, n.TokPos+2, " = kmV("+f.text(n.X)+" "+op+" 1)")
			}
		}
	}
	return true
}

func (f *file) clauses(init ast.Stmt, tag ast.Node, body *ast.BlockStmt) {
	if init != nil {
		ast.Inspect(init, f.walk)
	}
	if tag != nil {
		switch t := tag.(type) {
		case ast.Expr:
			if t != nil {
				ast.Inspect(t, f.walk)
			}
		case ast.Stmt:
			ast.Inspect(t, func(m ast.Node) bool {
				if fl, ok := m.(*ast.FuncLit); ok {
					ast.Inspect(fl, f.walk)
					return false
				}
				return true
			})
		}
	}
	for _, c := range body.List {
		ast.Inspect(c, f.walk)
	}
}

// render gives the text from one offset to another with the (sorted) edits in it.
func (f *file) render(from, to int) string {
	var buf bytes.Buffer
	pos := from
	for _, e := range f.edits {
		if e.at < from || e.at+e.del > to || e.at == to && to < len(f.src) && e.text != ")" {
			continue
		}
		if e.at < pos {
			die(fmt.Errorf("%s: overlapping edits", f.path))
		}
		buf.Write(f.src[pos:e.at])
		buf.WriteString(e.text)
		pos = e.at + e.del
	}
	buf.Write(f.src[pos:to])
	return buf.String()
}

var resetCalls, initCalls strings.Builder
var nReset int

// inits gives the init functions names, so that they can be called again.
func (f *file) inits() {
	for _, d := range f.ast.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			nReset++
			name := fmt.Sprintf("kmInit%d", nReset)
			f.replace(fd.Name.Pos(), fd.Name.End(), name)
			fmt.Fprintf(&f.tail, "\nfunc init() { %s() }\n", name)
			fmt.Fprintf(&initCalls, "\t%s()\n", name)
		}
	}
}

// resets writes what KmReset does.
func resets(files []*file) {
	at := map[string]*file{}
	for _, f := range files {
		at[f.path] = f
		for _, d := range f.ast.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						fmt.Fprintf(&resetCalls, "\tkmFresh(&%s)\n", id.Name)
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		var names []string
		named := false
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			named = named || v.Name() != "_"
		}
		if !named {
			continue
		}
		f := at[fset.Position(in.Rhs.Pos()).Filename]
		if f == nil {
			die(fmt.Errorf("no file for %s", names))
		}
		nReset++
		fmt.Fprintf(&f.tail, "\nfunc kmReset%d() { %s = %s }\n", nReset, strings.Join(names, ", "), f.render(f.off(in.Rhs.Pos()), f.off(in.Rhs.End())))
		fmt.Fprintf(&resetCalls, "\tkmReset%d()\n", nReset)
	}
	resetCalls.WriteString(initCalls.String())
}

func main() {
	srcDir, outDir, path := os.Args[1], os.Args[2], os.Args[3]
	wrap := len(os.Args) < 5 // a fourth argument turns value wrapping off
	// the files the build would use, by its own rules
	out, err := exec.Command("go", "list", "-C", srcDir, "-f", `{{.Name}}{{range .GoFiles}}
{{.}}{{end}}`, ".").Output()
	if err != nil {
		die(fmt.Errorf("go list: %v", err))
	}
	lines := strings.Split(strings.TrimSpace(string(out)), "\n")
	pkgName := lines[0]
	var files []*file
	var asts []*ast.File
	for _, name := range lines[1:] {
		p := filepath.Join(srcDir, name)
		src, err := os.ReadFile(p)
		if err != nil {
			die(err)
		}
		a, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			die(err)
		}
		files = append(files, &file{path: p, src: src, ast: a})
		asts = append(asts, a)
	}
	if wrap {
		if info, err = check(srcDir, path, asts); err != nil {
			fmt.Fprintln(os.Stderr, "instr: type check:", err)
			info = nil
		}
	}

	overlay := map[string]string{}
	for _, f := range files {
		for _, d := range f.ast.Decls {
			ast.Inspect(d, f.walk)
		}
		for _, im := range f.ast.Imports {
			for old, repl := range map[string]string{"net": "kmverif/simnet", "syscall": "kmverif/simsys"} {
				if im.Path.Value == `"`+old+`"` {
					if im.Name == nil {
						f.replace(im.Path.Pos(), im.Path.End(), old+" \""+repl+"\"")
					} else {
						f.replace(im.Path.Pos(), im.Path.End(), "\""+repl+"\"")
					}
				}
			}
		}
		f.insert(f.ast.Name.End(), "; import kmrt \"runtime\"")
		f.inits()
		sort.SliceStable(f.edits, func(i, j int) bool {
			a, b := f.edits[i], f.edits[j]
			if a.at != b.at {
				return a.at < b.at
			}
			return a.seq < b.seq
		})
	}
	if info != nil {
		resets(files)
	}
	for _, f := range files {
		var buf bytes.Buffer
		buf.WriteString(f.render(0, len(f.src)))
		buf.WriteString("\nvar _ = kmrt.SimY\n" + f.tail.String())
		o := filepath.Join(outDir, "km_"+filepath.Base(f.path))
		if err := os.WriteFile(o, buf.Bytes(), 0o644); err != nil {
			die(err)
		}
		overlay[f.path] = o
	}
	helper := fmt.Sprintf(`package %s

import (
	kmrt "runtime"
	"unsafe"
)

func kmFresh[T any](p *T) {
	var zero T
	kmrt.SimFresh(unsafe.Pointer(p), unsafe.Sizeof(*p))
	*p = zero
}

// KmReset gives every package-level variable its initial value again.
func KmReset() {
%s}

func kmV[T any](x T) T {
	kmrt.SimY(0)
	return x
}
`, pkgName, resetCalls.String())
	o := filepath.Join(outDir, "km_zz_kmverif.go")
	if err := os.WriteFile(o, []byte(helper), 0o644); err != nil {
		die(err)
	}
	overlay[filepath.Join(srcDir, "zz_kmverif.go")] = o
	json.NewEncoder(os.Stdout).Encode(map[string]any{"overlay": overlay, "points": points, "typed": info != nil})
}

func check(dir, path string, asts []*ast.File) (*types.Info, error) {
	out, err := exec.Command("go", "list", "-C", dir, "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", ".").Output()
	if err != nil {
		return nil, err
	}
	exports := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if a, b, ok := strings.Cut(l, "\t"); ok {
			exports[a] = b
		}
	}
	im := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		e := exports[p]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(e)
	})
	in := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: im}
	_, err = conf.Check(path, fset, asts, in)
	return in, err
}
