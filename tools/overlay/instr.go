package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const schedPath = "github.com/FAU-CDI/hangover/zverif/"

var schedImports = map[string][2]string{
	"sync":        {"sync", schedPath + "vsync"},
	"sync/atomic": {"atomic", schedPath + "vatomic"},
}

// instrument replaces the synchronisation of the code under test by that of the controlled scheduler.
// The changes are purely textual, and keep all line numbers.
func instrument(repo, sched, instr string, replace map[string]string) error {
	var unsupported []string

	// the packages of the scheduler
	for _, pkg := range []string{"vsched", "vsync", "vatomic", "vslog"} {
		files, _ := filepath.Glob(filepath.Join(sched, pkg, "*.go"))
		if len(files) == 0 {
			return fmt.Errorf("no files of package %s", pkg)
		}
		for _, file := range files {
			replace[filepath.Join(repo, "zverif", pkg, filepath.Base(file))] = file
		}
	}

	rewrite := func(path, to string) error {
		from := path
		if r, ok := replace[path]; ok {
			from = r
		}
		src, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		dst, bad, err := rewriteFile(path, src)
		if err != nil {
			return err
		}
		unsupported = append(unsupported, bad...)
		if bytes.Equal(src, dst) {
			return nil
		}
		os.MkdirAll(filepath.Dir(to), 0o755)
		if err := os.WriteFile(to, dst, 0o644); err != nil {
			return err
		}
		replace[path] = to
		return nil
	}

	for _, top := range []string{"internal", "pkg"} {
		err := filepath.Walk(filepath.Join(repo, top), func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if info.IsDir() && info.Name() == "headache" {
				return filepath.SkipDir
			}
			if info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
				return nil
			}
			rel, _ := filepath.Rel(repo, path)
			return rewrite(path, filepath.Join(instr, rel))
		})
		if err != nil {
			return err
		}
	}

	// the library with the iterators, and the one with lazy values
	dir := func(pkg string) string {
		cmd := exec.Command("go", "list", "-f", "{{.Dir}}", pkg)
		cmd.Dir = repo
		out, err := cmd.Output()
		if err != nil {
			return ""
		}
		return strings.TrimSpace(string(out))
	}
	if d := dir("github.com/tkw1536/pkglib/lazy"); d != "" {
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, file := range files {
			if !strings.HasSuffix(file, "_test.go") {
				if err := rewrite(file, filepath.Join(instr, "pkglib", "lazy", filepath.Base(file))); err != nil {
					return err
				}
			}
		}
	}
	if d := dir("github.com/tkw1536/pkglib/traversal"); d != "" {
		if err := rewrite(filepath.Join(d, "new.go"), filepath.Join(instr, "pkglib", "traversal", "new.go")); err != nil {
			return err
		}
		path := filepath.Join(d, "interface.go")
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			return err
		}
		var b bytes.Buffer
		b.WriteString("package traversal\n")
		for _, decl := range file.Decls {
			if g, ok := decl.(*ast.GenDecl); ok && g.Tok == token.TYPE {
				for _, spec := range g.Specs {
					if name := spec.(*ast.TypeSpec).Name.Name; name == "Iterator" || name == "Generator" {
						b.Write(src[fset.Position(g.Pos()).Offset:fset.Position(g.End()).Offset])
						b.WriteString("\n")
					}
				}
			}
		}
		to := filepath.Join(instr, "pkglib", "traversal", "interface.go")
		if err := os.WriteFile(to, b.Bytes(), 0o644); err != nil {
			return err
		}
		replace[path] = to
		replace[filepath.Join(d, "zvimpl.go")] = filepath.Join(sched, "vtraversal", "impl.go")
	}

	// tell the scheduler about what it cannot control
	if len(unsupported) > 0 {
		sort.Strings(unsupported)
		to := filepath.Join(instr, "unsupported.go")
		src := fmt.Sprintf("package vsched\n\nfunc init() { Unsupported = %q }\n", strings.Join(unsupported, ", "))
		if err := os.WriteFile(to, []byte(src), 0o644); err != nil {
			return err
		}
		replace[filepath.Join(repo, "zverif", "vsched", "zunsupported.go")] = to
	}
	return nil
}

type edit struct {
	from, to int
	text     string
}

func rewriteFile(path string, src []byte) (dst []byte, unsupported []string, err error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	offset := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[offset(n.Pos()):offset(n.End())]) }
	bad := func(n ast.Node, what string) {
		unsupported = append(unsupported, fmt.Sprintf("%s:%d: %s", filepath.Base(path), fset.Position(n.Pos()).Line, what))
	}

	var edits []edit
	slog := ""
	for _, imp := range file.Imports {
		p := strings.Trim(imp.Path.Value, "\"`")
		if p == "log/slog" {
			slog = "slog"
			if imp.Name != nil {
				slog = imp.Name.Name
			}
		}
		if p == "golang.org/x/sync/errgroup" || p == "golang.org/x/sync/singleflight" || p == "golang.org/x/sync/semaphore" {
			bad(imp, p)
		}
		r, ok := schedImports[p]
		if !ok {
			continue
		}
		name := r[0]
		if imp.Name != nil {
			name = imp.Name.Name
		}
		edits = append(edits, edit{offset(imp.Pos()), offset(imp.End()), fmt.Sprintf("%s %q", name, r[1])})
	}

	goes, vslog := false, false
	var rewriteGo func(g *ast.GoStmt)
	rewriteGo = func(g *ast.GoStmt) {
		goes = true
		call := g.Call
		lit, isLit := call.Fun.(*ast.FuncLit)
		if p, ok := call.Fun.(*ast.ParenExpr); ok {
			lit, isLit = p.X.(*ast.FuncLit)
		}
		if isLit && len(call.Args) == 0 && lit.Type.Results == nil {
			// go func() { ... }()
			edits = append(edits, edit{offset(g.Pos()), offset(call.Fun.Pos()), "zvsched.Go("})
			edits = append(edits, edit{offset(call.Fun.End()), offset(call.End()), ")"})
			return
		}
		// evaluate function and arguments first
		edits = append(edits, edit{offset(g.Pos()), offset(call.Fun.Pos()), "{ zvf := "})
		var pre, args []string
		last := offset(call.Fun.End())
		edits = append(edits, edit{last, offset(call.Lparen) + 1, "; "})
		last = offset(call.Lparen) + 1
		for i, a := range call.Args {
			simple := false
			switch a := a.(type) {
			case *ast.BasicLit:
				simple = true
			case *ast.Ident:
				simple = a.Name == "nil" || a.Name == "true" || a.Name == "false"
			}
			name := fmt.Sprintf("zva%d", i)
			if simple {
				args = append(args, text(a))
				edits = append(edits, edit{last, offset(a.End()), ""})
			} else {
				args = append(args, name)
				edits = append(edits, edit{last, offset(a.Pos()), name + " := "})
				edits = append(edits, edit{offset(a.End()), offset(a.End()), "; "})
			}
			last = offset(a.End())
		}
		_ = pre
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		edits = append(edits, edit{last, offset(call.End()), "zvsched.Go(func() { zvf(" + strings.Join(args, ", ") + ell + ") }) }"})
	}

	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GoStmt:
			rewriteGo(n)
		case *ast.ChanType:
			bad(n, "channel")
		case *ast.SendStmt:
			bad(n, "send")
		case *ast.SelectStmt:
			bad(n, "select")
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				bad(n, "receive")
			}
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok && slog != "" && x.Name == slog && (n.Sel.Name == "NewTextHandler" || n.Sel.Name == "NewJSONHandler") {
				vslog = true
				edits = append(edits, edit{offset(x.Pos()), offset(x.End()), "zvslog"})
			}
		}
		return true
	})

	if len(edits) == 0 {
		return src, unsupported, nil
	}
	add := ""
	if goes {
		add += fmt.Sprintf("; import zvsched %q", schedPath+"vsched")
	}
	if vslog {
		add += fmt.Sprintf("; import zvslog %q; var _ %s.Level", schedPath+"vslog", slog)
	}
	if add != "" {
		if vslog {
			// declarations have to follow the imports
			i := strings.Index(add, "; var _")
			end := len(src)
			edits = append(edits, edit{end, end, "\n" + add[i+2:] + "\n"})
			add = add[:i]
		}
		edits = append(edits, edit{offset(file.Name.End()), offset(file.Name.End()), add})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var b bytes.Buffer
	at := 0
	for _, e := range edits {
		if e.from < at {
			return nil, nil, fmt.Errorf("%s: overlapping edits", path)
		}
		b.Write(src[at:e.from])
		b.WriteString(e.text)
		at = e.to
	}
	b.Write(src[at:])
	return b.Bytes(), unsupported, nil
}
