package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// instrumentRepo writes copies of every non-test Go file of the code under
// test with a scheduling point before every statement, and adds them to ov.
// It returns the location of every point, indexed by its number.
func instrumentRepo(repo, dir string, ov *overlay) []string {
	var files []string
	must(filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, p)
		if d.IsDir() {
			b := d.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || rel == "cmd" || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	}))
	sort.Strings(files)
	locs := []string{"(start)"}
	for _, f := range files {
		src, err := os.ReadFile(f)
		must(err)
		rel, _ := filepath.Rel(repo, f)
		out, ok := instrumentFile(rel, src, &locs)
		if !ok {
			continue
		}
		o := filepath.Join(dir, "repo", rel)
		writeFile(o, out)
		ov.Replace[f] = o
	}
	return locs
}

func instrumentFile(rel string, src []byte, locs *[]string) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return nil, false // the compiler will say what is wrong
	}
	type ins struct {
		off  int
		text string
	}
	var all []ins
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	tick := func(p token.Pos) {
		pos := fset.PositionFor(p, false)
		id := len(*locs)
		*locs = append(*locs, fmt.Sprintf("%s:%d", rel, pos.Line))
		all = append(all, ins{pos.Offset, fmt.Sprintf("zzsimrt.SimTick(%d);", id)})
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			tick(s.Pos())
			if d, ok := s.(*ast.DeferStmt); ok {
				// a deferred unlock is followed by another scheduling point
				if f, ok := d.Call.Fun.(*ast.SelectorExpr); ok && strings.HasSuffix(f.Sel.Name, "nlock") {
					tick(s.Pos())
					all[len(all)-1].text = "defer " + all[len(all)-1].text
				}
			}
		}
	}
	loopHead := func(b *ast.BlockStmt) { tick(b.Lbrace + 1) }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			loopHead(x.Body)
		case *ast.RangeStmt:
			loopHead(x.Body)
		case *ast.FuncDecl:
			if x.Body != nil {
				loopHead(x.Body)
			}
		case *ast.FuncLit:
			loopHead(x.Body)
		}
		return true
	})
	if len(all) == 0 {
		return nil, false
	}
	all = append(all, ins{off(f.Name.End()), "; import zzsimrt \"runtime\""})
	sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
	var b strings.Builder
	last := 0
	for _, i := range all {
		b.Write(src[last:i.off])
		b.WriteString(i.text)
		last = i.off
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
