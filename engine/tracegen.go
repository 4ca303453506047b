package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
)

func repoFiles(repo string) (*token.FileSet, []*ast.File, error) {
	fset := token.NewFileSet()
	names, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	sort.Strings(names)
	var fs []*ast.File
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, n, nil, 0)
		if err != nil {
			return nil, nil, err
		}
		fs = append(fs, f)
	}
	return fset, fs, nil
}

// genTrace writes the file that lets the harness switch tracing on and off: it looks for the package's boolean that is
// used as a bare if condition most often (the trace switch) and for its logger variable, whatever they are called.
func genTrace(repo string) (string, error) {
	_, fs, err := repoFiles(repo)
	if err != nil {
		return "", err
	}
	vars := map[string]bool{}
	logger := ""
	isLogger := func(e ast.Expr) bool {
		c, ok := e.(*ast.CallExpr)
		if !ok {
			return false
		}
		s, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || s.Sel.Name != "NewNop" {
			return false
		}
		x, ok := s.X.(*ast.Ident)
		return ok && x.Name == "zap"
	}
	isLoggerType := func(e ast.Expr) bool {
		st, ok := e.(*ast.StarExpr)
		if !ok {
			return false
		}
		s, ok := st.X.(*ast.SelectorExpr)
		return ok && s.Sel.Name == "Logger"
	}
	for _, f := range fs {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for i, n := range v.Names {
					if v.Type != nil && isLoggerType(v.Type) {
						logger = n.Name
						continue
					}
					if i < len(v.Values) {
						if isLogger(v.Values[i]) {
							logger = n.Name
							continue
						}
						if id, ok := v.Values[i].(*ast.Ident); ok && (id.Name == "false" || id.Name == "true") {
							vars[n.Name] = true
						}
					}
					if id, ok := v.Type.(*ast.Ident); ok && id.Name == "bool" {
						vars[n.Name] = true
					}
				}
			}
		}
	}
	uses := map[string]int{}
	for _, f := range fs {
		ast.Inspect(f, func(n ast.Node) bool {
			switch s := n.(type) {
			case *ast.IfStmt:
				ast.Inspect(s.Cond, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok && vars[id.Name] {
						uses[id.Name]++
					}
					return true
				})
			case *ast.ReturnStmt:
				for _, r := range s.Results {
					if id, ok := r.(*ast.Ident); ok && vars[id.Name] {
						uses[id.Name]++
					}
				}
			case *ast.AssignStmt:
				for i, l := range s.Lhs {
					id, ok := l.(*ast.Ident)
					if !ok || !vars[id.Name] || i >= len(s.Rhs) {
						continue
					}
					if c, ok := s.Rhs[i].(*ast.CallExpr); ok {
						if se, ok := c.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Enabled" {
							uses[id.Name] += 1000
						}
					}
				}
			}
			return true
		})
	}
	best := ""
	for n, k := range uses {
		if best == "" || k > uses[best] || k == uses[best] && n < best {
			best = n
		}
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package bin\n\nimport (\n\t\"io/ioutil\"\n\n\t\"go.uber.org/zap\"\n\t\"go.uber.org/zap/zapcore\"\n)\n\n")
	b.WriteString("func VH_SetTrace(on bool) (switched bool) {\n")
	b.WriteString("\tl := zap.NewNop()\n\tif on {\n\t\tl = zap.New(zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), zapcore.AddSync(ioutil.Discard), zapcore.DebugLevel))\n\t}\n\t_ = l\n")
	if logger != "" {
		fmt.Fprintf(&b, "\t%s = l\n", logger)
	}
	if best != "" {
		fmt.Fprintf(&b, "\t%s = on\n\treturn true\n}\n", best)
	} else {
		b.WriteString("\treturn false\n}\n")
	}
	return b.String(), nil
}
