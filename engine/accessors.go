package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"path/filepath"
	"sort"
	"strings"
)

// genAccessors writes ghost accessors for unexported fields, located by type (so renaming a field does not matter).
func genAccessors(repo string) (string, error) {
	fs, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	sort.Strings(fs)
	fset := token.NewFileSet()
	structs := map[string]*ast.StructType{}
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return "", err
		}
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				if ts, ok := s.(*ast.TypeSpec); ok {
					if st, ok := ts.Type.(*ast.StructType); ok {
						structs[ts.Name.Name] = st
					}
				}
			}
		}
	}
	ty := func(e ast.Expr) string {
		var b strings.Builder
		printer.Fprint(&b, fset, e)
		return b.String()
	}
	find := func(sn, want, pref string) (string, error) {
		st := structs[sn]
		if st == nil {
			return "", fmt.Errorf("type %s not found", sn)
		}
		var got []string
		for _, f := range st.Fields.List {
			for _, n := range f.Names {
				t := ty(f.Type)
				if t == want || want == "*?" && strings.HasPrefix(t, "*") {
					if n.Name == pref {
						return pref, nil
					}
					got = append(got, n.Name)
				}
			}
		}
		if len(got) != 1 {
			return "", fmt.Errorf("%s: %d fields of type %s", sn, len(got), want)
		}
		return got[0], nil
	}
	var b strings.Builder
	b.WriteString("package bin\n\n")
	acc := func(fn, sn, want, pref, typ string, ptr bool) error {
		f, err := find(sn, want, pref)
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "func g_%s(p *%s) %s { return p.%s }\n", fn, sn, typ, f)
		if ptr {
			fmt.Fprintf(&b, "func g_%sp(p *%s) *%s { return &p.%s }\n", fn, sn, typ, f)
		}
		return nil
	}
	for _, a := range []struct {
		fn, sn, want, pref, typ string
		ptr                     bool
	}{
		{"data", "Decoder", "[]byte", "data", "[]byte", true},
		{"pos", "Decoder", "int", "pos", "int", true},
		{"denc", "Decoder", "Encoding", "encoding", "Encoding", true},
		{"count", "Encoder", "int", "count", "int", true},
		{"eenc", "Encoder", "Encoding", "encoding", "Encoding", false},
		{"ewriter", "Encoder", "io.Writer", "output", "io.Writer", false},
		{"vdTypes", "VariantDefinition", "map[TypeID]reflect.Type", "typeIDToType", "map[TypeID]reflect.Type", false},
		{"vdNames", "VariantDefinition", "map[TypeID]string", "typeIDToName", "map[TypeID]string", false},
		{"vdIDs", "VariantDefinition", "map[string]TypeID", "typeNameToID", "map[string]TypeID", false},
		{"vdEnc", "VariantDefinition", "TypeIDEncoding", "typeIDEncoding", "TypeIDEncoding", false},
	} {
		if err := acc(a.fn, a.sn, a.want, a.pref, a.typ, a.ptr); err != nil {
			if a.sn != "VariantDefinition" {
				return "", err
			}
		}
	}
	// the field options type
	for _, p := range []struct{ fn, sn string }{{"dopt", "Decoder"}, {"eopt", "Encoder"}} {
		f, err := find(p.sn, "*?", "currentFieldOpt")
		if err != nil {
			return "", err
		}
		var tn string
		for _, fl := range structs[p.sn].Fields.List {
			for _, n := range fl.Names {
				if n.Name == f {
					tn = ty(fl.Type)
				}
			}
		}
		fmt.Fprintf(&b, "func g_%s(p *%s) %s { return p.%s }\n", p.fn, p.sn, tn, f)
		fmt.Fprintf(&b, "func g_%sp(p *%s) *%s { return &p.%s }\n", p.fn, p.sn, tn, f)
		if p.fn == "dopt" {
			fmt.Fprintf(&b, "type g_option = %s\n", strings.TrimPrefix(tn, "*"))
			if o := structs[strings.TrimPrefix(tn, "*")]; o != nil {
				of, err := find(strings.TrimPrefix(tn, "*"), "binary.ByteOrder", "Order")
				if err != nil {
					return "", err
				}
				fmt.Fprintf(&b, "func g_optOrder(p *g_option) binary.ByteOrder { return p.%s }\n", of)
				var bools []string
				size := ""
				for _, fl := range o.Fields.List {
					for _, n := range fl.Names {
						switch ty(fl.Type) {
						case "bool":
							bools = append(bools, n.Name)
						case "*int":
							size = n.Name
						}
					}
				}
				if len(bools) == 2 && size != "" {
					if strings.Contains(strings.ToLower(bools[0]), "coption") {
						bools[0], bools[1] = bools[1], bools[0]
					}
					fmt.Fprintf(&b, "func g_optO(p *g_option) bool { return p.%s }\nfunc g_optOp(p *g_option) *bool { return &p.%s }\n", bools[0], bools[0])
					fmt.Fprintf(&b, "func g_optC(p *g_option) bool { return p.%s }\nfunc g_optCp(p *g_option) *bool { return &p.%s }\n", bools[1], bools[1])
					fmt.Fprintf(&b, "func g_optSize(p *g_option) *int { return p.%s }\n", size)
				}
			}
		}
	}
	s := b.String()
	s = strings.Replace(s, "package bin\n", "package bin\n\nimport (\n\t\"encoding/binary\"\n\t\"io\"\n\t\"reflect\"\n)\n", 1)
	return s, nil
}
