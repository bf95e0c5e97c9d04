package main

import (
	"encoding/json"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
)

func init() {
	handlers["tables"] = tablesOp
}

// tablesOp reads the tables of generated Go files.
func tablesOp(raw json.RawMessage) interface{} {
	var s struct {
		Files []string `json:"files"`
	}
	must(json.Unmarshal(raw, &s))
	out := make(list, 0, len(s.Files))
	for _, name := range s.Files {
		out = append(out, readTables(name))
	}

	return obj{"res": out}
}

func readTables(name string) obj {
	f, err := parser.ParseFile(token.NewFileSet(), name, nil, 0)
	if err != nil {
		return obj{"err": err.Error()}
	}
	tables := obj{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			continue
		}
		for _, spec := range g.Specs {
			v, ok := spec.(*ast.ValueSpec)
			if !ok {
				continue
			}
			for i, n := range v.Names {
				if i >= len(v.Values) {
					continue
				}
				if lit, ok := v.Values[i].(*ast.CompositeLit); ok {
					if _, again := tables[n.Name]; again {
						return obj{"err": "two tables " + n.Name}
					}
					t, ok := pairs(lit)
					if !ok {
						return obj{"err": "unexpected values in " + n.Name}
					}
					tables[n.Name] = t
				}
			}
		}
	}

	return obj{"package": f.Name.Name, "tables": tables}
}

func pairs(lit *ast.CompositeLit) ([][]int64, bool) {
	out := make([][]int64, 0, len(lit.Elts))
	for _, e := range lit.Elts {
		p, ok := e.(*ast.CompositeLit)
		if !ok || len(p.Elts) != 2 {
			return nil, false
		}
		pair := []int64{0, 0}
		for i, x := range p.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if id, ok := kv.Key.(*ast.Ident); ok && (id.Name == "first") != (i == 0) {
					return nil, false
				}
				x = kv.Value
			}
			b, ok := x.(*ast.BasicLit)
			if !ok {
				return nil, false
			}
			n, exact := constant.Int64Val(constant.ToInt(constant.MakeFromLiteral(b.Value, b.Kind, 0)))
			if !exact {
				return nil, false
			}
			pair[i] = n
		}
		out = append(out, pair)
	}

	return out, true
}
