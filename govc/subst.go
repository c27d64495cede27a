package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"
)

// substCalls replaces references pkg.Func by a model of that function, for
// functions that reach outside the process (natively they would use the network).
func substCalls(name string, src []byte, sub map[string]string) ([]byte, error) {
	if len(sub) == 0 {
		return src, nil
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, 0)
	if err != nil {
		return nil, err
	}
	imp := map[string]string{}
	used := map[string]int{}
	for _, is := range f.Imports {
		p := strings.Trim(is.Path.Value, "\"")
		n := p[strings.LastIndexByte(p, '/')+1:]
		if is.Name != nil {
			n = is.Name.Name
		}
		imp[n] = p
	}
	type edit struct {
		from, to int
		s        string
	}
	var eds []edit
	repl := map[string]bool{}
	ast.Inspect(f, func(x ast.Node) bool {
		se, ok := x.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := se.X.(*ast.Ident)
		if !ok {
			return true
		}
		p, ok := imp[id.Name]
		if !ok {
			return true
		}
		used[id.Name]++
		if m, ok := sub[p+"."+se.Sel.Name]; ok {
			eds = append(eds, edit{fset.Position(se.Pos()).Offset, fset.Position(se.End()).Offset, m})
			repl[id.Name] = true
			used[id.Name]--
		}
		return true
	})
	sort.Slice(eds, func(i, j int) bool { return eds[i].from > eds[j].from })
	out := append([]byte{}, src...)
	for _, e := range eds {
		out = append(out[:e.from:e.from], append([]byte(e.s), out[e.to:]...)...)
	}
	for n := range repl {
		if used[n] == 0 {
			// keep the import used
			out = append(out, []byte("\nvar _ = "+keepUse[imp[n]]+"\n")...)
		}
	}
	return out, nil
}

var keepUse = map[string]string{"net": "net.IPv4len", "net/http": "http.StatusOK", "time": "time.Second", "io": "io.EOF"}
