// Package instr rewrites a copy of the sources of the package under test for an
// 'go build -overlay' build: it inserts monitoring events and removes go:nosplit.
//
// The rewriting is driven by syntax only (go statements, channel operations, loops,
// labels, function entries, slice indexing, atomic calls), so it follows the code as it
// is, whatever its functions are called. Insertions stay on the original lines.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Event kinds passed to VerifHook.
const (
	Entry  = iota // function entry
	Loop          // loop iteration (for body or label)
	Go            // right before a go statement
	Chan          // right before a statement with a channel send/receive/close or select
	AfterC        // right after such a statement
	Make          // right before a statement that makes a channel
	Atomic        // right before a statement with a sync/atomic call
)

// Site describes an inserted event.
type Site struct {
	Kind  int    `json:"kind"`
	Touch bool   `json:"touch"` // in a function that indexes slices or calls function values
	Func  string `json:"func"`
	Pos   string `json:"pos"`
}

type edit struct {
	off  int
	text string
	ord  int
}

// Overlay writes rewritten sources of the package in dir to out and returns the overlay
// map. events tells whether to insert events (otherwise only go:nosplit is removed).
// tags are the build tags in force.
func Overlay(dir, out string, tags []string, events bool) (map[string]string, []Site, error) {
	ctx := build.Default
	ctx.BuildTags = tags
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil, err
	}
	repl := map[string]string{}
	var sites []Site
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, _ := ctx.MatchFile(dir, n); !ok {
			continue
		}
		p := filepath.Join(dir, n)
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, nil, err
		}
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, nil, err
		}
		files = append(files, f)
		names = append(names, n)
		srcs[n] = b
	}
	if len(files) == 0 {
		return nil, nil, fmt.Errorf("no go files in %s", dir)
	}
	pkg := files[0].Name.Name
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Error: func(error) {}, Importer: noImport{}, Sizes: types.SizesFor("gc", "amd64")}
	cfg.Check(pkg, fset, files, info) // best effort, imports are not resolved

	for k, f := range files {
		n := names[k]
		src := srcs[n]
		var eds []edit
		if events {
			eds = walkFile(fset, f, info, n, &sites)
		}
		sort.SliceStable(eds, func(i, j int) bool {
			if eds[i].off != eds[j].off {
				return eds[i].off < eds[j].off
			}
			return eds[i].ord < eds[j].ord
		})
		var sb strings.Builder
		last := 0
		for _, e := range eds {
			sb.Write(src[last:e.off])
			sb.WriteString(e.text)
			last = e.off
		}
		sb.Write(src[last:])
		txt := strings.ReplaceAll(sb.String(), "//go:nosplit", "// go nosplit")
		o := filepath.Join(out, n)
		if err := os.WriteFile(o, []byte(txt), 0o644); err != nil {
			return nil, nil, err
		}
		repl[filepath.Join(dir, n)] = o
	}
	hook := "package " + pkg + `

// VerifHook receives monitoring events.
var VerifHook func(site int)

//go:norace
func verifEv(site int) {
	if h := VerifHook; h != nil {
		h(site)
	}
}
`
	if events {
		o := filepath.Join(out, "zz_verif_hook.go")
		if err := os.WriteFile(o, []byte(hook), 0o644); err != nil {
			return nil, nil, err
		}
		repl[filepath.Join(dir, "zz_verif_hook.go")] = o
	}
	return repl, sites, nil
}

// WriteJSON writes an overlay file.
func WriteJSON(path string, repl map[string]string) error {
	b, _ := json.Marshal(map[string]any{"Replace": repl})
	return os.WriteFile(path, b, 0o644)
}

type noImport struct{}

func (noImport) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return nil, fmt.Errorf("not resolved")
}

type walker struct {
	fset  *token.FileSet
	info  *types.Info
	file  string
	sites *[]Site
	eds   []edit
	atom  string // name of sync/atomic import
}

func walkFile(fset *token.FileSet, f *ast.File, info *types.Info, name string, sites *[]Site) []edit {
	w := &walker{fset: fset, info: info, file: name, sites: sites}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync/atomic"` {
			w.atom = "atomic"
			if im.Name != nil {
				w.atom = im.Name.Name
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && fd.Name.Name != "init" {
			w.fn(fd.Name.Name, fd.Body)
		} else if gd, ok := d.(*ast.GenDecl); ok {
			ast.Inspect(gd, func(n ast.Node) bool {
				if fl, ok := n.(*ast.FuncLit); ok {
					w.fn("lit", fl.Body)
					return false
				}
				return true
			})
		}
	}
	return w.eds
}

func (w *walker) site(kind int, touch bool, fn string, pos token.Pos) string {
	p := w.fset.Position(pos)
	*w.sites = append(*w.sites, Site{kind, touch, fn, fmt.Sprintf("%s:%d", w.file, p.Line)})
	return fmt.Sprintf("verifEv(%d)", len(*w.sites)-1)
}

func (w *walker) add(pos token.Pos, text string, ord int) {
	w.eds = append(w.eds, edit{w.fset.Position(pos).Offset, text, ord})
}

// does function (without nested literals) access elements of a collection?
func (w *walker) touches(body *ast.BlockStmt) (t bool) {
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.IndexExpr:
			tv, ok := w.info.Types[x.X]
			if !ok || tv.Type == nil || !tv.IsValue() {
				break
			}
			if _, ok := tv.Type.Underlying().(*types.Slice); ok {
				t = true
			}
		case *ast.RangeStmt:
			if x.Value == nil {
				break
			}
			if tv, ok := w.info.Types[x.X]; ok && tv.Type != nil {
				if _, ok := tv.Type.Underlying().(*types.Slice); ok {
					t = true
				}
			}
		case *ast.CallExpr:
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok {
				if v, ok := w.info.Uses[id].(*types.Var); ok {
					if _, ok := v.Type().Underlying().(*types.Signature); ok {
						t = true
					}
				}
			}
		}
		return true
	})
	return
}

type ops struct{ ch, mk, at bool }

// operations directly in n, not in nested statements lists or literals
func (w *walker) scan(n ast.Node) (o ops) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				o.ch = true
			}
		case *ast.SendStmt, *ast.SelectStmt:
			o.ch = true
		case *ast.CallExpr:
			switch f := ast.Unparen(x.Fun).(type) {
			case *ast.Ident:
				if f.Name == "close" {
					o.ch = true
				}
				if f.Name == "make" && len(x.Args) > 0 {
					if _, ok := x.Args[0].(*ast.ChanType); ok {
						o.mk = true
					} else if tv, ok := w.info.Types[x.Args[0]]; ok && tv.Type != nil {
						if _, ok := tv.Type.Underlying().(*types.Chan); ok {
							o.mk = true
						}
					}
				}
			case *ast.SelectorExpr:
				if id, ok := f.X.(*ast.Ident); ok && id.Name == w.atom && w.atom != "" {
					o.at = true
				}
				switch f.Sel.Name { // methods of atomic / sync types
				case "Add", "CompareAndSwap", "Load", "Store", "Swap", "Done", "Wait", "Lock", "Unlock":
					o.at = true
				}
			}
		}
		return true
	})
	return
}

func (w *walker) fn(name string, body *ast.BlockStmt) {
	touch := w.touches(body)
	w.add(body.Lbrace+1, " "+w.site(Entry, touch, name, body.Lbrace)+"; ", 0)
	w.list(name, touch, body.List)
	// nested literals in this function, not in their own nested ones
	var lits func(n ast.Node) bool
	lits = func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			w.fn(name+".lit", fl.Body)
			return false
		}
		return true
	}
	ast.Inspect(body, lits)
}

func (w *walker) list(fn string, touch bool, l []ast.Stmt) {
	for _, s := range l {
		w.stmt(fn, touch, s)
	}
}

// s is an element of a statement list
func (w *walker) stmt(fn string, touch bool, s ast.Stmt) {
	pos := s.Pos()
	for {
		ls, ok := s.(*ast.LabeledStmt)
		if !ok {
			break
		}
		s = ls.Stmt
		switch s.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
			// label may be a break/continue target, keep it attached
		default:
			w.add(ls.Colon+1, " "+w.site(Loop, touch, fn, ls.Pos())+"; ", 0)
			pos = s.Pos()
		}
	}
	pre := func(o ops) {
		if o.at {
			w.add(pos, w.site(Atomic, false, fn, pos)+"; ", 1)
		}
		if o.mk {
			w.add(pos, w.site(Make, false, fn, pos)+"; ", 1)
		}
		if o.ch {
			w.add(pos, w.site(Chan, false, fn, pos)+"; ", 1)
		}
	}
	switch x := s.(type) {
	case *ast.GoStmt:
		w.add(pos, w.site(Go, false, fn, pos)+"; ", 1)
	case *ast.BlockStmt:
		w.list(fn, touch, x.List)
	case *ast.IfStmt:
		w.ifs(fn, touch, x, pre)
	case *ast.ForStmt:
		o := w.scan(x.Init)
		c := w.scan(x.Cond)
		p := w.scan(x.Post)
		pre(ops{o.ch || c.ch || p.ch, o.mk || c.mk || p.mk, o.at || c.at || p.at})
		w.add(x.Body.Lbrace+1, " "+w.site(Loop, touch, fn, x.Pos())+"; ", 0)
		w.list(fn, touch, x.Body.List)
	case *ast.RangeStmt:
		pre(w.scan(x.X))
		w.add(x.Body.Lbrace+1, " "+w.site(Loop, touch, fn, x.Pos())+"; ", 0)
		w.list(fn, touch, x.Body.List)
	case *ast.SwitchStmt:
		o, c := w.scan(x.Init), w.scan(x.Tag)
		pre(ops{o.ch || c.ch, o.mk || c.mk, o.at || c.at})
		for _, cc := range x.Body.List {
			w.list(fn, touch, cc.(*ast.CaseClause).Body)
		}
	case *ast.TypeSwitchStmt:
		for _, cc := range x.Body.List {
			w.list(fn, touch, cc.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		pre(ops{ch: true})
		for _, cc := range x.Body.List {
			w.list(fn, touch, cc.(*ast.CommClause).Body)
		}
	case *ast.AssignStmt, *ast.ExprStmt, *ast.SendStmt, *ast.DeclStmt, *ast.IncDecStmt:
		o := w.scan(s)
		pre(o)
		if o.ch {
			w.add(s.End(), "; "+w.site(AfterC, false, fn, s.End())+"; ", 0)
		}
	case *ast.ReturnStmt, *ast.DeferStmt:
		pre(w.scan(s))
	}
}

func (w *walker) ifs(fn string, touch bool, x *ast.IfStmt, pre func(ops)) {
	o, c := w.scan(x.Init), w.scan(x.Cond)
	pre(ops{o.ch || c.ch, o.mk || c.mk, o.at || c.at})
	w.list(fn, touch, x.Body.List)
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		w.list(fn, touch, e.List)
	case *ast.IfStmt:
		w.ifs(fn, touch, e, pre)
	}
}
