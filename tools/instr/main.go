// instr copies a package's non-test files with a scheduling point before every
// statement that may touch memory another goroutine can reach: one that goes
// through a pointer, slice or map, or uses a package variable, a variable
// captured by a function literal or one whose address is taken, or anything
// whose type is not known here. Other statements only touch the goroutine's own
// variables; it makes no difference to others when they run. Usage: instr [-count] SRCDIR OUTDIR; prints "SRC<TAB>OUT" for each file.
//
// With -count, it only counts: at the start of every block, so that every call
// and every iteration of a loop counts.
//
// The text is otherwise left as it is, so line numbers stay the same.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const mod = "gopkg.in/addrs.v1/zzverif/"

type edit struct {
	off, end int
	text     string
}

func main() {
	counting := os.Args[1] == "-count"
	if counting {
		os.Args = os.Args[1:]
	}
	src, out := os.Args[1], os.Args[2]
	files, err := filepath.Glob(filepath.Join(src, "*.go"))
	check(err)
	check(os.MkdirAll(out, 0o755))
	type file struct {
		name string
		text string
		af   *ast.File
	}
	var fl []file
	var afs []*ast.File
	fs := token.NewFileSet()
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		check(err)
		af, err := parser.ParseFile(fs, f, b, parser.SkipObjectResolution)
		if err != nil {
			// the build reports it better
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		fl = append(fl, file{f, string(b), af})
		afs = append(afs, af)
	}
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Error: func(error) {}, Importer: none{}}
	p, _ := conf.Check("x", fs, afs, info)
	if p != nil {
		scope = p.Scope()
	}
	for _, af := range afs {
		findShared(af)
	}
	for _, f := range fl {
		o := filepath.Join(out, filepath.Base(f.name))
		text := ""
		if counting {
			text = count(fs, f.af, f.text)
		} else {
			text = rewrite(fs, f.af, f.text)
		}
		check(os.WriteFile(o, []byte(text), 0o644))
		fmt.Printf("%s\t%s\n", f.name, o)
	}
	fmt.Fprintf(os.Stderr, "%s: %d scheduling points, %d statements\n", src, total, statements)
}

var (
	info              *types.Info
	scope             *types.Scope
	shared            = map[types.Object]bool{}
	total, statements int
)

// none gives empty packages, so what is used of them has no known type.
type none struct{}

func (none) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	return p, nil
}

// findShared notes the variables captured by function literals, and those whose
// address is taken, also implicitly by a call of a method with a pointer
// receiver.
func findShared(af *ast.File) {
	var lits []*ast.FuncLit
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			lits = append(lits, n)
			ast.Inspect(n.Body, visit)
			lits = lits[:len(lits)-1]
			return false
		case *ast.Ident:
			if v, ok := info.Uses[n].(*types.Var); ok {
				for _, l := range lits {
					if v.Pos() < l.Pos() || v.Pos() >= l.End() {
						shared[v] = true
					}
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				markRoot(n.X)
			}
		case *ast.SliceExpr:
			markRoot(n.X)
		case *ast.SelectorExpr:
			if s, ok := info.Selections[n]; ok && s.Kind() == types.MethodVal {
				if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
					if _, ok := sig.Recv().Type().(*types.Pointer); ok {
						if t := info.TypeOf(n.X); t != nil {
							if _, ok := t.Underlying().(*types.Pointer); !ok {
								markRoot(n.X)
							}
						}
					}
				}
			}
		}
		return true
	}
	ast.Inspect(af, visit)
}

// markRoot marks the variable an addressable expression lies in.
func markRoot(e ast.Expr) {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.Ident:
			if o := info.Uses[x]; o != nil {
				shared[o] = true
			}
			return
		default:
			return
		}
	}
}

// local tells whether the type is known and values of it can be read and
// written without going through a pointer.
func known(e ast.Expr) bool {
	t := info.TypeOf(e)
	return t != nil && t != types.Typ[types.Invalid]
}

// touches tells whether the node, without the blocks and function literals in
// it, may touch shared memory.
func touches(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found || n == nil {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit:
			return false
		case *ast.StarExpr:
			if tv, ok := info.Types[n]; ok && tv.IsType() {
				return true
			}
			found = true
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if _, ok := info.Uses[id].(*types.PkgName); ok {
					if tv, ok := info.Types[ast.Expr(n)]; ok && tv.IsType() {
						return false
					}
					// a function or variable of another package: functions are
					// all right, as they cannot know our memory but through what
					// they are given, and atomics have points of their own
					return false
				}
			}
			s, ok := info.Selections[n]
			if !ok {
				if tv, ok := info.Types[ast.Expr(n)]; ok && tv.IsType() {
					return false
				}
				if known(n.X) {
					found = true
					return false
				}
				return true
			}
			if s.Kind() == types.FieldVal && indirect(s) {
				found = true
			}
			if s.Kind() == types.MethodVal && len(s.Index()) > 1 && s.Indirect() {
				found = true
			}
		case *ast.IndexExpr:
			if tv, ok := info.Types[n.X]; ok {
				if tv.IsType() {
					return true
				}
				switch t := tv.Type.Underlying().(type) {
				case *types.Signature:
					return true
				case *types.Array:
					return true
				case *types.Basic:
					if t.Kind() != types.Invalid {
						return true // a string
					}
				}
			}
			found = true
		case *ast.SliceExpr, *ast.SendStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					switch id.Name {
					case "append", "copy", "delete", "clear", "len", "close":
						if len(n.Args) > 0 {
							if t := info.TypeOf(n.Args[0]); t != nil {
								if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
									return true
								}
							}
						}
						found = true
					}
				}
			}
		case *ast.Ident:
			if v, ok := info.Uses[n].(*types.Var); ok && !v.IsField() {
				if shared[v] || scope == nil || v.Parent() == scope {
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// needed tells whether a point must precede the statement. A compound statement
// is looked at without the blocks in it, but with what an else branch tests, as
// no point can be put there.
func needed(st ast.Stmt) bool {
	switch st := st.(type) {
	case *ast.LabeledStmt:
		return true
	case *ast.IfStmt:
		if st.Init != nil && touches(st.Init) || touches(st.Cond) {
			return true
		}
		if e, ok := st.Else.(*ast.IfStmt); ok {
			return needed(e)
		}
		return false
	case *ast.ForStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt, *ast.DeferStmt:
		return true
	case *ast.BlockStmt:
		return false
	}
	return touches(st)
}

func indirect(s *types.Selection) bool {
	if s.Indirect() {
		return true
	}
	_, ok := s.Recv().Underlying().(*types.Pointer)
	return ok
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

func rewrite(fs *token.FileSet, af *ast.File, s string) string {
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	points := 0
	var tail []string
	names := map[string]string{} // local name of the packages that are replaced in part
	for _, im := range af.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := ""
		if im.Name != nil {
			name = im.Name.Name
		}
		repl := func(to, def string) {
			if name == "" {
				es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), def + " " + strconv.Quote(mod+to)})
			} else {
				es = append(es, edit{off(im.Path.Pos()), off(im.Path.End()), strconv.Quote(mod + to)})
			}
		}
		switch path {
		case "sync":
			repl("zsync", "sync")
		case "sync/atomic":
			repl("zatomic", "atomic")
		case "runtime", "time":
			if name == "" {
				name = path
			}
			if name != "_" && name != "." {
				names[name] = path
			}
		}
	}
	list := func(l []ast.Stmt) {
		for _, st := range l {
			switch st.(type) {
			case *ast.EmptyStmt:
				continue
			}
			statements++
			if !needed(st) {
				continue
			}
			total++
			es = append(es, edit{off(st.Pos()), off(st.Pos()), "zzsched.P(); "})
			points++
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.SelectorExpr:
			if x, ok := n.X.(*ast.Ident); ok {
				to := ""
				switch {
				case names[x.Name] == "runtime" && n.Sel.Name == "Gosched":
					to = "Yield"
				case names[x.Name] == "time" && n.Sel.Name == "Sleep":
					to = "Sleep"
				default:
					return true
				}
				es = append(es, edit{off(n.Pos()), off(n.End()), "zzsched." + to})
				tail = append(tail, "var _ = "+x.Name+"."+n.Sel.Name+"\n")
				points++
			}
		}
		return true
	})
	if points > 0 {
		p := off(af.Name.End())
		es = append(es, edit{p, p, "; import zzsched " + strconv.Quote(mod+"sched")})
	}
	s = apply(es, s) + "\n"
	for _, t := range tail {
		s += t
	}
	return s
}

func apply(es []edit, s string) string {
	sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
	var b strings.Builder
	at := 0
	for _, e := range es {
		b.WriteString(s[at:e.off])
		b.WriteString(e.text)
		at = e.end
	}
	b.WriteString(s[at:])
	return b.String()
}

// count puts a count at the start of every block and case.
func count(fs *token.FileSet, af *ast.File, s string) string {
	var es []edit
	add := func(p token.Pos) {
		total++
		o := fs.Position(p).Offset
		es = append(es, edit{o, o, " zzsched.C();"})
	}
	ast.Inspect(af, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(n.Lbrace + 1)
		case *ast.CaseClause:
			add(n.Colon + 1)
		case *ast.CommClause:
			add(n.Colon + 1)
		}
		return true
	})
	if len(es) > 0 {
		o := fs.Position(af.Name.End()).Offset
		es = append(es, edit{o, o, "; import zzsched " + strconv.Quote(mod+"sched")})
	}
	return apply(es, s) + "\n"
}
