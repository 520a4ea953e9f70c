// instr rewrites the Go files of a copy of the repository so that every source of nondeterminism goes through
// the shims of zzv. It works on the text of each file (insertions and replacements found through the AST and
// the type checker), so it does not depend on how the code is written.
//
//	instr -list LIST -mod MODULE
//
// LIST is the output of go list -export -deps -json.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var shims = map[string]string{
	"sync": "sync", "sync/atomic": "atomic", "time": "time", "os": "os", "os/exec": "exec",
	"os/signal": "signal", "syscall": "syscall", "net": "net", "net/http": "nethttp",
	"math/rand": "rand", "expvar": "expvar", "github.com/lib/pq": "pq", "runtime": "runtime",
	"io/ioutil": "ioutil", "context": "context", "fmt": "fmt",
}

var defaultName = map[string]string{
	"sync/atomic": "atomic", "os/exec": "exec", "os/signal": "signal", "net/http": "http", "math/rand": "rand",
	"github.com/lib/pq": "pq", "io/ioutil": "ioutil",
}

type pkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
}

type edit struct {
	lo, hi int
	text   string
	seq    int
}

type file struct {
	src   []byte
	base  int
	edits []edit
	used  bool
	n     int
}

func (f *file) ins(at int, s string)     { f.rep(at, at, s) }
func (f *file) rep(lo, hi int, s string) { f.edits = append(f.edits, edit{lo, hi, s, len(f.edits)}) }
func (f *file) take(lo, hi int) (out string) { // render and remove the edits inside
	var in, rest []edit
	for _, e := range f.edits {
		if e.lo >= lo && e.hi <= hi {
			in = append(in, e)
		} else {
			rest = append(rest, e)
		}
	}
	f.edits = rest
	return apply(f.src, lo, hi, in)
}

func apply(src []byte, lo, hi int, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].lo != edits[j].lo {
			return edits[i].lo < edits[j].lo
		}
		return edits[i].seq < edits[j].seq
	})
	var b strings.Builder
	pos := lo
	for _, e := range edits {
		if e.lo < pos {
			// an insertion nested at the same place
			if e.lo == e.hi && e.lo >= lo {
				b.WriteString(e.text)
				continue
			}
			fatal("overlapping edits at %d (%q)", e.lo, e.text)
		}
		b.Write(src[pos:e.lo])
		b.WriteString(e.text)
		pos = e.hi
	}
	b.Write(src[pos:hi])
	return b.String()
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

func main() {
	list := flag.String("list", "", "")
	mod := flag.String("mod", "github.com/crimist/trakx", "")
	flag.Parse()
	lf, err := os.Open(*list)
	if err != nil {
		fatal("%v", err)
	}
	dec := json.NewDecoder(lf)
	exports := map[string]string{}
	var todo []pkg
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == *mod || strings.HasPrefix(p.ImportPath, *mod+"/") {
			todo = append(todo, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	for _, p := range todo {
		var files []*ast.File
		var srcs []*file
		var names []string
		for _, g := range p.GoFiles {
			name := filepath.Join(p.Dir, g)
			src, err := os.ReadFile(name)
			if err != nil {
				fatal("%v", err)
			}
			af, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
			if err != nil {
				fatal("%v", err)
			}
			files = append(files, af)
			srcs = append(srcs, &file{src: src, base: fset.File(af.Pos()).Base()})
			names = append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		cfg := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "instr: typecheck:", err) }, FakeImportC: true}
		cfg.Check(p.ImportPath, fset, files, info)
		for i, af := range files {
			rewrite(*mod, fset, af, srcs[i], info)
			out := apply(srcs[i].src, 0, len(srcs[i].src), srcs[i].edits)
			if err := os.WriteFile(names[i], []byte(out), 0644); err != nil {
				fatal("%v", err)
			}
		}
		if len(files) > 0 {
			globals(*mod, p, files)
		}
	}
}

// globals writes a file that tells the scheduler about the package-level variables.
func globals(mod string, p pkg, files []*ast.File) {
	var b strings.Builder
	for _, af := range files {
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				for _, id := range sp.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						fmt.Fprintf(&b, "\tzzvs.Global(%q, &%s)\n", p.ImportPath+"."+id.Name, id.Name)
					}
				}
			}
		}
	}
	if b.Len() == 0 {
		return
	}
	src := fmt.Sprintf("package %s\n\nimport zzvs %q\n\nfunc init() {\n%s}\n", files[0].Name.Name, mod+"/zzv/vs", b.String())
	if err := os.WriteFile(filepath.Join(p.Dir, "zz_globals.go"), []byte(src), 0644); err != nil {
		fatal("%v", err)
	}
}

func rewrite(mod string, fset *token.FileSet, af *ast.File, f *file, info *types.Info) {
	off := func(p token.Pos) int { return int(p) - f.base }
	V := "zzvs."
	// imports
	for _, im := range af.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		sh, ok := shims[path]
		if !ok {
			continue
		}
		np := fmt.Sprintf("%q", mod+"/zzv/s/"+sh)
		if im.Name == nil {
			n := defaultName[path]
			if n == "" {
				n = path
			}
			np = n + " " + np
		}
		f.rep(off(im.Path.Pos()), off(im.Path.End()), np)
	}
	isBuiltin := func(e ast.Expr, name string) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok || id.Name != name {
			return false
		}
		o := info.Uses[id]
		if o == nil {
			return true
		}
		_, b := o.(*types.Builtin)
		return b
	}
	under := func(e ast.Expr) types.Type {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return nil
		}
		if _, isTP := tv.Type.(*types.TypeParam); isTP {
			return nil
		}
		return tv.Type.Underlying()
	}
	two := map[ast.Expr]bool{} // receives used with two results
	skip := map[ast.Node]bool{}
	var visit func(n ast.Node)
	children := func(n ast.Node) {
		ast.Inspect(n, func(c ast.Node) bool {
			if c == nil || c == n {
				return c == n
			}
			visit(c)
			return false
		})
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	visit = func(n ast.Node) {
		if skip[n] {
			return
		}
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[ast.Unparen(n.Rhs[0])] = true
			}
			children(n)
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[ast.Unparen(n.Values[0])] = true
			}
			children(n)
		case *ast.UnaryExpr:
			children(n)
			if n.Op == token.ARROW {
				f.used = true
				fn := "Recv("
				if two[n] {
					fn = "Recv2("
				}
				f.rep(off(n.OpPos), off(n.OpPos)+2, V+fn)
				f.ins(off(n.End()), ")")
			}
		case *ast.SendStmt:
			children(n)
			f.used = true
			ch := f.take(off(n.Chan.Pos()), off(n.Chan.End()))
			v := f.take(off(n.Value.Pos()), off(n.Value.End()))
			f.rep(off(n.Pos()), off(n.End()), V+"SendTo("+ch+")("+v+")")
		case *ast.CallExpr:
			children(n)
			if isBuiltin(n.Fun, "close") {
				f.used = true
				f.rep(off(n.Fun.Pos()), off(n.Fun.End()), V+"Close")
			}
			if isBuiltin(n.Fun, "make") && len(n.Args) == 2 {
				if _, ok := under(n.Args[0]).(*types.Map); ok {
					f.used = true
					f.ins(off(n.Args[1].Pos()), V+"CapHint(")
					f.ins(off(n.Args[1].End()), ")")
				}
			}
		case *ast.RangeStmt:
			children(n)
			f.n++
			it := fmt.Sprintf("zzit%d", f.n)
			addr := func(e ast.Expr) string {
				if blank(e) {
					return "nil"
				}
				return "&" + f.take(off(e.Pos()), off(e.End()))
			}
			name := func(e ast.Expr) string {
				if blank(e) {
					return "_"
				}
				return e.(*ast.Ident).Name
			}
			switch under(n.X).(type) {
			case *types.Map:
				if n.Key == nil && n.Value == nil {
					return
				}
				f.used = true
				x := f.take(off(n.X.Pos()), off(n.X.End()))
				var h string
				if n.Tok == token.DEFINE {
					h = fmt.Sprintf("for %s, %s, %s := %sIter(%s); %s.Next(%s, %s); ", name(n.Key), name(n.Value), it, V, x, it, addr(n.Key), addr(n.Value))
				} else {
					h = fmt.Sprintf("for %s := %sIter2(%s); %s.Next(%s, %s); ", it, V, x, it, addr(n.Key), addr(n.Value))
				}
				f.rep(off(n.For), off(n.Body.Lbrace), h)
			case *types.Chan:
				f.used = true
				x := f.take(off(n.X.Pos()), off(n.X.End()))
				var h string
				if n.Tok == token.DEFINE && !blank(n.Key) {
					h = fmt.Sprintf("for %s, %s := %sChanIter(%s); %s.Next(%s); ", name(n.Key), it, V, x, it, addr(n.Key))
				} else {
					h = fmt.Sprintf("for %s := %sChanIter2(%s); %s.Next(%s); ", it, V, x, it, addr(n.Key))
				}
				f.rep(off(n.For), off(n.Body.Lbrace), h)
			}
		case *ast.GoStmt:
			children(n)
			f.used = true
			f.n++
			call := n.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && fl.Type.Results == nil {
				body := f.take(off(fl.Pos()), off(fl.End()))
				f.rep(off(n.Pos()), off(n.End()), V+"Go("+body+")")
				return
			}
			if tv, ok := info.Types[call.Fun]; ok && (tv.IsBuiltin() || tv.IsType()) {
				t := f.take(off(call.Pos()), off(call.End()))
				f.rep(off(n.Pos()), off(n.End()), V+"Go(func() { "+t+" })")
				return
			}
			fn := fmt.Sprintf("zzf%d", f.n)
			s := "{ " + fn + " := " + f.take(off(call.Fun.Pos()), off(call.Fun.End())) + "; "
			var args []string
			for i, a := range call.Args {
				t := f.take(off(a.Pos()), off(a.End()))
				tv := info.Types[a]
				if tv.Value != nil || tv.IsNil() || tv.Type == nil {
					args = append(args, t)
					continue
				}
				v := fmt.Sprintf("zza%d_%d", f.n, i)
				s += v + " := " + t + "; "
				args = append(args, v)
			}
			dots := ""
			if call.Ellipsis.IsValid() {
				dots = "..."
			}
			s += V + "Go(func() { " + fn + "(" + strings.Join(args, ", ") + dots + ") }) }"
			f.take(off(n.Pos()), off(n.End()))
			f.rep(off(n.Pos()), off(n.End()), s)
		case *ast.SelectStmt:
			f.used = true
			if len(n.Body.List) == 0 {
				f.rep(off(n.Pos()), off(n.End()), "{ "+V+"BlockForever(); panic(\"unreachable\") }")
				return
			}
			f.n++
			id := f.n
			var vars, inits []string
			hasDef := false
			idx := 0
			type hdr struct {
				cc   *ast.CommClause
				text string
			}
			var hs []hdr
			for _, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					hasDef = true
					continue
				}
				v := fmt.Sprintf("zzc%d_%d", id, idx)
				text := fmt.Sprintf("case %d:", idx)
				recv := func(e ast.Expr) string {
					u := ast.Unparen(e).(*ast.UnaryExpr)
					children(u)
					return V + "RecvCase(" + f.take(off(u.X.Pos()), off(u.X.End())) + ")"
				}
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					visit(s.Chan)
					visit(s.Value)
					ch := f.take(off(s.Chan.Pos()), off(s.Chan.End()))
					val := f.take(off(s.Value.Pos()), off(s.Value.End()))
					inits = append(inits, V+"SendCase("+ch+")("+val+")")
				case *ast.ExprStmt:
					inits = append(inits, recv(s.X))
				case *ast.AssignStmt:
					inits = append(inits, recv(s.Rhs[0]))
					var l []string
					for _, e := range s.Lhs {
						visit(e)
						l = append(l, f.take(off(e.Pos()), off(e.End())))
					}
					r := v + ".V"
					if len(l) == 2 {
						r += ", " + v + ".Ok"
					}
					text += " " + strings.Join(l, ", ") + " " + s.Tok.String() + " " + r + "; "
				}
				vars = append(vars, v)
				hs = append(hs, hdr{cc, text})
				idx++
			}
			for _, c := range n.Body.List {
				for _, s := range c.(*ast.CommClause).Body {
					visit(s)
				}
			}
			for _, h := range hs {
				f.take(off(h.cc.Case), off(h.cc.Colon)+1)
				f.rep(off(h.cc.Case), off(h.cc.Colon)+1, h.text)
			}
			head := "switch "
			if len(vars) > 0 {
				head += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
			}
			head += fmt.Sprintf("%sSelect(%v", V, hasDef)
			if len(vars) > 0 {
				head += ", " + strings.Join(vars, ", ")
			}
			head += ") "
			f.rep(off(n.Select), off(n.Body.Lbrace), head)
			if !hasDef {
				f.ins(off(n.Body.Rbrace), "default: panic(\"unreachable\")\n")
			}
		case *ast.ImportSpec:
		default:
			children(n)
		}
	}
	for _, d := range af.Decls {
		visit(d)
	}
	if f.used {
		f.ins(off(af.Name.End()), "; import zzvs \""+mod+"/zzv/vs\"")
	}
}
