// Command instr rewrites the non-test sources of the packages of a module so
// that concurrency, time and randomness go through package verifsched.
//
// usage: instr -repo DIR -out DIR [-points pkg,...] pkg...
//
// It reads "go list -export -deps -json" output from standard input and writes
// rewritten copies to -out plus a file replace.json that maps original paths to
// the copies (in the format of go build -overlay, without the outer object).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	ImportMap  map[string]string
	Standard   bool
	Name       string
}

const schedPath = "github.com/davidkleiven/goselect/verifsched"
const schedName = "verifsched_"

func main() {
	out := flag.String("out", "", "output directory")
	module := flag.String("module", "github.com/davidkleiven/goselect", "module path")
	points := flag.String("points", "", "comma separated import paths whose statements become scheduling points")
	skip := flag.String("skip", "", "comma separated path prefixes that are left alone")
	flag.Parse()
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(os.Stdin)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal(err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		order = append(order, &q)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	replace := map[string]string{}
	fine := map[string]bool{}
	for _, p := range strings.Split(*points, ",") {
		if p != "" {
			fine[p] = true
		}
	}
	for _, p := range order {
		if p.Standard || !(p.ImportPath == *module || strings.HasPrefix(p.ImportPath, *module+"/")) {
			continue
		}
		skipIt := false
		for _, s := range strings.Split(*skip, ",") {
			if s != "" && strings.HasPrefix(p.ImportPath, s) {
				skipIt = true
			}
		}
		if skipIt {
			continue
		}
		var files []*ast.File
		var srcs [][]byte
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(name)
			if err != nil {
				fatal(err)
			}
			af, err := parser.ParseFile(fset, name, src, parser.ParseComments)
			if err != nil {
				fatal(err)
			}
			files = append(files, af)
			srcs = append(srcs, src)
			names = append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
			Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fmt.Fprintln(os.Stderr, "instr: type errors in", p.ImportPath, err)
		}
		for i, af := range files {
			r := &rewriter{fset: fset, src: srcs[i], file: af, info: info, base: fset.File(af.Pos()).Base(), fine: fine[p.ImportPath]}
			text := r.rewrite()
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, *module), "/", "_")+"_"+filepath.Base(names[i]))
			if err := os.WriteFile(dst, []byte(text), 0644); err != nil {
				fatal(err)
			}
			replace[names[i]] = dst
		}
	}
	b, _ := json.MarshalIndent(replace, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "replace.json"), b, 0644); err != nil {
		fatal(err)
	}
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"instr:"}, a...)...)
	os.Exit(2)
}

type rewriter struct {
	fset *token.FileSet
	src  []byte
	file *ast.File
	info *types.Info
	base int
	n    int
	fine bool
	used bool
}

func (r *rewriter) off(p token.Pos) int { return int(p) - r.base }

func (r *rewriter) fresh(s string) string {
	r.n++
	return fmt.Sprintf("vsq%s%d", s, r.n)
}

// text renders a node
func (r *rewriter) text(n ast.Node) string {
	if t, ok := r.special(n); ok {
		return t
	}
	return r.inner(n)
}

// inner renders a node that is not itself special
func (r *rewriter) inner(n ast.Node) string {
	var sb strings.Builder
	pos := r.off(n.Pos())
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if r.off(c.Pos()) < pos {
			return true
		}
		if t, ok := r.special(c); ok {
			sb.Write(r.src[pos:r.off(c.Pos())])
			sb.WriteString(t)
			pos = r.off(c.End())
			return false
		}
		return true
	})
	sb.Write(r.src[pos:r.off(n.End())])
	return sb.String()
}

func (r *rewriter) isChan(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

var schedSyms = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond",
		"Pool": "Pool", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Tick": "Tick", "After": "After", "Sleep": "Sleep", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Timer": "Timer",
		"Ticker": "Ticker", "AfterFunc": "AfterFunc"},
	"math/rand": {"Intn": "Intn", "Int31n": "Int31n", "Int63n": "Int63n", "Int": "Int", "Int63": "Int63", "Int31": "Int31", "Uint32": "Uint32",
		"Uint64": "Uint64", "Float64": "Float64", "Float32": "Float32", "NormFloat64": "NormFloat64", "ExpFloat64": "ExpFloat64", "Perm": "Perm",
		"Shuffle": "Shuffle", "Seed": "Seed", "NewSource": "NewSource"},
	"math/rand/v2": {"IntN": "Intn", "Int32N": "Int31n", "Int64N": "Int63n", "Int": "Int", "Int64": "Int63", "Int32": "Int31", "Uint32": "Uint32",
		"Uint64": "Uint64", "Float64": "Float64", "Float32": "Float32", "NormFloat64": "NormFloat64", "ExpFloat64": "ExpFloat64", "Perm": "Perm",
		"Shuffle": "Shuffle"},
	"runtime": {"Gosched": "Gosched"},
	"os": {"Exit": "Exit", "WriteFile": "WriteFile", "Create": "Create", "OpenFile": "OpenFile", "Rename": "Rename", "Remove": "Remove",
		"RemoveAll": "RemoveAll", "Truncate": "Truncate", "Link": "Link"},
	"io/ioutil": {"WriteFile": "WriteFile"},
	"log":       {"Fatal": "Fatal", "Fatalf": "Fatalf", "Fatalln": "Fatal"},
}

func (r *rewriter) pkgSel(e *ast.SelectorExpr) (string, bool) {
	id, ok := e.X.(*ast.Ident)
	if !ok {
		return "", false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", false
	}
	path := pn.Imported().Path()
	if path == "sync/atomic" {
		return "Atomic" + e.Sel.Name, true
	}
	s, ok := schedSyms[path][e.Sel.Name]
	return s, ok
}

func (r *rewriter) s(name string) string {
	r.used = true
	return schedName + "." + name
}

// special returns the replacement of a node that needs one
func (r *rewriter) special(n ast.Node) (string, bool) {
	switch x := n.(type) {
	case *ast.SelectorExpr:
		if s, ok := r.pkgSel(x); ok {
			return r.s(s), true
		}
		if sel := r.info.Selections[x]; sel != nil && sel.Kind() == types.MethodVal && sel.Recv().String() == "*os.File" {
			switch x.Sel.Name {
			case "Write", "WriteString", "WriteAt", "Truncate", "Close":
				return r.s("F") + "(" + r.text(x.X) + ")." + x.Sel.Name, true
			}
		}
	case *ast.Field:
		// an embedded sync type keeps its name
		if len(x.Names) == 0 {
			if se, ok := x.Type.(*ast.SelectorExpr); ok {
				if s, ok := r.pkgSel(se); ok && s != se.Sel.Name {
					return se.Sel.Name + " " + r.s(s), true
				}
			}
		}
	case *ast.GoStmt:
		return r.goStmt(x), true
	case *ast.SendStmt:
		return r.s("SendTo") + "(" + r.text(x.Chan) + ")(" + r.text(x.Value) + ")", true
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			f := "Recv"
			if tv, ok := r.info.Types[x]; ok {
				if _, ok := tv.Type.(*types.Tuple); ok {
					f = "Recv2"
				}
			}
			return r.s(f) + "(" + r.text(x.X) + ")", true
		}
	case *ast.CallExpr:
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && r.isChan(x.Args[0]) {
			if _, ok := r.info.Uses[id].(*types.Builtin); ok {
				switch id.Name {
				case "close":
					return r.s("Close") + "(" + r.text(x.Args[0]) + ")", true
				case "len":
					return r.s("Len") + "(" + r.text(x.Args[0]) + ")", true
				}
			}
		}
	case *ast.RangeStmt:
		if r.isChan(x.X) {
			return r.rangeStmt(x), true
		}
	case *ast.SelectStmt:
		return r.selectStmt(x, ""), true
	case *ast.LabeledStmt:
		if s, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(s, x.Label.Name+": "), true
		}
	case *ast.BlockStmt:
		if r.fine {
			return r.fineBlock(x), true
		}
	}
	return "", false
}

// fineBlock puts a scheduling point in front of every statement
func (r *rewriter) fineBlock(b *ast.BlockStmt) string {
	var sb strings.Builder
	sb.WriteString("{")
	for _, st := range b.List {
		switch st.(type) {
		case *ast.CaseClause, *ast.CommClause:
			// the body of a switch: no statement may precede a case
			sb.WriteString("\n" + r.clause(st))
			continue
		}
		sb.WriteString("\n" + r.s("Point") + "(); ")
		sb.WriteString(r.text(st))
	}
	sb.WriteString("\n}")
	return sb.String()
}

func (r *rewriter) clause(st ast.Stmt) string {
	c, ok := st.(*ast.CaseClause)
	if !ok {
		return r.text(st)
	}
	var sb strings.Builder
	if c.List == nil {
		sb.WriteString("default:")
	} else {
		sb.WriteString("case ")
		for i, e := range c.List {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(r.text(e))
		}
		sb.WriteString(":")
	}
	for _, s := range c.Body {
		if bs, ok := s.(*ast.BranchStmt); ok && bs.Tok == token.FALLTHROUGH {
			sb.WriteString("\nfallthrough")
			continue
		}
		sb.WriteString("\n" + r.s("Point") + "(); " + r.text(s))
	}
	return sb.String()
}

func (r *rewriter) goStmt(g *ast.GoStmt) string {
	call := g.Call
	site := r.fset.Position(g.Pos())
	key := fmt.Sprintf("%q", filepath.Base(site.Filename)+":"+exprName(call.Fun))
	var pre, keys []string
	fun := ""
	direct := false
	switch f := call.Fun.(type) {
	case *ast.Ident:
		switch r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			direct = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				if _, isFunc := r.info.Uses[f.Sel].(*types.Func); isFunc {
					direct = true
				}
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	_, isLit := call.Fun.(*ast.FuncLit)
	if direct {
		fun = r.text(call.Fun)
	} else {
		fun = r.fresh("f")
		pre = append(pre, fun+" := "+r.text(call.Fun))
	}
	var args []string
	for _, a := range call.Args {
		tv := r.info.Types[a]
		if tv.IsNil() || tv.Value != nil || tv.IsType() {
			args = append(args, r.text(a))
			continue
		}
		v := r.fresh("a")
		pre = append(pre, v+" := "+r.text(a))
		args = append(args, v)
		keys = append(keys, v)
	}
	ell := ""
	if call.Ellipsis.IsValid() {
		ell = "..."
	}
	kargs := "nil"
	if len(keys) > 0 && !isLit {
		kargs = "[]interface{}{" + strings.Join(keys, ", ") + "}"
	}
	return "{ " + strings.Join(pre, "; ") + "; " + r.s("Go") + "(" + key + ", " + kargs + ", func() { " + fun + "(" + strings.Join(args, ", ") + ell + ") }) }"
}

func exprName(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.Ident:
		return x.Name
	case *ast.SelectorExpr:
		return exprName(x.X) + "." + x.Sel.Name
	case *ast.FuncLit:
		return "func"
	}
	return "go"
}

func (r *rewriter) body(b *ast.BlockStmt) string {
	t := r.text(b)
	// without the braces
	i := strings.Index(t, "{")
	j := strings.LastIndex(t, "}")
	return t[i+1 : j]
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) string {
	c, v, ok := r.fresh("c"), r.fresh("v"), r.fresh("ok")
	assign := ""
	init := c + " := " + r.text(x.X)
	if x.Key != nil {
		name := r.text(x.Key)
		if name != "_" {
			if x.Tok == token.DEFINE {
				// one variable for the whole loop
				init = c + ", " + name + " := " + r.s("RangeInit") + "(" + r.text(x.X) + ")"
			}
			assign = "; " + name + " = " + v
		} else {
			assign = "; _ = " + v
		}
	} else {
		assign = "; _ = " + v
	}
	return "for " + init + "; ; { " + v + ", " + ok + " := " + r.s("Recv2") + "(" + c + "); if !" + ok + " { break }" + assign + "\n" + r.body(x.Body) + "\n}"
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label string) string {
	var pre, cases []string
	var bodies strings.Builder
	idx, res := r.fresh("i"), r.fresh("r")
	deflt := "false"
	k := 0
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CommClause)
		var stmts strings.Builder
		for _, st := range cc.Body {
			if r.fine {
				stmts.WriteString("\n" + r.s("Point") + "(); ")
			} else {
				stmts.WriteString("\n")
			}
			stmts.WriteString(r.text(st))
		}
		if cc.Comm == nil {
			deflt = "true"
			fmt.Fprintf(&bodies, "\ncase -1: _ = %s%s", res, stmts.String())
			continue
		}
		head := fmt.Sprintf("\ncase %d: _ = %s", k, res)
		k++
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			s := r.fresh("s")
			pre = append(pre, s+" := "+r.s("SendCase")+"("+r.text(cm.Chan)+")("+r.text(cm.Value)+")")
			cases = append(cases, s)
			bodies.WriteString(head + stmts.String())
		case *ast.ExprStmt:
			u := unparen(cm.X).(*ast.UnaryExpr)
			c := r.fresh("c")
			pre = append(pre, c+" := "+r.text(u.X))
			cases = append(cases, r.s("RecvCase")+"("+c+")")
			bodies.WriteString(head + stmts.String())
		case *ast.AssignStmt:
			u := unparen(cm.Rhs[0]).(*ast.UnaryExpr)
			c := r.fresh("c")
			pre = append(pre, c+" := "+r.text(u.X))
			cases = append(cases, r.s("RecvCase")+"("+c+")")
			f := "SelVal"
			var lhs []string
			for _, l := range cm.Lhs {
				lhs = append(lhs, r.text(l))
			}
			if len(lhs) == 2 {
				f = "SelVal2"
			}
			bodies.WriteString(head + "\n" + strings.Join(lhs, ", ") + " " + cm.Tok.String() + " " + r.s(f) + "(" + c + ", " + res + ")" + stmts.String())
		}
	}
	args := append([]string{deflt}, cases...)
	return "{ " + strings.Join(pre, "; ") + "\n" + label + "switch " + idx + ", " + res + " := " + r.s("Select") + "(" + strings.Join(args, ", ") + "); " + idx + " {" +
		bodies.String() + "\ndefault: panic(\"unreachable\")\n} }"
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) rewrite() string {
	f := r.file
	var sb strings.Builder
	sb.WriteString("//go:build go1.21\n\n")
	sb.WriteString("package " + f.Name.Name + "\n\nimport " + schedName + " \"" + schedPath + "\"\n")
	// imports
	pos := r.off(f.Name.End())
	var rest strings.Builder
	prev := pos
	for _, d := range f.Decls {
		rest.Write(r.src[prev:r.off(d.Pos())])
		rest.WriteString(r.text(d))
		prev = r.off(d.End())
	}
	rest.Write(r.src[prev:])
	sb.WriteString(rest.String())
	sb.WriteString("\n\nvar _ = " + schedName + ".Active\n")
	// imports whose uses may all have been replaced
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, "\"`")
		if im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".") {
			continue
		}
		name := path[strings.LastIndex(path, "/")+1:]
		if path == "math/rand/v2" {
			name = "rand"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		switch path {
		case "sync":
			sb.WriteString("var _ " + name + ".Locker\n")
		case "sync/atomic":
			sb.WriteString("var _ " + name + ".Value\n")
		case "time":
			sb.WriteString("var _ " + name + ".Duration\n")
		case "math/rand":
			sb.WriteString("var _ " + name + ".Source\n")
		case "math/rand/v2":
			sb.WriteString("var _ " + name + ".Source\n")
		case "runtime":
			sb.WriteString("var _ = " + name + ".GOOS\n")
		case "os":
			sb.WriteString("var _ = " + name + ".Args\n")
		case "io/ioutil":
			sb.WriteString("var _ = " + name + ".Discard\n")
		case "log":
			sb.WriteString("var _ = " + name + ".Prefix\n")
		}
	}
	return sb.String()
}
