// xform rewrites the current sources of chosen packages so that every source of
// nondeterminism (goroutines, channels, sync, time, context, map order,
// math/rand) goes through the simulator runtime. The output is used through
// `go build -overlay`; nothing in the source tree is touched.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rtName = "zzrt"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Main bool
		Dir  string
	}
}

// replaced objects: import path -> name -> rt name
var repl = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Cond": "Cond", "NewCond": "NewCond", "WaitGroup": "WaitGroup",
		"Once": "Once", "Pool": "Pool", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"sync/atomic": {"Int32": "AInt32", "Int64": "AInt64", "Uint32": "AUint32", "Uint64": "AUint64", "Uintptr": "AUintptr", "Bool": "ABool", "Pointer": "APointer", "Value": "AValue"},
	"time": {"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "TimeSleep", "Timer": "Timer", "NewTimer": "NewTimer",
		"AfterFunc": "AfterFunc", "After": "After", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "Tick"},
	"context": {"WithCancel": "CtxWithCancel", "WithCancelCause": "CtxWithCancelCause", "WithDeadline": "CtxWithDeadline",
		"WithDeadlineCause": "CtxWithDeadlineCause", "WithTimeout": "CtxWithTimeout", "WithTimeoutCause": "CtxWithTimeoutCause",
		"Cause": "CtxCause", "AfterFunc": "CtxAfterFunc"},
	"os":         {"Exit": "OsExit", "LookupEnv": "OsLookupEnv", "Getenv": "OsGetenv", "Environ": "OsEnviron", "ReadFile": "OsReadFile", "Open": "OsOpen", "Stat": "OsStat"},
	"io/ioutil":  {"ReadFile": "OsReadFile"},
	"crypto/tls": {"LoadX509KeyPair": "TlsLoadX509KeyPair"},
	"runtime":    {"Gosched": "Gosched", "NumGoroutine": "NumGoroutine", "SetBlockProfileRate": "SetBlockProfileRate", "SetMutexProfileFraction": "SetMutexProfileFraction"},
	"math/rand": {"Int": "RandInt", "Intn": "RandIntn", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63", "Int63n": "RandInt63n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64", "Float32": "RandFloat32", "Seed": "RandSeed", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"math/rand/v2": {"Int": "RandInt", "IntN": "RandIntn", "Int64": "RandInt63", "Int64N": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64",
		"Float64": "RandFloat64", "Float32": "RandFloat32", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
}

var netRepl = map[string]string{"Dialer": "NetDialer", "Dial": "NetDial", "DialTimeout": "NetDialTimeout"}

func init() {
	for _, op := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
			repl["sync/atomic"][op+t] = op + t
		}
	}
	for _, op := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		repl["sync/atomic"][op+"Pointer"] = op + "Pointer"
	}
}

type site struct {
	ID  int    `json:"id"`
	Pos string `json:"pos"`
	Fn  string `json:"fn"`
}

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	rel   string
	sites *[]site
	uid   int
	fn    string
	light bool // replace primitives only, no scheduling points between statements
	net   bool // net.Dialer and friends are replaced
	swap  map[string]string
	// package variables: function that gives one its initial value again
	resets  map[string]string // variable: function, "" for none
	keep    map[types.Object]bool
	resetTo bytes.Buffer
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "output dir")
	rtPath := flag.String("rt", "github.com/chanjarster/gears/zzsim/rt", "")
	extra := flag.String("extra", "", "comma list of non-main packages (import paths) to transform as well")
	lightMods := flag.String("light", "", "comma list of import paths to transform without scheduling points between statements")
	tags := flag.String("tags", "", "")
	netPkgs := flag.String("net", "", "comma list of import paths whose net.Dialer, net.Dial and net.DialTimeout are the simulator's")
	swapList := flag.String("swap", "", "comma list of OLD=NEW import paths")
	flag.Parse()
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,ImportMap,Module"}
	if *tags != "" {
		args = append(args, "-tags", *tags)
	}
	args = append(args, flag.Args()...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	all := map[string]*pkgInfo{}
	var order []*pkgInfo
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("decode: %v", err)
		}
		q := p
		all[p.ImportPath] = &q
		order = append(order, &q)
	}
	extras := map[string]bool{}
	for _, e := range strings.Split(*extra, ",") {
		if e != "" {
			extras[e] = true
		}
	}
	lights := map[string]bool{}
	for _, e := range strings.Split(*lightMods, ",") {
		if e != "" {
			lights[e] = true
			extras[e] = true
		}
	}
	netOf := map[string]bool{}
	for _, e := range strings.Split(*netPkgs, ",") {
		netOf[e] = e != ""
	}
	swaps := map[string]string{}
	for _, e := range strings.Split(*swapList, ",") {
		if i := strings.Index(e, "="); i > 0 {
			swaps[e[:i]] = e[i+1:]
		}
	}
	overlay := map[string]string{}
	var sites []site
	sites = append(sites, site{0, "harness", ""})
	extraOut := map[string]string{}
	for _, p := range order {
		main := p.Module != nil && p.Module.Main
		if !main && !extras[p.ImportPath] {
			continue
		}
		if strings.Contains(p.ImportPath, "/zzsim/") {
			continue
		}
		fset := token.NewFileSet()
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				fatal("parse: %v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			d := all[path]
			if d == nil || d.Export == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(d.Export)
		})
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "types:", err) }}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			fatal("typecheck %s: %v", p.ImportPath, err)
		}
		// what init functions touch is left as it is
		keep := map[types.Object]bool{}
		for _, af := range files {
			for _, d := range af.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
					ast.Inspect(fd, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok && info.Uses[id] != nil {
							keep[info.Uses[id]] = true
						}
						return true
					})
				}
			}
		}
		resets := map[string]string{}
		for i, af := range files {
			name := p.GoFiles[i]
			rel := strings.TrimPrefix(p.ImportPath, "github.com/chanjarster/gears/") + "/" + name
			rw := &rewriter{fset: fset, info: info, pkg: tp, rel: rel, sites: &sites, light: lights[p.ImportPath], net: netOf[p.ImportPath], swap: swaps, keep: keep}
			if main {
				rw.resets = resets
			}
			src := rw.file(af, *rtPath)
			if main && i == len(files)-1 {
				// in the order of initialisation
				var b strings.Builder
				done := map[string]bool{}
				for _, n := range tp.Scope().Names() {
					if f := resets[n]; strings.HasPrefix(f, "zzzero_") {
						b.WriteString("\t" + f + "()\n")
					}
				}
				for _, in := range info.InitOrder {
					for _, v := range in.Lhs {
						if f := resets[v.Name()]; f != "" && !done[f] {
							done[f] = true
							b.WriteString("\t" + f + "()\n")
						}
					}
				}
				if b.Len() > 0 {
					src = append(src, ("\nfunc init() { " + rtName + ".OnReset(func() {\n" + b.String() + "}) }\n")...)
				}
			}
			dst := filepath.Join(*out, "src", p.ImportPath, name)
			os.MkdirAll(filepath.Dir(dst), 0755)
			if err := os.WriteFile(dst, src, 0644); err != nil {
				fatal("write: %v", err)
			}
			if main {
				overlay[filepath.Join(p.Dir, name)] = dst
			} else {
				extraOut[filepath.Join(p.Dir, name)] = dst
			}
		}
	}
	js, _ := json.Marshal(map[string]interface{}{"overlay": overlay, "extra": extraOut, "sites": sites})
	if err := os.WriteFile(filepath.Join(*out, "xform.json"), js, 0644); err != nil {
		fatal("%v", err)
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "xform: "+f+"\n", a...)
	os.Exit(3)
}

func (r *rewriter) file(f *ast.File, rtPath string) []byte {
	f.Comments = nil
	f.Doc = nil
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
			r.fn = x.Name.Name
			if x.Recv != nil {
				r.fieldList(x.Recv)
				if len(x.Recv.List) > 0 {
					r.fn = types.ExprString(x.Recv.List[0].Type) + "." + r.fn
				}
			}
			r.funcType(x.Type)
			if x.Body != nil {
				x.Body.List = r.stmts(x.Body.List)
			}
		case *ast.GenDecl:
			x.Doc = nil
			r.fn = ""
			if x.Tok != token.IMPORT {
				r.genDecl(x)
			}
		}
	}
	// imports still in use
	used := map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				used[pn] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			is.Doc, is.Comment = nil, nil
			if np := r.swap[strings.Trim(is.Path.Value, "\"")]; np != "" {
				if is.Name == nil {
					if obj := r.info.Implicits[is]; obj == nil || !used[obj] {
						continue
					}
					is.Name = ast.NewIdent(r.info.Implicits[is].Name())
					r.info.Defs[is.Name] = r.info.Implicits[is]
				}
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(np)}
			}
			var obj types.Object
			if is.Name != nil {
				if is.Name.Name == "_" || is.Name.Name == "." {
					specs = append(specs, is)
					continue
				}
				obj = r.info.Defs[is.Name]
			} else {
				obj = r.info.Implicits[is]
			}
			if obj != nil && used[obj] {
				specs = append(specs, is)
			}
		}
		if len(specs) > 0 {
			g.Specs = specs
			g.Lparen = 1
			g.Rparen = 1
			decls = append(decls, g)
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent(rtName), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(rtPath)}}}}
	f.Decls = append([]ast.Decl{imp}, decls...)
	var buf bytes.Buffer
	buf.WriteString("//go:build go1.21\n\n")
	if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&buf, token.NewFileSet(), f); err != nil {
		fatal("print %s: %v", r.rel, err)
	}
	buf.WriteString("\n\nvar _ = " + rtName + ".Y\n")
	if r.resets != nil {
		r.resetFuncs(f, &buf)
	}
	return buf.Bytes()
}

// resetFuncs writes functions that give the package variables of the file their first values.
func (r *rewriter) resetFuncs(f *ast.File, buf *bytes.Buffer) {
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			skip := false
			for _, n := range vs.Names {
				if r.keep[r.info.Defs[n]] || r.info.Defs[n] == nil && n.Name != "_" {
					skip = true
				}
			}
			for _, v := range vs.Values {
				ast.Inspect(v, func(n ast.Node) bool {
					if s, ok := n.(*ast.SelectorExpr); ok {
						id, _ := s.X.(*ast.Ident)
						if strings.HasPrefix(s.Sel.Name, "Register") || id != nil && (id.Name == "flag" || id.Name == "expvar") {
							skip = true
						}
					}
					return !skip
				})
			}
			if skip {
				continue
			}
			pr := func(e ast.Expr) string {
				var b bytes.Buffer
				if err := (&printer.Config{Mode: printer.RawFormat}).Fprint(&b, token.NewFileSet(), e); err != nil {
					fatal("print %s: %v", r.rel, err)
				}
				return b.String()
			}
			switch {
			case len(vs.Values) == 0:
				for _, n := range vs.Names {
					if n.Name != "_" {
						r.resets[n.Name] = "zzzero_" + n.Name
						fmt.Fprintf(buf, "\nfunc zzzero_%s() { %s.Zero(&%s) }\n", n.Name, rtName, n.Name)
					}
				}
			case len(vs.Values) == len(vs.Names):
				for i, n := range vs.Names {
					if n.Name != "_" {
						r.resets[n.Name] = "zzinit_" + n.Name
						fmt.Fprintf(buf, "\nfunc zzinit_%s() {\n%s = %s\n}\n", n.Name, n.Name, pr(vs.Values[i]))
					}
				}
			default:
				var l []string
				first := ""
				for _, n := range vs.Names {
					l = append(l, n.Name)
					if n.Name != "_" && first == "" {
						first = n.Name
					}
				}
				if first == "" {
					continue
				}
				for _, n := range l {
					if n != "_" {
						r.resets[n] = "zzinit_" + first
					}
				}
				fmt.Fprintf(buf, "\nfunc zzinit_%s() {\n%s = %s\n}\n", first, strings.Join(l, ", "), pr(vs.Values[0]))
			}
		}
	}
}

func rt(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent(rtName), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func lit(i int) ast.Expr {
	if i < 0 {
		return &ast.UnaryExpr{Op: token.SUB, X: lit(-i)}
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)}
}

func (r *rewriter) site(p token.Pos) int {
	pos := r.fset.Position(p)
	id := len(*r.sites)
	*r.sites = append(*r.sites, site{id, fmt.Sprintf("%s:%d", r.rel, pos.Line), r.fn})
	return id
}

func (r *rewriter) tmp(p string) *ast.Ident {
	r.uid++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, r.uid))
}

func (r *rewriter) yield(p token.Pos) ast.Stmt {
	if r.light {
		return &ast.EmptyStmt{Implicit: true}
	}
	return &ast.ExprStmt{X: call(rt("Y"), lit(r.site(p)))}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func coreOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func (r *rewriter) isChan(e ast.Expr) bool { _, ok := coreOf(r.typeOf(e)).(*types.Chan); return ok }
func (r *rewriter) isMap(e ast.Expr) bool  { _, ok := coreOf(r.typeOf(e)).(*types.Map); return ok }

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func arrow(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

// ---- expressions ---------------------------------------------------------------

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

func (r *rewriter) fieldList(f *ast.FieldList) {
	if f == nil {
		return
	}
	for _, x := range f.List {
		x.Doc, x.Comment = nil, nil
		old := x.Type
		x.Type = r.expr(x.Type)
		_ = old
	}
}

func (r *rewriter) funcType(t *ast.FuncType) {
	if t.TypeParams != nil {
		r.fieldList(t.TypeParams)
	}
	r.fieldList(t.Params)
	r.fieldList(t.Results)
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.Ident, *ast.BasicLit, *ast.BadExpr:
		return e
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				if n, ok := netRepl[x.Sel.Name]; ok && r.net && pn.Imported().Path() == "net" {
					return rt(n)
				}
				if n, ok := repl[pn.Imported().Path()][x.Sel.Name]; ok {
					return rt(n)
				}
				return x
			}
		}
		x.X = r.expr(x.X)
		return x
	case *ast.CallExpr:
		if len(x.Args) == 1 && r.isChan(x.Args[0]) {
			if r.isBuiltin(x.Fun, "close") {
				return call(rt("Close"), r.expr(x.Args[0]))
			}
			if r.isBuiltin(x.Fun, "len") {
				return call(rt("ChanLen"), r.expr(x.Args[0]))
			}
		}
		x.Fun = r.expr(x.Fun)
		r.exprs(x.Args)
		return x
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return call(rt("Recv"), r.expr(x.X))
		}
		x.X = r.expr(x.X)
		return x
	case *ast.BinaryExpr:
		x.X = r.expr(x.X)
		x.Y = r.expr(x.Y)
		return x
	case *ast.ParenExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.StarExpr:
		x.X = r.expr(x.X)
		return x
	case *ast.IndexExpr:
		x.X = r.expr(x.X)
		x.Index = r.expr(x.Index)
		return x
	case *ast.IndexListExpr:
		x.X = r.expr(x.X)
		r.exprs(x.Indices)
		return x
	case *ast.SliceExpr:
		x.X = r.expr(x.X)
		x.Low = r.expr(x.Low)
		x.High = r.expr(x.High)
		x.Max = r.expr(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = r.expr(x.X)
		x.Type = r.expr(x.Type)
		return x
	case *ast.KeyValueExpr:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.CompositeLit:
		x.Type = r.expr(x.Type)
		r.exprs(x.Elts)
		return x
	case *ast.FuncLit:
		r.funcType(x.Type)
		x.Body.List = r.stmts(x.Body.List)
		return x
	case *ast.Ellipsis:
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.ArrayType:
		x.Len = r.expr(x.Len)
		x.Elt = r.expr(x.Elt)
		return x
	case *ast.MapType:
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
		return x
	case *ast.ChanType:
		x.Value = r.expr(x.Value)
		return x
	case *ast.FuncType:
		r.funcType(x)
		return x
	case *ast.StructType:
		r.fieldList(x.Fields)
		return x
	case *ast.InterfaceType:
		r.fieldList(x.Methods)
		return x
	}
	fatal("%s: unhandled expression %T", r.fset.Position(e.Pos()), e)
	return nil
}

// ---- statements ------------------------------------------------------------------

func (r *rewriter) genDecl(d *ast.GenDecl) {
	d.Doc = nil
	for _, sp := range d.Specs {
		switch x := sp.(type) {
		case *ast.ValueSpec:
			x.Doc, x.Comment = nil, nil
			x.Type = r.expr(x.Type)
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := arrow(x.Values[0]); ok {
					x.Values[0] = call(rt("Recv2"), r.expr(u.X))
					continue
				}
			}
			r.exprs(x.Values)
		case *ast.TypeSpec:
			x.Doc, x.Comment = nil, nil
			if x.TypeParams != nil {
				r.fieldList(x.TypeParams)
			}
			x.Type = r.expr(x.Type)
		}
	}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, st := range l {
		out = append(out, r.stmt(st)...)
	}
	return out
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

// simple rewrites a simple statement in place (init/post positions).
func (r *rewriter) simple(st ast.Stmt) ast.Stmt {
	switch x := st.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		x.X = r.expr(x.X)
		return x
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(call(rt("SendTo"), r.expr(x.Chan)), r.expr(x.Value))}
	case *ast.IncDecStmt:
		x.X = r.expr(x.X)
		return x
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			if u, ok := arrow(x.Rhs[0]); ok {
				r.exprs(x.Lhs)
				x.Rhs[0] = call(rt("Recv2"), r.expr(u.X))
				return x
			}
		}
		r.exprs(x.Lhs)
		r.exprs(x.Rhs)
		return x
	case *ast.EmptyStmt:
		return x
	}
	fatal("%s: unhandled simple statement %T", r.fset.Position(st.Pos()), st)
	return nil
}

func hasCall(e ast.Node) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			f = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				f = true
			}
		}
		return !f
	})
	return f
}

func hasShared(e ast.Node) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
			f = true
		case *ast.FuncLit:
			return false
		}
		return !f
	})
	return f
}

// shared: an assignable location other goroutines may see.
func (r *rewriter) shared(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.SelectorExpr, *ast.StarExpr, *ast.IndexExpr:
		return true
	case *ast.Ident:
		v, ok := r.info.Uses[x].(*types.Var)
		return ok && v.Parent() == r.pkg.Scope()
	}
	return false
}

func clone(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.Ident:
		return x // same ident: Uses lookups keep working
	case *ast.BasicLit:
		c := *x
		return &c
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(x.X)}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(x.X), Sel: x.Sel}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(x.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(x.X), Index: clone(x.Index)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: clone(x.X), Op: x.Op, Y: clone(x.Y)}
	case *ast.UnaryExpr:
		return &ast.UnaryExpr{Op: x.Op, X: clone(x.X)}
	}
	return nil
}

func (r *rewriter) stmt(st ast.Stmt) []ast.Stmt {
	pos := st.Pos()
	switch x := st.(type) {
	case *ast.EmptyStmt, *ast.BranchStmt:
		return []ast.Stmt{st}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok {
			r.genDecl(g)
			if g.Tok == token.VAR {
				return []ast.Stmt{r.yield(pos), x}
			}
		}
		return []ast.Stmt{x}
	case *ast.BlockStmt:
		r.block(x)
		return []ast.Stmt{x}
	case *ast.ExprStmt:
		return []ast.Stmt{r.yield(pos), r.simple(x)}
	case *ast.SendStmt:
		return []ast.Stmt{r.yield(pos), r.simple(x)}
	case *ast.IncDecStmt:
		if !r.light && r.shared(x.X) && !hasCall(x.X) && clone(x.X) != nil {
			y1 := r.yield(pos)
			t := r.tmp("t")
			lhs := r.expr(x.X)
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return []ast.Stmt{y1, &ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{clone(lhs)}},
				r.yield(pos),
				&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: lit(1)}}},
			}}}
		}
		return []ast.Stmt{r.yield(pos), r.simple(x)}
	case *ast.AssignStmt:
		if !r.light && len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE && r.shared(x.Lhs[0]) && !hasCall(x.Lhs[0]) && clone(x.Lhs[0]) != nil {
			lt, rt2 := r.typeOf(x.Lhs[0]), r.typeOf(x.Rhs[0])
			if x.Tok == token.ASSIGN {
				tv := r.info.Types[x.Rhs[0]]
				if hasShared(x.Rhs[0]) && lt != nil && rt2 != nil && types.Identical(lt, rt2) && tv.Value == nil {
					y1 := r.yield(pos)
					t := r.tmp("t")
					lhs, rhs := r.expr(x.Lhs[0]), r.expr(x.Rhs[0])
					return []ast.Stmt{y1, &ast.BlockStmt{List: []ast.Stmt{
						&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
						r.yield(pos),
						&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
					}}}
				}
			} else if op := binOp(x.Tok); op != token.ILLEGAL && !hasCall(x.Rhs[0]) {
				y1 := r.yield(pos)
				t := r.tmp("t")
				lhs, rhs := r.expr(x.Lhs[0]), r.expr(x.Rhs[0])
				return []ast.Stmt{y1, &ast.BlockStmt{List: []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{clone(lhs)}},
					r.yield(pos),
					&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: &ast.ParenExpr{X: rhs}}}},
				}}}
			}
		}
		return []ast.Stmt{r.yield(pos), r.simple(x)}
	case *ast.GoStmt:
		y := r.site(pos)
		c := x.Call
		if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
			return []ast.Stmt{&ast.ExprStmt{X: call(rt("Go"), lit(y), r.expr(fl))}}
		}
		var pre []ast.Stmt
		var nc *ast.CallExpr
		if r.builtinCall(c) {
			nc = r.expr(c).(*ast.CallExpr)
		} else {
			fn := r.expr(c.Fun)
			f := r.tmp("f")
			var tv types.TypeAndValue
			tv = r.info.Types[c.Fun]
			_ = tv
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{fn}})
			nc = &ast.CallExpr{Fun: f, Ellipsis: c.Ellipsis}
			sig, _ := coreOf(r.typeOf(c.Fun)).(*types.Signature)
			for i, a := range c.Args {
				at := r.info.Types[a]
				na := r.expr(a)
				if at.Value != nil || at.IsNil() {
					nc.Args = append(nc.Args, na)
					continue
				}
				_ = sig
				_ = i
				v := r.tmp("a")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{na}})
				nc.Args = append(nc.Args, v)
			}
		}
		g := &ast.ExprStmt{X: call(rt("Go"), lit(y), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})}
		return []ast.Stmt{&ast.BlockStmt{List: append(pre, g)}}
	case *ast.DeferStmt:
		y := r.yield(pos)
		c, ok := r.expr(x.Call).(*ast.CallExpr)
		if !ok {
			fatal("defer")
		}
		x.Call = c
		return []ast.Stmt{y, x}
	case *ast.ReturnStmt:
		y := r.yield(pos)
		need := false
		for _, e := range x.Results {
			if hasShared(e) || hasCall(e) {
				need = true
			}
		}
		r.exprs(x.Results)
		if need {
			return []ast.Stmt{y, x}
		}
		return []ast.Stmt{x}
	case *ast.IfStmt:
		y := r.yield(pos)
		r.ifStmt(x)
		return []ast.Stmt{y, x}
	case *ast.SwitchStmt:
		y := r.yield(pos)
		x.Init = r.simple(x.Init)
		x.Tag = r.expr(x.Tag)
		r.clauses(x.Body)
		return []ast.Stmt{y, x}
	case *ast.TypeSwitchStmt:
		y := r.yield(pos)
		x.Init = r.simple(x.Init)
		x.Assign = r.simple(x.Assign)
		r.clauses(x.Body)
		return []ast.Stmt{y, x}
	case *ast.ForStmt:
		y := r.yield(pos)
		x.Init = r.simple(x.Init)
		x.Cond = r.expr(x.Cond)
		x.Post = r.simple(x.Post)
		r.block(x.Body)
		x.Body.List = append([]ast.Stmt{r.yield(pos)}, x.Body.List...)
		return []ast.Stmt{y, x}
	case *ast.RangeStmt:
		y := r.yield(pos)
		return []ast.Stmt{y, r.rangeStmt(x)}
	case *ast.SelectStmt:
		return r.selectStmt(x)
	case *ast.LabeledStmt:
		inner := r.stmt(x.Stmt)
		// keep the label on the statement itself (the last one)
		n := len(inner)
		x.Stmt = inner[n-1]
		return append(inner[:n-1:n-1], x)
	}
	fatal("%s: unhandled statement %T", r.fset.Position(pos), st)
	return nil
}

func (r *rewriter) builtinCall(c *ast.CallExpr) bool {
	id, ok := unparen(c.Fun).(*ast.Ident)
	if !ok {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func binOp(t token.Token) token.Token {
	switch t {
	case token.ADD_ASSIGN:
		return token.ADD
	case token.SUB_ASSIGN:
		return token.SUB
	case token.MUL_ASSIGN:
		return token.MUL
	case token.QUO_ASSIGN:
		return token.QUO
	case token.REM_ASSIGN:
		return token.REM
	case token.OR_ASSIGN:
		return token.OR
	case token.AND_ASSIGN:
		return token.AND
	case token.XOR_ASSIGN:
		return token.XOR
	}
	return token.ILLEGAL
}

func (r *rewriter) ifStmt(x *ast.IfStmt) {
	x.Init = r.simple(x.Init)
	x.Cond = r.expr(x.Cond)
	r.block(x.Body)
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		r.block(e)
	case *ast.IfStmt:
		r.ifStmt(e)
	}
}

func (r *rewriter) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		r.exprs(cc.List)
		cc.Body = r.stmts(cc.Body)
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	pos := x.Pos()
	addr := func(e ast.Expr) ast.Expr {
		if isBlank(e) {
			return ast.NewIdent("nil")
		}
		return &ast.UnaryExpr{Op: token.AND, X: e}
	}
	switch {
	case r.isMap(x.X):
		st := r.site(pos)
		m := r.expr(x.X)
		it := r.tmp("it")
		f := &ast.ForStmt{Body: x.Body}
		name := "MapIter"
		lhs := []ast.Expr{it}
		if x.Tok == token.DEFINE {
			k, v := !isBlank(x.Key), !isBlank(x.Value)
			switch {
			case k && v:
				name = "MapIter2"
				lhs = append(lhs, x.Key, x.Value)
			case k:
				name = "MapIter1"
				lhs = append(lhs, x.Key)
			case v:
				name = "MapIterV"
				lhs = append(lhs, x.Value)
			}
		} else {
			x.Key, x.Value = r.expr(x.Key), r.expr(x.Value)
		}
		f.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt(name), lit(st), m)}}
		f.Cond = call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, addr(x.Key), addr(x.Value))
		r.block(f.Body)
		return f
	case r.isChan(x.X):
		ch := r.expr(x.X)
		it := r.tmp("it")
		f := &ast.ForStmt{Body: x.Body}
		name := "ChanIter"
		lhs := []ast.Expr{it}
		if x.Tok == token.DEFINE && !isBlank(x.Key) {
			name = "ChanIter1"
			lhs = append(lhs, x.Key)
		} else {
			x.Key = r.expr(x.Key)
		}
		f.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt(name), ch)}}
		f.Cond = call(&ast.SelectorExpr{X: it, Sel: ast.NewIdent("Next")}, addr(x.Key))
		r.block(f.Body)
		return f
	}
	if x.Tok != token.DEFINE {
		x.Key = r.expr(x.Key)
		x.Value = r.expr(x.Value)
	}
	x.X = r.expr(x.X)
	r.block(x.Body)
	return x
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	pos := x.Pos()
	st := r.site(pos)
	if len(x.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call(rt("BlockForever"))}, &ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"sim: unreachable"`})}}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var lhs, rhs []ast.Expr
	hasDef := "false"
	args := []ast.Expr{}
	idx := 0
	def := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			def = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.stmts(cc.Body)})
			continue
		}
		v := r.tmp("c")
		var pre []ast.Stmt
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(call(rt("SendCase"), r.expr(s.Chan)), r.expr(s.Value)))
		case *ast.ExprStmt:
			u, ok := arrow(s.X)
			if !ok {
				fatal("%s: select case", r.fset.Position(cc.Pos()))
			}
			rhs = append(rhs, call(rt("RecvCase"), r.expr(u.X)))
		case *ast.AssignStmt:
			u, ok := arrow(s.Rhs[0])
			if !ok {
				fatal("%s: select case", r.fset.Position(cc.Pos()))
			}
			rhs = append(rhs, call(rt("RecvCase"), r.expr(u.X)))
			m := "V"
			if len(s.Lhs) == 2 {
				m = "V2"
			}
			if s.Tok != token.DEFINE {
				r.exprs(s.Lhs)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{call(&ast.SelectorExpr{X: v, Sel: ast.NewIdent(m)})}})
		}
		lhs = append(lhs, v)
		args = append(args, v)
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{lit(idx)}, Body: append(pre, r.stmts(cc.Body)...)})
		idx++
	}
	if !def {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"sim: unreachable"`})}}})
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = call(rt("Select"), append([]ast.Expr{lit(st), ast.NewIdent(hasDef)}, args...)...)
	return []ast.Stmt{&ast.ExprStmt{X: call(rt("Y"), lit(st))}, sw}
}

var _ = sort.Strings
