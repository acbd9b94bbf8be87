// Command instr writes an instrumented copy of every package of the system
// under test and an overlay file for the go command, so that the simulator
// owns every source of nondeterminism the code meets:
//
//   - a scheduling / crash point before every statement,
//   - sync, time, os, ioutil, flock, context deadlines, http transports,
//     leveldb files, go statements, channel operations and map iteration
//     go through verif.local/sim/simrt.
//
// It edits text at byte offsets found by parsing and type checking the current
// tree, so it does not depend on how the code is written, and it never touches
// the tree itself.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const rt = "zz_simrt"
const rtPath = "verif.local/sim/simrt"

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct{ Path string }
}

// replacement of package level names, by import path.
var repl = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Cond": "Cond", "NewCond": "NewCond", "Map": "SyncMap", "Pool": "SyncPool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick", "Timer": "Timer", "Ticker": "Ticker"},
	"os": {"Stat": "Stat", "Lstat": "Stat", "Create": "Create", "Open": "Open", "OpenFile": "OpenFile", "Remove": "Remove", "RemoveAll": "RemoveAll", "Rename": "Rename",
		"Mkdir": "Mkdir", "MkdirAll": "MkdirAll", "ReadFile": "ReadFile", "WriteFile": "WriteFile", "Chmod": "Chmod", "Truncate": "Truncate", "File": "File", "Link": "Link",
		"CreateTemp": "TempFile", "MkdirTemp": "TempDir", "ReadDir": "ReadDirEntries", "Getpid": "Getpid", "Chown": "Chown", "Chtimes": "Chtimes", "SameFile": "SameFile"},
	"path/filepath":                       {"Glob": "Glob", "Walk": "Walk"},
	"io/ioutil":                           {"ReadFile": "ReadFile", "WriteFile": "WriteFile", "TempDir": "TempDir", "TempFile": "TempFile", "ReadDir": "ReadDir"},
	"github.com/gofrs/flock":              {"New": "NewFlock", "NewFlock": "NewFlock", "Flock": "Flock"},
	"context":                             {"WithTimeout": "WithTimeout", "WithDeadline": "WithDeadline", "WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "Cause": "Cause", "AfterFunc": "CtxAfterFunc"},
	"net/http":                            {"Transport": "HTTPTransport"},
	"runtime":                             {"SetFinalizer": "SetFinalizer", "Gosched": "Gosched"},
	"github.com/syndtr/goleveldb/leveldb": {"OpenFile": "LevelOpenFile", "RecoverFile": "LevelOpenFile"},
	"github.com/iden3/go-iden3-crypto/poseidon":           {"PoseidonHash": "PoseidonHash"},
	"github.com/iden3/go-circom-prover-verifier/parsers":  {"ParsePkBin": "ParsePkBin", "ParsePkGoBin": "ParsePkGoBin", "ParsePk": "ParsePk"},
	"github.com/iden3/go-circom-prover-verifier/prover":   {"GenerateProof": "GenerateProof"},
	"github.com/iden3/go-circom-prover-verifier/verifier": {"Verify": "Verify"},
	"github.com/iden3/go-circom-witnesscalc":              {"CalculateWitnessBinWASM": "CalculateWitnessBinWASM"},
	"math/rand":                                           {"Int": "RandInt", "Intn": "RandIntn", "Int63": "RandInt63", "Int63n": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Int31": "RandInt31", "Int31n": "RandInt31n", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Read": "RandRead", "Seed": "RandSeed"},
}

// what keeps an import used once its selectors went elsewhere.
var keep = map[string]string{
	"sync": "var _ %s.Locker", "time": "var _ %s.Duration", "os": "var _ %s.FileMode", "io/ioutil": "var _ = %s.Discard",
	"github.com/gofrs/flock": "var _ *%s.Flock", "context": "var _ %s.Context", "net/http": "var _ %s.Handler", "runtime": "var _ %s.Error",
	"github.com/syndtr/goleveldb/leveldb": "var _ *%s.DB", "github.com/iden3/go-iden3-crypto/poseidon": "var _ = %s.PoseidonHash",
	"github.com/iden3/go-circom-prover-verifier/parsers": "var _ = %s.ParseVk", "github.com/iden3/go-circom-witnesscalc": "var _ = %s.CalculateWitnessBinWASM",
	"math/rand": "var _ %s.Source", "path/filepath": "var _ = %s.Base",
	"github.com/iden3/go-circom-prover-verifier/prover": "var _ = %s.GenerateProof", "github.com/iden3/go-circom-prover-verifier/verifier": "var _ = %s.Verify",
}

type edit struct {
	off, del int
	ins      string
	seq      int
	lazy     func() string // instead of ins, once every edit is known
}

type editor struct {
	fset  *token.FileSet
	info  *types.Info
	edits []edit
	site  *int
	sites *[]string
	file  string
	src   []byte
	used  map[string]string // import path -> local name
	need  bool
	glob  *globals
	pkg   string
	fileN int
	gtext []string // package variables and init functions to announce
}

func (e *editor) off(p token.Pos) int { return e.fset.Position(p).Offset }
func (e *editor) insert(p token.Pos, s string) {
	e.edits = append(e.edits, edit{off: e.off(p), ins: s, seq: len(e.edits)})
	e.need = true
}
func (e *editor) replace(from, to token.Pos, s string) {
	a, b := e.off(from), e.off(to)
	e.edits = append(e.edits, edit{off: a, del: b - a, ins: s, seq: len(e.edits)})
	e.need = true
}
func (e *editor) replaceLazy(from, to token.Pos, f func() string) {
	e.replace(from, to, "")
	e.edits[len(e.edits)-1].lazy = f
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the instrumented files and overlay.json")
	mod := flag.String("mod", "github.com/iden3/go-iden3-core", "")
	gobin := flag.String("go", "go", "")
	skip := flag.String("skip", "eth/contracts,testgen", "comma separated package suffixes left as they are")
	flag.Parse()
	if err := run(*repo, *out, *mod, *gobin, strings.Split(*skip, ",")); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func run(repo, out, mod, gobin string, skip []string) error {
	tmpmod := filepath.Join(out, "list.mod")
	for src, dst := range map[string]string{"go.mod": tmpmod, "go.sum": filepath.Join(out, "list.sum")} {
		b, err := os.ReadFile(filepath.Join(repo, src))
		if err != nil {
			return err
		}
		if err := os.WriteFile(dst, b, 0644); err != nil {
			return err
		}
	}
	cmd := exec.Command(gobin, "list", "-modfile="+tmpmod, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	exports := map[string]string{}
	curveDir := ""
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == "github.com/iden3/go-iden3-crypto/babyjub" {
			curveDir = p.Dir
		}
		if p.Module != nil && p.Module.Path == mod {
			pkgs = append(pkgs, p)
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].ImportPath < pkgs[j].ImportPath })
	overlay := map[string]string{}
	site := 0
	sites := []string{""}
	for _, p := range pkgs {
		skipped := false
		for _, s := range skip {
			if s != "" && strings.HasSuffix(p.ImportPath, s) {
				skipped = true
			}
		}
		if skipped {
			continue
		}
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			f, ok := exports[path]
			if !ok || f == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(f)
		})
		var files []*ast.File
		var names []string
		srcs := map[string][]byte{}
		sort.Strings(p.GoFiles)
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(full)
			if err != nil {
				return err
			}
			af, err := parser.ParseFile(fset, full, src, parser.ParseComments)
			if err != nil {
				return err
			}
			files, names = append(files, af), append(names, full)
			srcs[full] = src
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(p.ImportPath, fset, files, info)
		glob := packageState(files, info)
		for i, af := range files {
			rel, _ := filepath.Rel(repo, names[i])
			e := &editor{fset: fset, info: info, site: &site, sites: &sites, file: rel, src: srcs[names[i]], used: map[string]string{}, glob: glob}
			e.pkg, e.fileN = p.ImportPath, i
			res := e.instrument(af, srcs[names[i]])
			if res == nil {
				continue
			}
			dst := filepath.Join(out, "src", strings.ReplaceAll(rel, "/", "__"))
			if err := os.MkdirAll(filepath.Dir(dst), 0755); err != nil {
				return err
			}
			if err := os.WriteFile(dst, res, 0644); err != nil {
				return err
			}
			overlay[names[i]] = dst
		}
	}
	if dst, from := memoMul(out, curveDir); dst != "" {
		overlay[from] = dst
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")), 0644)
}

func (e *editor) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		*e.site++
		pos := e.fset.Position(s.Pos())
		*e.sites = append(*e.sites, fmt.Sprintf("%s:%d", e.file, pos.Line))
		e.insert(s.Pos(), fmt.Sprintf("%s.Y(%d); ", rt, *e.site))
		e.mapTouch(s)
	}
}

// mapTouch announces the map accesses of a statement (outside its nested
// blocks and function literals), so that two tasks inside accesses of one map
// at the same time are noticed, as the Go runtime does.
func (e *editor) mapTouch(s ast.Stmt) {
	seen := map[string]bool{}
	write := map[ast.Expr]bool{}
	emit := func(m ast.Expr, w bool) {
		tv, ok := e.info.Types[m]
		if !ok || tv.Type == nil {
			return
		}
		if _, ok := tv.Type.Underlying().(*types.Map); !ok {
			return
		}
		x := m
		for {
			switch y := x.(type) {
			case *ast.SelectorExpr:
				x = y.X
				continue
			case *ast.ParenExpr:
				x = y.X
				continue
			case *ast.StarExpr:
				x = y.X
				continue
			}
			break
		}
		id, ok := x.(*ast.Ident)
		if !ok {
			return
		}
		o, ok := e.info.Uses[id].(*types.Var)
		if !ok || o.Parent() == nil {
			return
		}
		if o.Parent() != o.Pkg().Scope() && o.Pos() >= s.Pos() {
			return
		}
		t := e.src[e.off(m.Pos()):e.off(m.End())]
		k := fmt.Sprint(w, string(t))
		if seen[k] {
			return
		}
		seen[k] = true
		e.insert(s.Pos(), fmt.Sprintf("%s.MapT(func() interface{} { return %s }, %v); ", rt, t, w))
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause, *ast.GoStmt, *ast.DeferStmt, *ast.LabeledStmt:
			return false
		case *ast.ForStmt:
			return false
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if ix, ok := l.(*ast.IndexExpr); ok {
					write[ix] = true
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := n.X.(*ast.IndexExpr); ok {
				write[ix] = true
			}
		case *ast.IndexExpr:
			emit(n.X, write[n])
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "delete" && len(n.Args) == 2 {
				emit(n.Args[0], true)
			}
		}
		return true
	})
}

func (e *editor) instrument(f *ast.File, src []byte) []byte {
	// imports by local name
	imports := map[string]string{}
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		name := path[strings.LastIndex(path, "/")+1:]
		switch path {
		case "github.com/iden3/go-circom-witnesscalc":
			name = "witnesscalc"
		}
		if im.Name != nil {
			name = im.Name.Name
		}
		imports[name] = path
	}
	pkgOf := func(x ast.Expr) (string, string) {
		id, ok := x.(*ast.Ident)
		if !ok {
			return "", ""
		}
		if o, ok := e.info.Uses[id]; ok {
			pn, ok := o.(*types.PkgName)
			if !ok {
				return "", ""
			}
			return pn.Imported().Path(), id.Name
		}
		if id.Obj != nil {
			return "", ""
		}
		return imports[id.Name], id.Name
	}
	inSelect := map[ast.Node]bool{}
	selN := 0
	var render func(from, to int) string
	rendered := func(n ast.Node) string { return render(e.off(n.Pos()), e.off(n.End())) }
	recv2 := map[ast.Expr]bool{}
	mapN := 0
	isMap := func(x ast.Expr) bool {
		tv, ok := e.info.Types[x]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	isChan := func(x ast.Expr) bool {
		tv, ok := e.info.Types[x]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	text := func(n ast.Node) string { return string(src[e.off(n.Pos()):e.off(n.End())]) }

	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			if n != nil {
				e.stmts(n.List)
			}
		case *ast.CaseClause:
			e.stmts(n.Body)
		case *ast.CommClause:
			e.stmts(n.Body)
		case *ast.SelectorExpr:
			path, local := pkgOf(n.X)
			if path == "" {
				return true
			}
			if to, ok := repl[path][n.Sel.Name]; ok {
				e.replace(n.Pos(), n.End(), rt+"."+to)
				e.used[path] = local
				return false
			}
		case *ast.GoStmt:
			// go f(a, b) -> zz_simrt.GoCall(f, a, b)
			e.replace(n.Pos(), n.Call.Fun.Pos(), rt+".GoCall(")
			if len(n.Call.Args) > 0 {
				e.replace(n.Call.Lparen, n.Call.Lparen+1, ", ")
			} else {
				e.replace(n.Call.Lparen, n.Call.Lparen+1, "")
			}
		case *ast.SelectStmt:
			// select { case v := <-c: ... } ->
			// switch zz1_0 := rt.R(c); rt.Sel(false, zz1_0) { case 0: v := zz1_0.V; ... }
			selN++
			base := fmt.Sprintf("zz_sel%d_", selN)
			hasDefault := false
			var names []string
			var makes []func() string
			for _, cl := range n.Body.List {
				cc := cl.(*ast.CommClause)
				if cc.Comm == nil {
					hasDefault = true
					continue
				}
				i := len(names)
				name := fmt.Sprintf("%s%d", base, i)
				names = append(names, name)
				bind := func() string { return "" }
				op := func(x ast.Expr) *ast.UnaryExpr {
					for {
						p, ok := x.(*ast.ParenExpr)
						if !ok {
							break
						}
						x = p.X
					}
					u := x.(*ast.UnaryExpr)
					inSelect[u] = true
					return u
				}
				switch c := cc.Comm.(type) {
				case *ast.SendStmt:
					inSelect[c] = true
					makes = append(makes, func() string {
						return fmt.Sprintf("%s.S(%s).With(%s)", rt, rendered(c.Chan), rendered(c.Value))
					})
				case *ast.ExprStmt:
					u := op(c.X)
					makes = append(makes, func() string { return fmt.Sprintf("%s.R(%s)", rt, rendered(u.X)) })
				case *ast.AssignStmt:
					u := op(c.Rhs[0])
					makes = append(makes, func() string { return fmt.Sprintf("%s.R(%s)", rt, rendered(u.X)) })
					bind = func() string {
						if len(c.Lhs) == 1 {
							return fmt.Sprintf(" %s %s %s.V;", rendered(c.Lhs[0]), c.Tok, name)
						}
						return fmt.Sprintf(" %s, %s %s %s.V, %s.OK;", rendered(c.Lhs[0]), rendered(c.Lhs[1]), c.Tok, name, name)
					}
				}
				e.replaceLazy(cc.Pos(), cc.Colon+1, func() string { return fmt.Sprintf("case %d:%s", i, bind()) })
			}
			e.replaceLazy(n.Select, n.Body.Lbrace, func() string {
				var b strings.Builder
				b.WriteString("switch ")
				args := fmt.Sprint(hasDefault)
				for i, nm := range names {
					if i > 0 {
						b.WriteString(", ")
					}
					b.WriteString(nm)
					args += ", " + nm
				}
				if len(names) > 0 {
					b.WriteString(" := ")
					for i, mk := range makes {
						if i > 0 {
							b.WriteString(", ")
						}
						b.WriteString(mk())
					}
					b.WriteString("; ")
				}
				fmt.Fprintf(&b, "%s.Sel(%s) ", rt, args)
				return b.String()
			})
			if !hasDefault {
				e.insert(n.Body.Rbrace, "default: panic("+rt+".NoCase())\n")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := e.info.Uses[id].(*types.Builtin); ok {
					e.replace(id.Pos(), id.End(), rt+".CloseChan")
				}
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := n.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					recv2[u] = true
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				fn := ".Recv("
				if recv2[n] {
					fn = ".Recv2("
				}
				e.replace(n.Pos(), n.X.Pos(), rt+fn)
				e.insert(n.End(), ")")
			}
		case *ast.SendStmt:
			if !inSelect[n] {
				e.insert(n.Chan.Pos(), rt+".S(")
				e.replace(n.Arrow, n.Arrow+2, ").Send(")
				e.insert(n.End(), ")")
			}
		case *ast.RangeStmt:
			switch {
			case isMap(n.X) || isChan(n.X):
				mapN++
				k, v := "_", "_"
				if n.Key != nil {
					k = text(n.Key)
				}
				if n.Value != nil {
					v = text(n.Value)
				}
				op := "="
				if n.Tok == token.DEFINE {
					op = ":="
				}
				it := fmt.Sprintf("zz_it%d", mapN)
				if isMap(n.X) {
					e.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s := %s.MapRange(", it, rt))
					e.insert(n.X.End(), fmt.Sprintf("); %s.Next(); ", it))
					if k != "_" || v != "_" {
						e.insert(n.Body.Lbrace+1, fmt.Sprintf(" %s, %s %s %s.K, %s.V; ", k, v, op, it, it))
					}
				} else {
					e.replace(n.For, n.X.Pos(), fmt.Sprintf("for %s := %s.ChanRange(", it, rt))
					e.insert(n.X.End(), fmt.Sprintf("); %s.Next(); ", it))
					if k != "_" {
						e.insert(n.Body.Lbrace+1, fmt.Sprintf(" %s %s %s.V; ", k, op, it))
					}
				}
			}
		}
		return true
	})
	e.initFuncs(f)
	vars := e.stateVars(f)
	if len(vars) > 0 {
		e.need = true
	}
	if !e.need {
		return nil
	}
	// header: language version for generics, and the import
	hasBuild := false
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") && c.Pos() < f.Package {
				hasBuild = true
			}
		}
	}
	var edits = e.edits
	if !hasBuild {
		edits = append(edits, edit{ins: "//go:build go1.18\n\n", seq: -1})
	}
	edits = append(edits, edit{off: e.off(f.Name.End()), ins: fmt.Sprintf("; import %s %q", rt, rtPath), seq: -1})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].seq < edits[j].seq
	})
	render = func(from, to int) string {
		var b bytes.Buffer
		pos := from
		for _, ed := range edits {
			if ed.off < pos || ed.off > to || ed.off == to && to != len(src) && ed.del > 0 {
				// outside, or swallowed by an earlier replacement
				continue
			}
			b.Write(src[pos:ed.off])
			if ed.lazy != nil {
				b.WriteString(ed.lazy())
			} else {
				b.WriteString(ed.ins)
			}
			pos = ed.off + ed.del
		}
		b.Write(src[pos:to])
		return b.String()
	}
	var b bytes.Buffer
	b.WriteString(render(0, len(src)))
	for _, v := range vars {
		fmt.Fprintf(&b, "\n\nfunc init() {\n\t%s.Global(%q, %d, []interface{}{", rt, e.pkg, v.order)
		for _, n := range v.names {
			fmt.Fprintf(&b, "&%s, ", n)
		}
		b.WriteString("}, ")
		if v.rhs == nil {
			b.WriteString("nil)\n}\n")
			continue
		}
		lhs := strings.Join(v.all, ", ")
		fmt.Fprintf(&b, "func() { %s = %s })\n}\n", lhs, render(e.off(v.rhs.Pos()), e.off(v.rhs.End())))
	}
	for _, t := range e.gtext {
		b.WriteString(t)
	}
	b.WriteString("\n\nvar _ = " + rt + ".Y\n")
	var paths []string
	for p := range e.used {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		fmt.Fprintf(&b, keep[p]+"\n", e.used[p])
	}
	return b.Bytes()
}

// memoMul makes the multiplication of points of the curve, a pure function
// that takes milliseconds, remember its results.
func memoMul(out, dir string) (dst, from string) {
	from = filepath.Join(dir, "babyjub.go")
	src, err := os.ReadFile(from)
	const head = "func (res *Point) Mul(s *big.Int, p *Point) *Point {"
	if err != nil || strings.Count(string(src), head) != 1 {
		return "", ""
	}
	t := strings.Replace(string(src), head, "func (res *Point) mulAfresh(s *big.Int, p *Point) *Point {", 1)
	t += `
var memo = map[string][2]*big.Int{}

// Mul remembers what it computed; one simulated task runs at a time.
func (res *Point) Mul(s *big.Int, p *Point) *Point {
	k := s.Text(62) + " " + p.X.Text(62) + " " + p.Y.Text(62)
	v, ok := memo[k]
	if !ok {
		x := NewPoint().mulAfresh(s, p)
		v = [2]*big.Int{x.X, x.Y}
			if len(memo) > 20000 {
			memo = map[string][2]*big.Int{}
		}
		memo[k] = v
		}
	res.X, res.Y = new(big.Int).Set(v[0]), new(big.Int).Set(v[1])
	return res
}
`
	dst = filepath.Join(out, "src", "babyjub__babyjub.go")
	if os.WriteFile(dst, []byte(t), 0644) != nil {
		return "", ""
	}
	return dst, from
}

// globals are the package variables that hold state: every simulated process
// has its own, made afresh when it starts.
type globals struct {
	state map[types.Object]bool
	order map[ast.Expr]int
}

func packageState(files []*ast.File, info *types.Info) *globals {
	g := &globals{map[types.Object]bool{}, map[ast.Expr]int{}}
	called := map[types.Object]bool{} // initialised by a function of the package
	for i, in := range info.InitOrder {
		g.order[in.Rhs] = i
		ast.Inspect(in.Rhs, func(n ast.Node) bool {
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok {
					if _, ok := info.Uses[id].(*types.Func); ok {
						for _, l := range in.Lhs {
							called[l] = true
						}
					}
				}
			}
			return true
		})
	}
	touched := map[types.Object]bool{} // assigned, or its address taken
	addressed := map[types.Object]bool{}
	var root func(x ast.Expr) types.Object
	root = func(x ast.Expr) types.Object {
		switch x := x.(type) {
		case *ast.Ident:
			return info.Uses[x]
		case *ast.SelectorExpr:
			return root(x.X)
		case *ast.IndexExpr:
			return root(x.X)
		case *ast.ParenExpr:
			return root(x.X)
		case *ast.StarExpr:
			return root(x.X)
		}
		return nil
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					touched[root(l)] = true
				}
			case *ast.RangeStmt:
				if n.Key != nil {
					touched[root(n.Key)] = true
				}
				if n.Value != nil {
					touched[root(n.Value)] = true
				}
			case *ast.IncDecStmt:
				touched[root(n.X)] = true
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					addressed[root(n.X)] = true
				}
			}
			return true
		})
	}
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for _, id := range vs.Names {
					o := info.Defs[id]
					if o == nil || id.Name == "_" || o.Type() == nil {
						continue
					}
					zero := len(vs.Values) == 0
					if n, ok := o.Type().(*types.Named); ok && n.Obj().Pkg() == nil && !touched[o] {
						continue // an error value
					}
					if touched[o] || called[o] || holdsState(o.Type(), 0) || zero && (addressed[o] || isStruct(o.Type())) {
						g.state[o] = true
					}
				}
			}
		}
	}
	return g
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func holdsState(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	if n, ok := t.(*types.Named); ok && n.Obj() != nil {
		if n.Obj().Pkg() == nil && n.Obj().Name() == "error" {
			return false
		}
		if p := n.Obj().Pkg(); p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic") {
			return true
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Map, *types.Chan, *types.Pointer, *types.Interface:
		return true
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return !ok || b.Kind() != types.Byte
	case *types.Array:
		return holdsState(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsState(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

type stateVar struct {
	names, all []string
	rhs        ast.Expr
	order      int
}

// stateVars lists the state variables declared in a file.
func (e *editor) stateVars(f *ast.File) (out []stateVar) {
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.VAR {
			continue
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			one := func(ids []*ast.Ident, rhs ast.Expr) {
				v := stateVar{rhs: rhs, order: -1}
				if rhs != nil {
					o, ok := e.glob.order[rhs]
					if !ok {
						return
					}
					v.order = o
				}
				for _, id := range ids {
					if o := e.info.Defs[id]; o != nil && e.glob.state[o] {
						v.names = append(v.names, id.Name)
						v.all = append(v.all, id.Name)
					} else {
						v.all = append(v.all, "_")
					}
				}
				if len(v.names) > 0 {
					out = append(out, v)
				}
			}
			switch {
			case len(vs.Values) == 0:
				for _, id := range vs.Names {
					one([]*ast.Ident{id}, nil)
				}
			case len(vs.Values) == len(vs.Names):
				for i, id := range vs.Names {
					one([]*ast.Ident{id}, vs.Values[i])
				}
			default:
				one(vs.Names, vs.Values[0])
			}
		}
	}
	return out
}

// initFuncs announces the init functions of a package that has state.
func (e *editor) initFuncs(f *ast.File) {
	if len(e.glob.state) == 0 {
		return
	}
	n := 0
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Recv != nil || fd.Name.Name != "init" || fd.Body == nil {
			continue
		}
		name := fmt.Sprintf("zz_init%d_%d", e.fileN, n)
		e.replace(fd.Name.Pos(), fd.Name.End(), name)
		e.gtext = append(e.gtext, fmt.Sprintf("\n\nfunc init() {\n\t%s()\n\t%s.Global(%q, %d, nil, %s)\n}\n", name, rt, e.pkg, 1<<20+e.fileN*1000+n, name))
		n++
	}
}
