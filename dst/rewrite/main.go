// Command rewrite turns the Go packages under test (and the concurrent ones
// among their dependencies) into copies whose every source of nondeterminism
// goes through package simrt. It works on the text with type information, so
// it follows whatever the working tree contains.
//
//	rewrite -repo /repo -out DIR -go GO
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	CFiles     []string
	HFiles     []string
	SFiles     []string
	EmbedFiles []string
	Imports    []string
	ImportMap  map[string]string
	Export     string
	Standard   bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
	DepsErrors []*struct{ Err string }
}

var lightPrefixes = []string{
	"github.com/frostbyte73/core",
	"github.com/livekit/protocol/utils/mono",
	"github.com/pion/srtp/v3",
	"github.com/pion/transport/v3/packetio",
	"github.com/pion/transport/v3/deadline",
	"github.com/at-wat/ebml-go/mkvcore",
	"github.com/at-wat/ebml-go/webm",
	"go.uber.org/atomic",
}

const prefix = "simw/x/"

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "rewrite: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	gobin := flag.String("go", "go", "")
	flag.Parse()
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,CgoFiles,CFiles,HFiles,SFiles,EmbedFiles,Imports,ImportMap,Export,Standard,Module,Error"}
	args = append(args, "./...")
	cmd := exec.Command(*gobin, args...)
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	pkgs := map[string]*pkgInfo{}
	var order []*pkgInfo
	var mainMod string
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
		if p.Module != nil && p.Module.Dir == *repo {
			mainMod = p.Module.Path
		}
	}
	if mainMod == "" {
		die("no package of %s found\n%s", *repo, stderr.String())
	}
	isMain := func(p string) bool { return p == mainMod || strings.HasPrefix(p, mainMod+"/") }
	target := map[string]bool{} // value: full mode
	for _, p := range order {
		if isMain(p.ImportPath) {
			if p.Error != nil {
				die("%s: %s", p.ImportPath, p.Error.Err)
			}
			target[p.ImportPath] = true
			continue
		}
		for _, l := range lightPrefixes {
			if p.ImportPath == l || strings.HasPrefix(p.ImportPath, l+"/") {
				target[p.ImportPath] = false
			}
		}
	}
	// internal packages of light dependencies that are reached from them
	for changed := true; changed; {
		changed = false
		for _, p := range order {
			if _, ok := target[p.ImportPath]; !ok {
				continue
			}
			for _, im := range p.Imports {
				if m, ok := p.ImportMap[im]; ok {
					im = m
				}
				if _, ok := target[im]; ok {
					continue
				}
				if strings.Contains(im, "/internal/") && pkgs[im] != nil && !pkgs[im].Standard && !isMain(im) {
					target[im] = false
					changed = true
				}
			}
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(p.Export)
	})
	for _, p := range order {
		full, ok := target[p.ImportPath]
		if !ok {
			continue
		}
		r := &rewriter{fset: fset, pkg: p, full: full, target: target, short: strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mainMod), "/")}
		if r.short == "" {
			r.short = p.Name
		}
		if err := r.run(imp, filepath.Join(*out, "x", filepath.FromSlash(p.ImportPath))); err != nil {
			die("%s: %v", p.ImportPath, err)
		}
	}
	var list []string
	for p := range target {
		list = append(list, p)
	}
	sort.Strings(list)
	fmt.Println(strings.Join(list, "\n"))
}

// ------------------------------------------------------------------ edits

type node struct {
	from, to int
	gen      func(sub func(from, to int) string) string
	children []*node
}

type rewriter struct {
	fset   *token.FileSet
	pkg    *pkgInfo
	full   bool
	short  string
	target map[string]bool

	info  *types.Info
	src   []byte
	tf    *token.File
	edits []*node
	used  map[string]string // import path -> a blank use keeping it imported
	tmp   int
	fn    []string

	mapWrite map[*ast.IndexExpr]bool

	// race instrumentation
	file0    string
	lhs      map[ast.Expr]bool // written in place
	addrOnly map[ast.Expr]bool // only the address is taken (or left alone)
	inList   map[ast.Stmt]bool
	mutable  map[types.Object]bool // captured or package variables that are assigned

	root  *node
	plan  *resetPlan
	zero  []string
	again map[int]string
}

// isLocalMapExpr: a plain local variable; everything else may be shared.
func (r *rewriter) isLocalMapExpr(e ast.Expr) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return false
	}
	o := r.info.Uses[id]
	return o != nil && o.Pkg() != nil && o.Parent() != o.Pkg().Scope()
}

func (r *rewriter) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rewriter) insert(p token.Pos, s string) {
	o := r.off(p)
	r.edits = append(r.edits, &node{from: o, to: o, gen: func(func(int, int) string) string { return s }})
}

func (r *rewriter) replace(n ast.Node, gen func(sub func(from, to int) string) string) {
	r.edits = append(r.edits, &node{from: r.off(n.Pos()), to: r.off(n.End()), gen: gen})
}

func (r *rewriter) replaceRange(from, to token.Pos, gen func(sub func(from, to int) string) string) {
	r.edits = append(r.edits, &node{from: r.off(from), to: r.off(to), gen: gen})
}

func (r *rewriter) renderRange(from, to int, kids []*node) string {
	var b strings.Builder
	pos := from
	for _, k := range kids {
		if k.from < from || k.to > to || k.from < pos {
			continue
		}
		if k.from == k.to && (k.from == from || k.from == to) {
			continue // an insertion at the very edge belongs to the enclosing text
		}
		b.Write(r.src[pos:k.from])
		kk := k
		b.WriteString(kk.gen(func(f, t int) string { return r.renderRange(f, t, kk.children) }))
		pos = k.to
	}
	b.Write(r.src[pos:to])
	return b.String()
}

func (r *rewriter) render() string {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.from != b.from {
			return a.from < b.from
		}
		az, bz := a.from == a.to, b.from == b.to
		if az != bz {
			return az
		}
		return a.to > b.to
	})
	root := &node{from: 0, to: len(r.src)}
	r.root = root
	stack := []*node{root}
	for _, e := range r.edits {
		for len(stack) > 1 {
			t := stack[len(stack)-1]
			if e.from >= t.to || (e.from == e.to && e.from == t.from) {
				stack = stack[:len(stack)-1]
				continue
			}
			break
		}
		t := stack[len(stack)-1]
		t.children = append(t.children, e)
		if e.to > e.from {
			stack = append(stack, e)
		}
	}
	return r.renderRange(0, len(r.src), root.children)
}

// ------------------------------------------------------------------ overrides

var overrides = map[string]map[string]string{
	"time": {
		"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "Sleep", "After": "After",
		"AfterFunc": "AfterFunc", "Tick": "Tick", "NewTimer": "NewTimer", "NewTicker": "NewTicker",
		"Timer": "Timer", "Ticker": "Ticker",
	},
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond",
		"NewCond": "NewCond", "Map": "Map", "Pool": "Pool", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue",
		"OnceValues": "OnceValues",
	},
	"sync/atomic": {
		"Bool": "Bool", "Int32": "Int32", "Int64": "Int64", "Uint32": "Uint32", "Uint64": "Uint64",
		"Uintptr": "Uintptr", "Pointer": "Pointer", "Value": "Value",
		"LoadInt32": "LoadInt32", "LoadInt64": "LoadInt64", "LoadUint32": "LoadUint32", "LoadUint64": "LoadUint64",
		"LoadUintptr": "LoadUintptr", "LoadPointer": "LoadPointer",
		"StoreInt32": "StoreInt32", "StoreInt64": "StoreInt64", "StoreUint32": "StoreUint32", "StoreUint64": "StoreUint64",
		"StoreUintptr": "StoreUintptr", "StorePointer": "StorePointer",
		"AddInt32": "AddInt32", "AddInt64": "AddInt64", "AddUint32": "AddUint32", "AddUint64": "AddUint64", "AddUintptr": "AddUintptr",
		"SwapUintptr": "SwapUintptr", "AndInt32": "AndInt32", "AndInt64": "AndInt64", "AndUint32": "AndUint32", "AndUint64": "AndUint64", "AndUintptr": "AndUintptr",
		"OrInt32": "OrInt32", "OrInt64": "OrInt64", "OrUint32": "OrUint32", "OrUint64": "OrUint64", "OrUintptr": "OrUintptr",
		"SwapInt32": "SwapInt32", "SwapInt64": "SwapInt64", "SwapUint32": "SwapUint32", "SwapUint64": "SwapUint64", "SwapPointer": "SwapPointer",
		"CompareAndSwapInt32": "CompareAndSwapInt32", "CompareAndSwapInt64": "CompareAndSwapInt64",
		"CompareAndSwapUint32": "CompareAndSwapUint32", "CompareAndSwapUint64": "CompareAndSwapUint64",
		"CompareAndSwapUintptr": "CompareAndSwapUintptr", "CompareAndSwapPointer": "CompareAndSwapPointer",
	},
	"math/rand": {
		"Int": "RandInt", "Intn": "RandIntn", "Int31": "RandInt31", "Int31n": "RandInt31n", "Int63": "RandInt63",
		"Int63n": "RandInt63n", "Uint32": "RandUint32", "Uint64": "RandUint64", "Float32": "RandFloat32",
		"Float64": "RandFloat64", "NormFloat64": "RandNormFloat64", "ExpFloat64": "RandExpFloat64",
		"Perm": "RandPerm", "Shuffle": "RandShuffle", "Seed": "RandSeed", "Read": "RandRead",
	},
	"math/rand/v2": {
		"Int": "Rand2Int", "IntN": "Rand2IntN", "Int32": "Rand2Int32", "Int32N": "Rand2Int32N", "Int64": "Rand2Int64",
		"Int64N": "Rand2Int64N", "Uint32": "Rand2Uint32", "Uint32N": "Rand2Uint32N", "Uint64": "Rand2Uint64",
		"Uint64N": "Rand2Uint64N", "UintN": "Rand2UintN", "Float32": "Rand2Float32", "Float64": "Rand2Float64",
		"NormFloat64": "Rand2NormFloat64", "ExpFloat64": "Rand2ExpFloat64", "Perm": "Rand2Perm", "Shuffle": "Rand2Shuffle", "N": "Rand2N",
	},
	"crypto/rand": {"Read": "CryptoRead", "Reader": "CryptoReader"},
	"context": {
		"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithDeadline": "WithDeadline",
		"WithDeadlineCause": "WithDeadlineCause", "WithTimeout": "WithTimeout", "WithTimeoutCause": "WithTimeoutCause",
		"Cause": "Cause", "AfterFunc": "CtxAfterFunc", "WithoutCancel": "WithoutCancel",
	},
	"golang.org/x/exp/maps": {"Keys": "XMapsKeys", "Values": "XMapsValues", "Clone": "MapsClone", "Copy": "MapsCopy", "Clear": "MapsClear"},
	"maps":                  {"Keys": "MapsKeys", "Values": "MapsValues", "All": "RangeMap", "Clone": "MapsClone", "Copy": "MapsCopy"},
	"runtime":               {"Gosched": "Gosched", "AddCleanup": "AddCleanup", "SetFinalizer": "SetFinalizer", "Cleanup": "Cleanup"},
	"net": {
		"UDPConn": "UDPConn", "ListenUDP": "NetListenUDP", "ListenConfig": "ListenConfig", "ListenPacket": "NetListenPacket",
	},
	"io": {"Pipe": "IOPipe", "PipeReader": "PipeReader", "PipeWriter": "PipeWriter"},
	"os": {"Create": "OsCreate", "OpenFile": "OsOpenFile", "Open": "OsOpen", "File": "File", "Remove": "OsRemove",
		"Getenv": "OsGetenv", "LookupEnv": "OsLookupEnv"},
}

// lightSkip are overrides not applied to third-party packages.
func (r *rewriter) override(path, name string) (string, bool) {
	m, ok := overrides[path]
	if !ok {
		return "", false
	}
	if !r.full && (path == "os" || path == "net" || path == "io") {
		return "", false
	}
	s, ok := m[name]
	return s, ok
}

// ------------------------------------------------------------------ package

func (r *rewriter) run(imp types.Importer, outDir string) error {
	files := append(append([]string{}, r.pkg.GoFiles...), r.pkg.CgoFiles...)
	sort.Strings(files)
	var asts []*ast.File
	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}
	for _, f := range files {
		path := filepath.Join(r.pkg.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(r.fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		asts = append(asts, a)
		srcs[a] = src
		names[a] = f
	}
	r.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	var firstErr error
	conf := types.Config{
		Importer:    mapImporter{imp, r.pkg.ImportMap},
		FakeImportC: true,
		Error: func(err error) {
			if firstErr == nil && len(r.pkg.CgoFiles) == 0 {
				firstErr = err
			}
		},
	}
	conf.Check(r.pkg.ImportPath, r.fset, asts, r.info)
	if firstErr != nil {
		return firstErr
	}
	if err := os.MkdirAll(outDir, 0o755); err != nil {
		return err
	}
	if r.full {
		r.findMutable(asts)
		r.plan, r.again = r.planReset(asts), map[int]string{}
	}
	for _, a := range asts {
		r.file0 = r.short + "/" + names[a]
		r.lhs, r.addrOnly, r.inList = map[ast.Expr]bool{}, map[ast.Expr]bool{}, map[ast.Stmt]bool{}
		r.src = srcs[a]
		r.tf = r.fset.File(a.Pos())
		r.edits = nil
		r.used = map[string]string{}
		r.mapWrite = map[*ast.IndexExpr]bool{}
		r.file(a)
		text := r.render()
		var tail strings.Builder
		keys := make([]string, 0, len(r.used))
		for k := range r.used {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Fprintf(&tail, "\n%s", r.used[k])
		}
		if r.plan != nil {
			tail.WriteString(r.resetFuncs(r.plan, a))
		}
		text = noDither(text + tail.String() + "\n")
		if err := os.WriteFile(filepath.Join(outDir, names[a]), []byte(text), 0o644); err != nil {
			return err
		}
	}
	if r.plan != nil {
		if err := r.resetFile(r.plan, outDir); err != nil {
			return err
		}
	}
	for _, fs := range [][]string{r.pkg.CFiles, r.pkg.HFiles, r.pkg.SFiles, r.pkg.EmbedFiles} {
		for _, f := range fs {
			data, err := os.ReadFile(filepath.Join(r.pkg.Dir, f))
			if err != nil {
				return err
			}
			dst := filepath.Join(outDir, f)
			os.MkdirAll(filepath.Dir(dst), 0o755)
			if err := os.WriteFile(dst, data, 0o644); err != nil {
				return err
			}
		}
	}
	return nil
}

type mapImporter struct {
	imp types.Importer
	m   map[string]string
}

func (m mapImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.m[path]; ok {
		path = p
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return m.imp.Import(path)
}

func (r *rewriter) file(f *ast.File) {
	r.insert(f.Name.End(), `; import simrt "simw/simrt"`)
	r.used["simrt"] = "var _ = simrt.Y"
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		if _, ok := r.target[path]; ok {
			p := path
			r.replace(im.Path, func(func(int, int) string) string { return strconv.Quote(prefix + p) })
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.fn = []string{d.Name.Name}
			if r.plan != nil {
				for i, f := range r.plan.inits {
					if f == d {
						n := fmt.Sprintf("simInit_%d", i)
						r.replace(d.Name, func(func(int, int) string) string { return n })
					}
				}
			}
			r.walk(d)
		default:
			r.fn = []string{"init"}
			r.walk(d)
		}
	}
}

// pkgSel resolves e as a selector of an imported package.
func (r *rewriter) pkgSel(e ast.Expr) (path, name, alias string, ok bool) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", "", "", false
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", "", "", false
	}
	return pn.Imported().Path(), s.Sel.Name, id.Name, true
}

var blankUse = map[string]string{
	"golang.org/x/exp/maps": "var _ = %s.Keys[map[int]int]", "maps": "var _ = %s.Keys[map[int]int]",
	"time": "var _ = %s.Second", "sync": "var _ %s.Locker", "sync/atomic": "var _ = %s.LoadInt32",
	"math/rand": "var _ = %s.NewSource", "math/rand/v2": "var _ = %s.NewPCG", "crypto/rand": "var _ = %s.Int",
	"context": "var _ %s.Context", "runtime": "var _ = %s.GC", "net": "var _ %s.Addr", "os": "var _ = %s.Getpid", "io": "var _ = %s.EOF",
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func chanType(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	if c, ok := t.Underlying().(*types.Chan); ok {
		return c
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if i, ok := tp.Underlying().(*types.Interface); ok {
			for j := 0; j < i.NumEmbeddeds(); j++ {
				if u, ok := i.EmbeddedType(j).(*types.Union); ok && u.Len() > 0 {
					return chanType(u.Term(0).Type())
				}
			}
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) next() string {
	r.tmp++
	return strconv.Itoa(r.tmp)
}

func (r *rewriter) walkList(l []ast.Stmt) {
	for _, s := range l {
		if r.full {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				r.insert(s.Pos(), "simrt.Y(); ")
				r.inList[s] = true
			}
		}
		r.walk(s)
	}
}

func (r *rewriter) walkAll(ns ...ast.Node) {
	for _, n := range ns {
		r.walk(n)
	}
}

func (r *rewriter) walk(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil {
			return false
		}
		switch m := m.(type) {
		case *ast.BlockStmt:
			r.walkList(m.List)
			return false
		case *ast.CaseClause:
			for _, e := range m.List {
				r.walk(e)
			}
			r.walkList(m.Body)
			return false
		case *ast.LabeledStmt:
			if sel, ok := m.Stmt.(*ast.SelectStmt); ok {
				r.selectStmt(m, sel, m.Label.Name)
				return false
			}
		case *ast.SelectStmt:
			r.selectStmt(m, m, "")
			return false
		case *ast.GoStmt:
			r.goStmt(m)
			return false
		case *ast.SendStmt:
			r.replace(m, func(sub func(int, int) string) string {
				return "simrt.Send(" + sub(r.off(m.Chan.Pos()), r.off(m.Chan.End())) + ")(" + sub(r.off(m.Value.Pos()), r.off(m.Value.End())) + ")"
			})
		case *ast.AssignStmt:
			if m.Tok != token.DEFINE {
				for _, l := range m.Lhs {
					if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
						r.mapWrite[ix] = true
					}
				}
			}
			if len(m.Lhs) == 2 && len(m.Rhs) == 1 {
				if u, ok := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					for _, l := range m.Lhs {
						r.lhs[l] = true
						if m.Tok == token.DEFINE {
							r.addrOnly[l] = true
						}
						r.walk(l)
					}
					r.recv(m.Rhs[0], u, "Recv2")
					return false
				}
			}
			if r.full && r.rmwAssign(m) {
				return false
			}
			if r.full {
				r.raceAssign(m)
			}
		case *ast.IncDecStmt:
			if ix, ok := ast.Unparen(m.X).(*ast.IndexExpr); ok {
				r.mapWrite[ix] = true
			}
			if r.full && r.rmwIncDec(m) {
				return false
			}
			r.lhs[m.X] = true
		case *ast.ValueSpec:
			if len(m.Names) == 2 && len(m.Values) == 1 {
				if u, ok := ast.Unparen(m.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					if m.Type != nil {
						r.walk(m.Type)
					}
					r.recv(m.Values[0], u, "Recv2")
					return false
				}
			}
		case *ast.UnaryExpr:
			if m.Op == token.ARROW {
				r.recv(m, m, "Recv")
				return false
			}
			if m.Op == token.AND {
				r.addrOnly[ast.Unparen(m.X)] = true
			}
		case *ast.RangeStmt:
			t := r.typeOf(m.X)
			fn := ""
			if chanType(t) != nil {
				fn = "RangeChan"
			} else if isMap(t) && r.full {
				fn = "RangeMap"
			}
			if fn != "" {
				r.replace(m.X, func(sub func(int, int) string) string {
					return "simrt." + fn + "(" + sub(r.off(m.X.Pos()), r.off(m.X.End())) + ")"
				})
			} else if r.full && m.Value != nil && isSlice(t) {
				if id, ok := m.Value.(*ast.Ident); !ok || id.Name != "_" {
					site := r.site(m.X)
					r.replace(m.X, func(sub func(int, int) string) string {
						return "simrt.RS(" + sub(r.off(m.X.Pos()), r.off(m.X.End())) + ", " + site + ")"
					})
				}
			}
			for _, l := range []ast.Expr{m.Key, m.Value} {
				if l != nil {
					r.addrOnly[l] = true
				}
			}
		case *ast.SliceExpr:
			if t := r.typeOf(m.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					r.addrOnly[ast.Unparen(m.X)] = true
				}
			}
		case *ast.StarExpr:
			if tv, ok := r.info.Types[m]; ok && tv.IsValue() && r.full {
				r.access(m)
			}
		case *ast.Ident:
			if r.full {
				if v, ok := r.info.Uses[m].(*types.Var); ok && !v.IsField() && r.mutable[v] {
					r.access(m)
				}
			}
		case *ast.IndexExpr:
			if r.full {
				r.access(m)
				if t := r.typeOf(m.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); ok {
						r.addrOnly[ast.Unparen(m.X)] = true
					}
				}
			}
			if r.full && isMap(r.typeOf(m.X)) && !r.isLocalMapExpr(m.X) {
				fn := "MapR"
				if r.mapWrite[m] {
					fn = "MapW"
				}
				r.replace(m.X, func(sub func(int, int) string) string {
					return "simrt." + fn + "(" + sub(r.off(m.X.Pos()), r.off(m.X.End())) + ")"
				})
			}
		case *ast.CallExpr:
			if r.full {
				if r.raceCall(m) {
					return false
				}
			}
			if r.full && (r.isBuiltin(m.Fun, "delete") || r.isBuiltin(m.Fun, "clear")) && len(m.Args) > 0 && isMap(r.typeOf(m.Args[0])) && !r.isLocalMapExpr(m.Args[0]) {
				a := m.Args[0]
				r.replace(a, func(sub func(int, int) string) string {
					return "simrt.MapW(" + sub(r.off(a.Pos()), r.off(a.End())) + ")"
				})
			}
			if len(m.Args) == 1 {
				name := ""
				switch {
				case r.isBuiltin(m.Fun, "close"):
					name = "simrt.Close"
				case r.isBuiltin(m.Fun, "len"):
					if c := chanType(r.typeOf(m.Args[0])); c != nil {
						name = "simrt.Len"
						if c.Dir() == types.SendOnly {
							name = "simrt.LenS"
						}
					}
				}
				if name != "" {
					r.replace(m.Fun, func(func(int, int) string) string { return name })
					r.walk(m.Args[0])
					return false
				}
			}
		case *ast.SelectorExpr:
			if path, name, alias, ok := r.pkgSel(m); ok {
				if nn, ok := r.override(path, name); ok {
					r.used[path+" "+alias] = fmt.Sprintf(blankUse[path], alias)
					r.replace(m, func(func(int, int) string) string { return "simrt." + nn })
				}
				return false
			}
			if r.full {
				r.raceSelector(m)
			}
		case *ast.FuncLit:
			r.fn = append(r.fn, "func")
			r.walk(m.Type)
			r.walk(m.Body)
			r.fn = r.fn[:len(r.fn)-1]
			return false
		}
		return true
	})
}

func (r *rewriter) recv(outer ast.Expr, u *ast.UnaryExpr, fn string) {
	r.replace(outer, func(sub func(int, int) string) string {
		return "simrt." + fn + "(" + sub(r.off(u.X.Pos()), r.off(u.X.End())) + ")"
	})
	r.walk(u.X)
}

// ---- read-modify-write splits, so that unlocked updates can lose

// sharedLV: an addressable field, element or pointer target without calls.
func (r *rewriter) sharedLV(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s == nil || s.Kind() != types.FieldVal {
			return false
		}
		return r.pure(e.X)
	case *ast.StarExpr:
		return r.pure(e.X)
	}
	return false
}

func (r *rewriter) pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return r.pure(e.X)
	case *ast.SelectorExpr:
		return r.pure(e.X)
	case *ast.StarExpr:
		return r.pure(e.X)
	}
	return false
}

func (r *rewriter) hasMapIndex(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.IndexExpr); ok {
			found = true
		}
		return !found
	})
	return found
}

func (r *rewriter) rmwIncDec(m *ast.IncDecStmt) bool {
	if !r.sharedLV(m.X) {
		return false
	}
	site := r.site(m.X)
	op := "+"
	if m.Tok == token.DEC {
		op = "-"
	}
	r.replace(m, func(sub func(int, int) string) string {
		x := sub(r.off(m.X.Pos()), r.off(m.X.End()))
		return "{ simp := &" + x + "; simv := *simrt.R(simp, " + site + "); simrt.Y(); *simrt.Wr(simp, " + site + ") = simv " + op + " 1 }"
	})
	r.addrOnly[ast.Unparen(m.X)] = true
	r.walk(m.X)
	return true
}

func (r *rewriter) rmwAssign(m *ast.AssignStmt) bool {
	if len(m.Lhs) != 1 || len(m.Rhs) != 1 || !r.sharedLV(m.Lhs[0]) {
		return false
	}
	if m.Tok == token.ASSIGN {
		// x.f = append(x.f, ...)
		c, ok := m.Rhs[0].(*ast.CallExpr)
		if !ok || !r.isBuiltin(c.Fun, "append") {
			return false
		}
		lt, rt := r.typeOf(m.Lhs[0]), r.typeOf(m.Rhs[0])
		if lt == nil || rt == nil || !types.Identical(lt, rt) {
			return false
		}
		r.replace(m, func(sub func(int, int) string) string {
			return "{ simv := " + sub(r.off(c.Pos()), r.off(c.End())) + "; simrt.Y(); " + sub(r.off(m.Lhs[0].Pos()), r.off(m.Lhs[0].End())) + " = simv }"
		})
		r.lhs[m.Lhs[0]] = true
		r.walk(m.Lhs[0])
		r.walk(m.Rhs[0])
		return true
	}
	if m.Tok == token.DEFINE {
		return false
	}
	op := strings.TrimSuffix(m.Tok.String(), "=")
	site := r.site(m)
	r.replace(m, func(sub func(int, int) string) string {
		x := sub(r.off(m.Lhs[0].Pos()), r.off(m.Lhs[0].End()))
		return "{ simp := &" + x + "; simv := *simrt.R(simp, " + site + "); simrt.Y(); *simp = simv " + op + " (" + sub(r.off(m.Rhs[0].Pos()), r.off(m.Rhs[0].End())) + "); simrt.Wr(simp, " + site + ") }"
	})
	r.addrOnly[ast.Unparen(m.Lhs[0])] = true
	r.walk(m.Lhs[0])
	r.walk(m.Rhs[0])
	return true
}

// ---- go

func (r *rewriter) goStmt(g *ast.GoStmt) {
	call := g.Call
	name := strconv.Quote(r.short + "." + strings.Join(r.fn, "."))
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && fl.Type.Results == nil {
		r.replace(g, func(sub func(int, int) string) string {
			return "simrt.Go(" + name + ", " + sub(r.off(fl.Pos()), r.off(fl.End())) + ")"
		})
		r.walk(fl)
		return
	}
	k := r.next()
	if s, ok := call.Fun.(*ast.SelectorExpr); ok {
		name = strconv.Quote(r.short + "." + s.Sel.Name)
	} else if id, ok := call.Fun.(*ast.Ident); ok {
		name = strconv.Quote(r.short + "." + id.Name)
	}
	direct := false // callable that may be named inside the closure
	if tv, ok := r.info.Types[call.Fun]; ok && tv.IsBuiltin() {
		direct = true
	}
	switch f := ast.Unparen(call.Fun).(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); ok {
			direct = true
		}
	case *ast.SelectorExpr:
		if _, _, _, ok := r.pkgSel(f); ok {
			direct = true
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	r.replace(g, func(sub func(int, int) string) string {
		var b strings.Builder
		b.WriteString("{ ")
		fn := sub(r.off(call.Fun.Pos()), r.off(call.Fun.End()))
		if !direct {
			fmt.Fprintf(&b, "simf%s := %s; ", k, fn)
			fn = "simf" + k
		}
		var args []string
		for i, a := range call.Args {
			t := sub(r.off(a.Pos()), r.off(a.End()))
			tv := r.info.Types[a]
			if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.Type == nil {
				args = append(args, t)
				continue
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				args = append(args, t)
				continue
			}
			fmt.Fprintf(&b, "sima%s_%d := %s; ", k, i, t)
			args = append(args, fmt.Sprintf("sima%s_%d", k, i))
		}
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		fmt.Fprintf(&b, "simrt.Go(%s, func() { %s(%s%s) }) }", name, fn, strings.Join(args, ", "), ell)
		return b.String()
	})
	r.walk(call.Fun)
	for _, a := range call.Args {
		r.walk(a)
	}
}

// ---- select

func (r *rewriter) selectStmt(outer ast.Stmt, s *ast.SelectStmt, label string) {
	k := r.next()
	type cc struct {
		c    *ast.CommClause
		recv *ast.UnaryExpr
		send *ast.SendStmt
		lhs  []ast.Expr
		tok  token.Token
	}
	var cs []cc
	hasDef := false
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		x := cc{c: c}
		switch m := c.Comm.(type) {
		case nil:
			hasDef = true
		case *ast.SendStmt:
			x.send = m
			r.walk(m.Chan)
			r.walk(m.Value)
		case *ast.ExprStmt:
			x.recv, _ = ast.Unparen(m.X).(*ast.UnaryExpr)
		case *ast.AssignStmt:
			x.recv, _ = ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			x.lhs, x.tok = m.Lhs, m.Tok
			if m.Tok == token.ASSIGN {
				for _, l := range m.Lhs {
					r.lhs[l] = true
					r.walk(l)
				}
			}
		}
		if x.recv != nil {
			r.walk(x.recv.X)
		}
		cs = append(cs, x)
		r.walkList(c.Body)
	}
	r.replace(outer, func(sub func(int, int) string) string {
		if len(cs) == 0 {
			return "{ simrt.BlockForever(); panic(\"unreachable\") }"
		}
		e := func(n ast.Node) string { return sub(r.off(n.Pos()), r.off(n.End())) }
		var b strings.Builder
		// the text between clauses is kept so that line numbers stay the same
		fmt.Fprintf(&b, "{ simsel%s := simrt.NewSel(); ", k)
		i := 0
		for j := range cs {
			c := &cs[j]
			switch {
			case c.recv != nil && len(c.lhs) > 0:
				fmt.Fprintf(&b, "simr%s_%d := simrt.SelRecv(simsel%s, %s); ", k, i, k, e(c.recv.X))
				i++
			case c.recv != nil:
				fmt.Fprintf(&b, "simrt.SelRecv(simsel%s, %s); ", k, e(c.recv.X))
				i++
			case c.send != nil:
				fmt.Fprintf(&b, "simrt.SelSend(simsel%s, %s)(%s); ", k, e(c.send.Chan), e(c.send.Value))
				i++
			}
		}
		if label != "" {
			fmt.Fprintf(&b, "%s: ", label)
		}
		fmt.Fprintf(&b, "switch simsel%s.Run(%v) ", k, hasDef)
		pos := r.off(s.Body.Lbrace)
		i = 0
		nComm := 0
		for j := range cs {
			if cs[j].c.Comm != nil {
				nComm++
			}
		}
		for j := range cs {
			c := &cs[j]
			b.WriteString(strip(r.src[pos:r.off(c.c.Pos())]))
			if c.c.Comm == nil {
				b.WriteString("default:")
			} else {
				if i == nComm-1 && !hasDef {
					b.WriteString("default:")
				} else {
					fmt.Fprintf(&b, "case %d:", i)
				}
				if len(c.lhs) > 0 {
					var ls []string
					blank := true
					for _, l := range c.lhs {
						t := e(l)
						if t != "_" {
							blank = false
						}
						ls = append(ls, t)
					}
					tok := c.tok.String()
					if blank {
						tok = "="
					}
					get := "Get"
					if len(ls) == 2 {
						get = "Get2"
					}
					fmt.Fprintf(&b, " %s %s simr%s_%d.%s();", strings.Join(ls, ", "), tok, k, i, get)
				}
				i++
			}
			end := r.off(c.c.End())
			if j+1 < len(cs) {
				end = r.off(cs[j+1].c.Pos())
			} else {
				end = r.off(s.Body.Rbrace)
			}
			b.WriteString(sub(r.off(c.c.Colon)+1, end))
			pos = end
		}
		b.WriteString("} }")
		return b.String()
	})
}

func strip(b []byte) string { return string(b) }

// ---- race instrumentation

func (r *rewriter) site(n ast.Node) string {
	return strconv.Quote(fmt.Sprintf("%s:%d", r.file0, r.fset.Position(n.Pos()).Line))
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// rootVar is the variable that e is part of, without following pointers.
func (r *rewriter) rootVar(e ast.Expr) types.Object {
	switch e := ast.Unparen(e).(type) {
	case *ast.Ident:
		if v, ok := r.info.Uses[e].(*types.Var); ok && !v.IsField() {
			return v
		}
	case *ast.SelectorExpr:
		if s := r.info.Selections[e]; s != nil && s.Kind() == types.FieldVal && !s.Indirect() {
			return r.rootVar(e.X)
		}
	case *ast.IndexExpr:
		if t := r.typeOf(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return r.rootVar(e.X)
			}
		}
	}
	return nil
}

// findMutable collects the variables that more than one function can reach
// (package level or captured) and that are assigned after their declaration.
func (r *rewriter) findMutable(asts []*ast.File) {
	assigned := map[types.Object]bool{}
	captured := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if o := r.rootVar(e); o != nil {
			assigned[o] = true
		}
	}
	for _, a := range asts {
		var lits []*ast.FuncLit
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				lits = append(lits, n)
				ast.Inspect(n.Type, visit)
				ast.Inspect(n.Body, visit)
				lits = lits[:len(lits)-1]
				return false
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if id, ok := l.(*ast.Ident); ok && n.Tok == token.DEFINE {
						if r.info.Defs[id] != nil {
							continue
						}
					}
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.Ident:
				v, ok := r.info.Uses[n].(*types.Var)
				if !ok || v.IsField() || v.Pkg() == nil {
					break
				}
				if v.Parent() == v.Pkg().Scope() {
					if v.Pkg().Path() == r.pkg.ImportPath {
						captured[v] = true
					}
					break
				}
				if len(lits) > 0 {
					l := lits[len(lits)-1]
					if v.Pos() < l.Pos() || v.Pos() > l.End() {
						captured[v] = true
					}
				}
			}
			return true
		}
		ast.Inspect(a, visit)
	}
	r.mutable = map[types.Object]bool{}
	for o := range captured {
		if assigned[o] {
			r.mutable[o] = true
		}
	}
}

// shared: an addressable expression whose memory other tasks may reach.
func (r *rewriter) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		return ok && !v.IsField() && r.mutable[v]
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		return s.Indirect() || isPtr(r.typeOf(e.X)) || r.shared(e.X)
	case *ast.StarExpr:
		tv, ok := r.info.Types[e]
		return ok && tv.IsValue()
	case *ast.IndexExpr:
		t := r.typeOf(e.X)
		if tv, ok := r.info.Types[e.X]; t == nil || !ok || !tv.IsValue() {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			_, ok := u.Elem().Underlying().(*types.Array)
			return ok
		case *types.Array:
			return r.shared(e.X)
		}
	}
	return false
}

// access instruments one access in place.
func (r *rewriter) access(e ast.Expr) {
	if r.addrOnly[e] || !r.shared(e) {
		return
	}
	fn := "R"
	if r.lhs[e] {
		fn = "Wr"
	}
	site := r.site(e)
	r.replace(e, func(sub func(int, int) string) string {
		return "(*simrt." + fn + "(&" + sub(r.off(e.Pos()), r.off(e.End())) + ", " + site + "))"
	})
}

func (r *rewriter) raceSelector(m *ast.SelectorExpr) {
	s := r.info.Selections[m]
	if s == nil {
		return
	}
	switch s.Kind() {
	case types.FieldVal:
		r.access(m)
		if !isPtr(r.typeOf(m.X)) {
			r.addrOnly[ast.Unparen(m.X)] = true
		}
	case types.MethodVal:
		if f, ok := s.Obj().(*types.Func); ok {
			if recv := f.Type().(*types.Signature).Recv(); recv != nil && isPtr(recv.Type()) && !isPtr(r.typeOf(m.X)) {
				r.addrOnly[ast.Unparen(m.X)] = true
			}
		}
	}
}

// calls reports whether evaluating e may call something.
func (r *rewriter) calls(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			found = true
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *rewriter) raceAssign(m *ast.AssignStmt) {
	if m.Tok == token.DEFINE {
		for _, l := range m.Lhs {
			r.addrOnly[l] = true
		}
		return
	}
	calls := false
	for _, e := range m.Rhs {
		calls = calls || r.calls(e)
	}
	for _, l := range m.Lhs {
		e := ast.Unparen(l)
		r.lhs[e] = true
		if !calls {
			continue
		}
		// the value is computed first, the write happens after it
		if r.shared(e) && r.inList[m] && !r.calls(e) {
			text := string(r.src[r.off(e.Pos()):r.off(e.End())])
			if strings.ContainsAny(text, "\n") {
				r.addrOnly[e] = true
				continue
			}
			r.insert(m.End(), "; simrt.Wr(&"+text+", "+r.site(e)+")")
		}
		r.addrOnly[e] = true
	}
}

// raceCall handles calls that need care; true if the call is done with.
func (r *rewriter) raceCall(m *ast.CallExpr) bool {
	if path, _, _, ok := r.pkgSel(m.Fun); ok && (path == "C" || path == "unsafe") {
		return path == "C" || true
	}
	switch {
	case r.isBuiltin(m.Fun, "len"), r.isBuiltin(m.Fun, "cap"):
		if len(m.Args) == 1 {
			if t := r.typeOf(m.Args[0]); t != nil {
				switch u := t.Underlying().(type) {
				case *types.Array:
					return true
				case *types.Pointer:
					if _, ok := u.Elem().Underlying().(*types.Array); ok {
						return true
					}
				}
			}
		}
	case r.isBuiltin(m.Fun, "copy"):
		if len(m.Args) == 2 && isSlice(r.typeOf(m.Args[0])) && isSlice(r.typeOf(m.Args[1])) {
			site := r.site(m)
			r.replaceRange(m.Fun.Pos(), m.Lparen+1, func(func(int, int) string) string { return "simrt.Copy(" + site + ", " })
			r.walk(m.Args[0])
			r.walk(m.Args[1])
			return true
		}
	case r.isBuiltin(m.Fun, "append"):
		if len(m.Args) < 2 || !isSlice(r.typeOf(m.Args[0])) || r.info.Types[m.Args[0]].IsNil() {
			break
		}
		n := strconv.Itoa(len(m.Args) - 1)
		a, last := m.Args[0], m.Args[len(m.Args)-1]
		site := r.site(m)
		if m.Ellipsis.IsValid() {
			if r.calls(last) || !r.pureSlice(last) {
				break
			}
			n = "len(" + string(r.src[r.off(last.Pos()):r.off(last.End())]) + ")"
			if isSlice(r.typeOf(last)) {
				r.replace(last, func(sub func(int, int) string) string {
					return "simrt.RS(" + sub(r.off(last.Pos()), r.off(last.End())) + ", " + site + ")"
				})
			}
		}
		r.replace(a, func(sub func(int, int) string) string {
			return "simrt.Ap(" + sub(r.off(a.Pos()), r.off(a.End())) + ", " + n + ", " + site + ")"
		})
	}
	return false
}

// pureSlice: may be evaluated twice.
func (r *rewriter) pureSlice(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.ParenExpr:
		return r.pureSlice(e.X)
	case *ast.SelectorExpr:
		return r.pureSlice(e.X)
	case *ast.StarExpr:
		return r.pureSlice(e.X)
	case *ast.SliceExpr:
		for _, x := range []ast.Expr{e.Low, e.High, e.Max} {
			if x != nil && !r.pureSlice(x) {
				return false
			}
		}
		return r.pureSlice(e.X)
	case *ast.BinaryExpr:
		return r.pureSlice(e.X) && r.pureSlice(e.Y)
	case *ast.IndexExpr:
		return !isMap(r.typeOf(e.X)) && r.pureSlice(e.X) && r.pureSlice(e.Index)
	}
	return false
}

// noDither turns off the dither that libsoxr seeds from the clock: with it the samples of a run
// would not be a function of the seed. It is at most one unit per sample.
func noDither(text string) string {
	const inc = "#include <soxr.h>\n"
	return strings.Replace(text, inc, inc+`static soxr_t dst_soxr_create(double i, double o, unsigned ch, soxr_error_t *e,
	soxr_io_spec_t const *io, soxr_quality_spec_t const *q, soxr_runtime_spec_t const *r) {
	soxr_io_spec_t s;
	if (!io) return soxr_create(i, o, ch, e, io, q, r);
	s = *io;
	s.flags |= SOXR_NO_DITHER;
	return soxr_create(i, o, ch, e, &s, q, r);
}
#define soxr_create dst_soxr_create
`, 1)
}
