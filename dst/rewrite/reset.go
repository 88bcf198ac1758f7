package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

// Package-level state is part of a world: before each run it is put back to
// what it is when a process starts, so that no run depends on earlier ones in
// the same process. A package whose variables nothing but its initialisation
// can change is left alone (tables are expensive to build again).

type resetPlan struct {
	dirty bool                   // the variables have to be initialised again
	inits []*ast.FuncDecl        // every init function, in order
	rerun map[*ast.FuncDecl]bool // those that have effects outside or on dirty state
	vars  map[*ast.File][]*ast.ValueSpec
	embed map[types.Object]bool
}

func (r *rewriter) planReset(asts []*ast.File) *resetPlan {
	p := &resetPlan{rerun: map[*ast.FuncDecl]bool{}, vars: map[*ast.File][]*ast.ValueSpec{}, embed: map[types.Object]bool{}}
	decls := map[types.Object]*ast.FuncDecl{}
	var funcs []*ast.FuncDecl
	for _, a := range asts {
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				if d.Recv == nil && d.Name.Name == "init" {
					p.inits = append(p.inits, d)
					continue
				}
				funcs = append(funcs, d)
				if o := r.info.Defs[d.Name]; o != nil {
					decls[o] = d
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					s := s.(*ast.ValueSpec)
					if embedded(d.Doc) || embedded(s.Doc) {
						for _, n := range s.Names {
							p.embed[r.info.Defs[n]] = true
						}
						continue
					}
					if len(s.Values) == 0 {
						p.vars[a] = append(p.vars[a], s)
					}
				}
			}
		}
	}
	for _, f := range funcs {
		p.dirty = p.dirty || r.unsafeUse(f)
	}
	for _, a := range asts { // function values in variables
		for _, d := range a.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				ast.Inspect(g, func(n ast.Node) bool {
					if l, ok := n.(*ast.FuncLit); ok {
						p.dirty = p.dirty || r.unsafeUse(l)
						return false
					}
					return true
				})
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range p.inits {
			if p.rerun[f] {
				continue
			}
			if p.dirty {
				p.rerun[f] = true
				again = true
				continue
			}
			outside, unsafe := false, false
			seen := map[*ast.FuncDecl]bool{f: true}
			todo := []*ast.FuncDecl{f}
			for len(todo) > 0 {
				g := todo[0]
				todo = todo[1:]
				unsafe = unsafe || r.unsafeUse(g)
				ast.Inspect(g, func(n ast.Node) bool {
					id, ok := n.(*ast.Ident)
					if !ok {
						return true
					}
					o := r.info.Uses[id]
					if o == nil || o.Pkg() == nil {
						return true
					}
					if o.Pkg().Path() != r.pkg.ImportPath {
						switch o.(type) {
						case *types.Func, *types.Var:
							if r.target[o.Pkg().Path()] {
								outside = true
							}
						}
						return true
					}
					if d := decls[o]; d != nil && !seen[d] {
						seen[d] = true
						todo = append(todo, d)
					}
					return true
				})
			}
			if outside {
				p.rerun[f] = true
				again = true
				if unsafe {
					p.dirty = true
				}
			}
		}
	}
	return p
}

func embedded(c *ast.CommentGroup) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, "//go:embed") {
			return true
		}
	}
	return false
}

// unsafeUse reports whether a function may change a package variable or hand
// out memory reached from it.
func (r *rewriter) unsafeUse(f ast.Node) bool {
	var stack []ast.Node
	bad := false
	ast.Inspect(f, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if id, ok := n.(*ast.Ident); ok && !bad {
			if v, ok := r.info.Uses[id].(*types.Var); ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() && v.Pkg().Path() == r.pkg.ImportPath {
				bad = bad || !r.readOnly(id, v.Type(), stack)
			}
		}
		stack = append(stack, n)
		return true
	})
	return bad
}

func (r *rewriter) readOnly(cur ast.Expr, t types.Type, stack []ast.Node) bool {
	for i := len(stack) - 1; i >= 0; i-- {
		switch p := stack[i].(type) {
		case *ast.ParenExpr:
			cur = p
			continue
		case *ast.SelectorExpr:
			if p.X != cur {
				return false
			}
			s := r.info.Selections[p]
			if s == nil {
				return false
			}
			if s.Kind() == types.FieldVal && !s.Indirect() {
				cur, t = p, s.Type()
				continue
			}
			m, ok := s.Obj().(*types.Func)
			if !ok || !pointerFree(t, 0) {
				return false
			}
			recv := m.Type().(*types.Signature).Recv()
			return recv != nil && !isPtr(recv.Type())
		case *ast.IndexExpr:
			if p.Index == cur {
				return pointerFree(t, 0)
			}
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			default:
				return pointerFree(t, 0)
			}
			cur = p
			continue
		case *ast.SliceExpr:
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsString != 0
		case *ast.UnaryExpr:
			return p.Op != token.AND && pointerFree(t, 0)
		case *ast.IncDecStmt:
			return false
		case *ast.AssignStmt:
			for _, l := range p.Lhs {
				if l == cur {
					return false
				}
			}
		case *ast.RangeStmt:
			if p.Key == cur || p.Value == cur {
				return false
			}
			switch u := t.Underlying().(type) {
			case *types.Array:
				return pointerFree(u.Elem(), 0)
			case *types.Slice:
				return pointerFree(u.Elem(), 0)
			case *types.Map:
				return pointerFree(u.Elem(), 0) && pointerFree(u.Key(), 0)
			}
		case *ast.CallExpr:
			if r.isBuiltin(p.Fun, "len") || r.isBuiltin(p.Fun, "cap") {
				return true
			}
		}
		break
	}
	return pointerFree(t, 0) || types.Identical(t, types.Universe.Lookup("error").Type())
}

func pointerFree(t types.Type, depth int) bool {
	if depth > 10 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() != types.UnsafePointer && u.Kind() != types.Invalid
	case *types.Array:
		return pointerFree(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if n, ok := u.Field(i).Type().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), "sync") {
				return false
			}
			if !pointerFree(u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// renderSub is the rewritten text of a range; valid after render.
func (r *rewriter) renderSub(n ast.Node) string {
	from, to := r.off(n.Pos()), r.off(n.End())
	cur := r.root
	for {
		var in *node
		for _, k := range cur.children {
			if k.from != k.to && k.from <= from && to <= k.to && !(k.from == from && k.to == to) {
				in = k
			}
		}
		if in == nil {
			return r.renderRange(from, to, cur.children)
		}
		cur = in
	}
}

// resetFuncs writes the functions that initialise a file's variables again.
func (r *rewriter) resetFuncs(p *resetPlan, a *ast.File) string {
	var b strings.Builder
	if !p.dirty {
		return ""
	}
	for _, s := range p.vars[a] {
		for _, n := range s.Names {
			if n.Name == "_" {
				continue
			}
			r.zero = append(r.zero, fmt.Sprintf("simZero_%s()", n.Name))
			fmt.Fprintf(&b, "\nfunc simZero_%s() { var z %s; %s = z }\n", n.Name, r.renderSub(s.Type), n.Name)
		}
	}
	for i, in := range r.info.InitOrder {
		if in.Rhs.Pos() < a.FileStart || in.Rhs.Pos() >= a.FileEnd {
			continue
		}
		var names []string
		blank, embed := true, false
		for _, v := range in.Lhs {
			names = append(names, v.Name())
			blank = blank && v.Name() == "_"
			embed = embed || p.embed[v]
		}
		if blank || embed {
			continue
		}
		r.again[i] = fmt.Sprintf("simAgain_%d()", i)
		fmt.Fprintf(&b, "\nfunc simAgain_%d() { %s = %s }\n", i, strings.Join(names, ", "), r.renderSub(in.Rhs))
	}
	return b.String()
}

// resetFile ties them together.
func (r *rewriter) resetFile(p *resetPlan, outDir string) error {
	if !p.dirty && len(p.inits) == 0 {
		return nil
	}
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport simrt \"simw/simrt\"\n\nfunc init() {\n", r.pkg.Name)
	for i := range p.inits {
		fmt.Fprintf(&b, "\tsimInit_%d()\n", i)
	}
	b.WriteString("\tsimrt.OnReset(func() {\n")
	if p.dirty {
		for _, z := range r.zero {
			fmt.Fprintf(&b, "\t\t%s\n", z)
		}
		for i := range r.info.InitOrder {
			if c := r.again[i]; c != "" {
				fmt.Fprintf(&b, "\t\t%s\n", c)
			}
		}
	}
	for i, f := range p.inits {
		if p.rerun[f] {
			fmt.Fprintf(&b, "\t\tsimInit_%d()\n", i)
		}
	}
	b.WriteString("\t})\n}\n")
	return os.WriteFile(filepath.Join(outDir, "zz_sim_reset.go"), []byte(b.String()), 0o644)
}
