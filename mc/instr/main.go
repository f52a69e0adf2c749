// instr rewrites the Go files of one or more packages so that every source of
// nondeterminism goes through the vrt runtime.  It is purely mechanical: it
// looks at types and standard-library identities, never at the code's text.
//
//	instr -repo /repo -out DIR -overlay FILE.json [-add OVERLAYDIR=SRC ...] pkgdir...
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

const vrtPath = "github.com/childe/healer/vrt"
const V = "vrt__"

// table: package path -> name -> vrt name
var table = map[string]map[string]string{
	"sync": {"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond", "NewCond": "NewCond", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues"},
	"time": {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "Timer": "Timer", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc",
		"After": "After", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "Tick"},
	"context":    {"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "Cause": "Cause", "WithDeadline": "WithDeadline", "WithTimeout": "WithTimeout", "WithDeadlineCause": "WithDeadlineCause", "WithTimeoutCause": "WithTimeoutCause", "AfterFunc": "ContextAfterFunc"},
	"os":         {"Exit": "OsExit"},
	"os/signal":  {"Notify": "SignalNotify", "Stop": "SignalStop", "NotifyContext": "SignalNotifyContext"},
	"net/http":   {"ListenAndServe": "HTTPListen"},
	"net":        {"Dialer": "Dialer", "Dial": "NetDial", "DialTimeout": "NetDialTimeout"},
	"crypto/tls": {"DialWithDialer": "TLSDialWithDialer", "Dial": "TLSDial", "Dialer": "TLSDialer", "Client": "TLSClient"},
	"maps":       {"Keys": "MapKeys", "Values": "MapValues", "All": "MapAll"},
	"math/rand": {"Intn": "RandIntn", "Int31n": "RandInt31n", "Int63n": "RandInt63n", "Int": "RandInt", "Int31": "RandInt31", "Int63": "RandInt63",
		"Uint32": "RandUint32", "Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle", "Seed": "RandSeed"},
	"math/rand/v2": {"IntN": "RandN", "Int32N": "RandN", "Int64N": "RandN", "UintN": "RandN", "Uint32N": "RandN", "Uint64N": "RandN", "N": "RandN", "Int": "RandInt",
		"Float64": "RandFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
}

type rewriter struct {
	info   *types.Info
	fset   *token.FileSet
	pkg    *types.Package
	n      int
	used   bool
	shared map[*types.Named]bool
	vars   map[types.Object]bool // package variables that functions change
	all    bool                  // the function uses one of them
}

func (r *rewriter) tmp(p string) string { r.n++; return fmt.Sprintf("_v%s%d", p, r.n) }

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rewriter) v(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: id(V), Sel: id(name)}
}

func (r *rewriter) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.v(name), Args: args}
}

func (r *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) builtin(e ast.Expr, name string) bool {
	i, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = r.info.Uses[i].(*types.Builtin)
	return ok
}

// ---- generic traversal -------------------------------------------------

var exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
var stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()

// walk rewrites all children of n.
func (r *rewriter) walk(n ast.Node) {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return
	}
	v := reflect.ValueOf(n).Elem()
	r.walkVal(v)
}

func (r *rewriter) walkVal(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			if name == "Obj" || name == "Scope" || name == "Unresolved" || name == "Comments" || name == "Imports" || name == "Doc" {
				continue
			}
			r.walkField(v.Field(i))
		}
	}
}

func (r *rewriter) walkField(f reflect.Value) {
	switch {
	case f.Type() == exprT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.expr(f.Interface().(ast.Expr))))
		}
	case f.Type() == stmtT:
		if !f.IsNil() {
			f.Set(reflect.ValueOf(r.stmt1(f.Interface().(ast.Stmt))))
		}
	case f.Kind() == reflect.Slice:
		if f.Type().Elem() == stmtT {
			f.Set(reflect.ValueOf(r.stmts(f.Interface().([]ast.Stmt))))
			return
		}
		for i := 0; i < f.Len(); i++ {
			r.walkField(f.Index(i))
		}
	case f.Kind() == reflect.Ptr:
		if !f.IsNil() {
			if n, ok := f.Interface().(ast.Node); ok {
				switch n := n.(type) {
				case *ast.CallExpr: // e.g. DeferStmt.Call
					e := r.expr(n)
					if c, ok := e.(*ast.CallExpr); ok {
						f.Set(reflect.ValueOf(c))
					} else {
						lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}}
						f.Set(reflect.ValueOf(&ast.CallExpr{Fun: lit}))
					}
				default:
					r.walk(n)
				}
			}
		}
	case f.Kind() == reflect.Interface:
		if !f.IsNil() {
			if n, ok := f.Interface().(ast.Node); ok {
				r.walk(n)
			}
		}
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case *ast.SelectorExpr:
		if x, ok := n.X.(*ast.Ident); ok {
			if p, ok := r.info.Uses[x].(*types.PkgName); ok {
				if m := table[p.Imported().Path()]; m != nil {
					if to, ok := m[n.Sel.Name]; ok {
						return r.v(to)
					}
				}
				return e
			}
		}
		n.X = r.expr(n.X)
		return n
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			return r.call("Recv", r.expr(n.X))
		}
	case *ast.CallExpr:
		if len(n.Args) == 1 {
			if r.builtin(n.Fun, "close") {
				return r.call("Close", r.expr(n.Args[0]))
			}
			if r.builtin(n.Fun, "len") && isChan(r.typ(n.Args[0])) {
				return r.call("Len", r.expr(n.Args[0]))
			}
		}
		// a web server: the handler is handed to vrt
		if s, ok := ast.Unparen(n.Fun).(*ast.SelectorExpr); ok {
			if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil {
				switch f.FullName() {
				case "(*github.com/gin-gonic/gin.Engine).Run":
					args := []ast.Expr{r.expr(s.X)}
					for _, a := range n.Args {
						args = append(args, r.expr(a))
					}
					return r.call("HTTPRun", args...)
				case "(*net/http.Server).ListenAndServe", "(*net/http.Server).Serve":
					return r.call("HTTPServer", r.expr(s.X))
				}
			}
		}
	case *ast.KeyValueExpr:
		// struct literal keys must not be rewritten
		if _, ok := n.Key.(*ast.Ident); !ok {
			n.Key = r.expr(n.Key)
		}
		n.Value = r.expr(n.Value)
		return n
	case *ast.Ident, *ast.BasicLit:
		return e
	}
	r.walk(e)
	return e
}

func (r *rewriter) stmt1(s ast.Stmt) ast.Stmt {
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		pre := r.prePoints(s)
		res := r.stmt(s)
		out = append(out, pre...)
		out = append(out, res...)
	}
	return out
}

func arrow(e ast.Expr) *ast.UnaryExpr {
	u, ok := ast.Unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt {
	switch n := s.(type) {
	case *ast.SendStmt:
		c := r.call("SendC", r.expr(n.Chan))
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: c, Args: []ast.Expr{r.expr(n.Value)}}}}
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := arrow(n.Rhs[0]); u != nil {
				for i := range n.Lhs {
					n.Lhs[i] = r.expr(n.Lhs[i])
				}
				n.Rhs[0] = r.call("Recv2", r.expr(u.X))
				return []ast.Stmt{n}
			}
		}
	case *ast.DeclStmt:
		if g, ok := n.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
					if u := arrow(vs.Values[0]); u != nil {
						vs.Values[0] = r.call("Recv2", r.expr(u.X))
					}
				}
			}
		}
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.LabeledStmt:
		switch in := n.Stmt.(type) {
		case *ast.SelectStmt:
			return r.selectStmt(in, n.Label)
		default:
			l := r.stmt(n.Stmt)
			n.Stmt = l[len(l)-1]
			return append(l[:len(l)-1:len(l)-1], n)
		}
	case *ast.SelectStmt:
		return r.selectStmt(n, nil)
	case *ast.RangeStmt:
		t := r.typ(n.X)
		if isChan(t) {
			return r.rangeChan(n)
		}
		if isMap(t) {
			return r.rangeMap(n)
		}
	case *ast.ForStmt:
		// the condition is evaluated on every iteration
		if n.Cond != nil && r.touches(n.Cond) {
			r.walk(n)
			n.Body.List = append([]ast.Stmt{r.pstmt()}, n.Body.List...)
			return []ast.Stmt{n}
		}
	}
	r.walk(s)
	return []ast.Stmt{s}
}

func (r *rewriter) goStmt(n *ast.GoStmt) []ast.Stmt {
	call := n.Call
	var pre []ast.Stmt
	_, isLit := call.Fun.(*ast.FuncLit)
	if i, ok := call.Fun.(*ast.Ident); ok {
		if _, b := r.info.Uses[i].(*types.Builtin); b {
			e := r.expr(call)
			return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: e}}}})}}
		}
	}
	consts := make([]bool, len(call.Args))
	for i, a := range call.Args {
		if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
			consts[i] = true
		}
	}
	fun := r.expr(call.Fun)
	args := make([]ast.Expr, len(call.Args))
	for i, a := range call.Args {
		args[i] = r.expr(a)
	}
	if isLit && len(args) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.call("Go", wrapVoid(fun, r.resultCount(n)))}}
	}
	f := r.tmp("f")
	pre = append(pre, define(f, fun))
	nargs := make([]ast.Expr, len(args))
	for i, a := range args {
		if consts[i] {
			nargs[i] = a
			continue
		}
		t := r.tmp("a")
		pre = append(pre, define(t, a))
		nargs[i] = id(t)
	}
	inner := &ast.CallExpr{Fun: id(f), Args: nargs, Ellipsis: call.Ellipsis}
	lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", lit)})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (r *rewriter) resultCount(n *ast.GoStmt) int {
	lit := n.Call.Fun.(*ast.FuncLit)
	if lit.Type.Results == nil {
		return 0
	}
	return lit.Type.Results.NumFields()
}

func wrapVoid(f ast.Expr, results int) ast.Expr {
	if results == 0 {
		return f
	}
	return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: f}}}}}
}

func (r *rewriter) selectStmt(n *ast.SelectStmt, label *ast.Ident) []ast.Stmt {
	if len(n.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.call("BlockForever")}}
	}
	var pre []ast.Stmt
	hasDefault := "false"
	var cases []ast.Expr
	sel := r.tmp("s")
	var clauses []ast.Stmt
	idx := 0
	var defBody *ast.CaseClause
	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause)
		body := r.stmts(cc.Body)
		if cc.Comm == nil {
			hasDefault = "true"
			defBody = &ast.CaseClause{Body: body}
			continue
		}
		ch := r.tmp("c")
		var first []ast.Stmt
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			pre = append(pre, define(ch, &ast.CallExpr{Fun: r.call("CS", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}}))
			cases = append(cases, id(ch))
		case *ast.ExprStmt:
			u := arrow(cm.X)
			pre = append(pre, define(ch, r.expr(u.X)))
			cases = append(cases, r.call("CR", id(ch)))
		case *ast.AssignStmt:
			u := arrow(cm.Rhs[0])
			pre = append(pre, define(ch, r.expr(u.X)))
			cases = append(cases, r.call("CR", id(ch)))
			fn := "SelRecv"
			if len(cm.Lhs) == 2 {
				fn = "SelRecv2"
			}
			lhs := make([]ast.Expr, len(cm.Lhs))
			for i := range cm.Lhs {
				lhs[i] = r.expr(cm.Lhs[i])
			}
			first = append(first, &ast.AssignStmt{Lhs: lhs, Tok: cm.Tok, Rhs: []ast.Expr{r.call(fn, id(ch), id(sel))}})
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}, Body: append(first, body...)})
		idx++
	}
	if defBody != nil {
		clauses = append(clauses, defBody)
	} else {
		// keeps "missing return" analysis happy: a select without default is terminating
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"vrt: select"`}}}}}})
	}
	args := append([]ast.Expr{id(hasDefault)}, cases...)
	pre = append(pre, define(sel, r.call("Select", args...)))
	var sw ast.Stmt = &ast.SwitchStmt{Tag: &ast.SelectorExpr{X: id(sel), Sel: id("I")}, Body: &ast.BlockStmt{List: clauses}}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	pre = append(pre, sw)
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (r *rewriter) rangeChan(n *ast.RangeStmt) []ast.Stmt {
	c := r.tmp("c")
	ok := r.tmp("ok")
	x := r.expr(n.X)
	body := r.stmts(n.Body.List)
	var first []ast.Stmt
	brk := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
	if n.Key == nil || isBlank(n.Key) {
		first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{id("_"), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", id(c))}}, brk)
	} else if n.Tok == token.DEFINE {
		first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{n.Key, id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", id(c))}}, brk)
	} else {
		t := r.tmp("t")
		first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{id(t), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", id(c))}}, brk,
			&ast.AssignStmt{Lhs: []ast.Expr{r.expr(n.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}})
	}
	return []ast.Stmt{&ast.ForStmt{Init: define(c, x), Body: &ast.BlockStmt{List: append(first, body...)}}}
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (r *rewriter) rangeMap(n *ast.RangeStmt) []ast.Stmt {
	m := r.tmp("m")
	k := r.tmp("k")
	val := r.tmp("e")
	ok := r.tmp("ok")
	x := r.expr(n.X)
	body := r.stmts(n.Body.List)
	// { m := X; for _, k := range vrt.Keys(m) { e, ok := m[k]; if !ok {continue}; KEY := k; VAL := e; body } }
	var first []ast.Stmt
	first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{id(val), id(ok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(m), Index: id(k)}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(val)}})
	if n.Key != nil && !isBlank(n.Key) {
		first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(n.Key, n.Tok)}, Tok: n.Tok, Rhs: []ast.Expr{id(k)}})
	}
	if n.Value != nil && !isBlank(n.Value) {
		first = append(first, &ast.AssignStmt{Lhs: []ast.Expr{r.lhs(n.Value, n.Tok)}, Tok: n.Tok, Rhs: []ast.Expr{id(val)}})
	}
	// the map is evaluated once in Keys' argument position to keep the statement a single (labelable) loop
	outer := &ast.RangeStmt{Key: id("_"), Value: id(k), Tok: token.DEFINE, X: r.call("Keys", id(m)), Body: &ast.BlockStmt{List: append(first, body...)}}
	return []ast.Stmt{define(m, x), outer}
}

func (r *rewriter) lhs(e ast.Expr, tok token.Token) ast.Expr {
	if tok == token.DEFINE {
		return e
	}
	return r.expr(e)
}

// ---- statement-level points on shared objects ---------------------------

func (r *rewriter) pstmt() ast.Stmt { return &ast.ExprStmt{X: r.call("P")} }

// isShared: a struct with a lock, channel, context or wait group inside is an
// object meant to be used by several goroutines.
func (r *rewriter) isShared(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	nm, ok := t.(*types.Named)
	if !ok || nm.Obj().Pkg() != r.pkg {
		return false
	}
	if v, ok := r.shared[nm]; ok {
		return v
	}
	r.shared[nm] = false
	st, ok := nm.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	res := false
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if isChan(ft) {
			res = true
		}
		if p, ok := ft.(*types.Pointer); ok {
			ft = p.Elem()
		}
		if n2, ok := ft.(*types.Named); ok && n2.Obj().Pkg() != nil {
			switch n2.Obj().Pkg().Path() {
			case "sync", "sync/atomic", "context":
				res = true
			}
		}
	}
	r.shared[nm] = res
	return res
}

// fieldSel reports whether e selects a field of a shared object.
func (r *rewriter) fieldSel(e ast.Expr) bool {
	se, ok := e.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	s, ok := r.info.Selections[se]
	if !ok || s.Kind() != types.FieldVal {
		return false
	}
	return r.isShared(s.Recv())
}

// touches: the node itself (not nested blocks or function literals) uses a field of a shared object.
func (r *rewriter) touches(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return c == n
		case ast.Expr:
			if r.fieldSel(c) {
				found = true
			}
		}
		return !found
	})
	return found
}

// rootVar is the package variable that e is a part of.
func (r *rewriter) rootVar(e ast.Expr) types.Object {
	for {
		switch n := e.(type) {
		case *ast.ParenExpr:
			e = n.X
		case *ast.IndexExpr:
			e = n.X
		case *ast.SliceExpr:
			e = n.X
		case *ast.StarExpr:
			e = n.X
		case *ast.SelectorExpr:
			e = n.X
		case *ast.Ident:
			if v, ok := r.info.Uses[n].(*types.Var); ok && v.Parent() == r.pkg.Scope() {
				return v
			}
			return nil
		default:
			return nil
		}
	}
}

var errorT = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// findVars finds the package variables that hold state shared by all users of
// the package: functions change them, or what they point to.
func (r *rewriter) findVars(files []*ast.File) {
	r.vars = map[types.Object]bool{}
	mark := func(e ast.Expr) {
		v := r.rootVar(e)
		if v == nil || types.Implements(v.Type(), errorT) || types.Implements(types.NewPointer(v.Type()), errorT) {
			return
		}
		if nm, ok := v.Type().(*types.Named); ok && nm.Obj().Pkg() != nil {
			switch nm.Obj().Pkg().Path() {
			case "sync", "sync/atomic", "github.com/go-logr/logr":
				return
			}
		}
		r.vars[v] = true
	}
	ref := func(e ast.Expr) { // what it refers to may be changed
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok || r.rootVar(id) == nil {
			return
		}
		switch t := r.typ(id).Underlying().(type) {
		case *types.Slice:
			mark(id)
		case *types.Pointer:
			if nm, ok := t.Elem().(*types.Named); ok && nm.Obj().Pkg() != nil {
				switch nm.Obj().Pkg().Path() {
				case "hash/crc32", "regexp", "github.com/spf13/cobra": // read only
					return
				}
			}
			mark(id)
		}
	}
	for _, af := range files {
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						for _, l := range n.Lhs {
							mark(l)
						}
					}
					for _, x := range n.Rhs {
						ref(x)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				case *ast.SliceExpr:
					mark(n.X)
				case *ast.CallExpr:
					if tv, ok := r.info.Types[n.Fun]; ok && tv.IsBuiltin() && !r.builtin(n.Fun, "copy") && !r.builtin(n.Fun, "append") && !r.builtin(n.Fun, "delete") && !r.builtin(n.Fun, "clear") {
						return true
					}
					for _, a := range n.Args {
						ref(a)
					}
				case *ast.SelectorExpr:
					sel, ok := r.info.Selections[n]
					if !ok || sel.Kind() != types.MethodVal {
						return true
					}
					sig, ok := sel.Obj().Type().(*types.Signature)
					if !ok || sig.Recv() == nil {
						return true
					}
					if _, ok := sig.Recv().Type().(*types.Pointer); ok {
						if _, ptr := r.typ(n.X).Underlying().(*types.Pointer); ptr {
							ref(n.X)
						} else {
							mark(n.X)
						}
					}
				}
				return true
			})
		}
	}
	if os.Getenv("INSTR_VARS") != "" {
		for v := range r.vars {
			fmt.Fprintln(os.Stderr, "var", v)
		}
	}
}

// usesVars: the function uses a variable that findVars found.
func (r *rewriter) usesVars(fd *ast.FuncDecl) bool {
	found := false
	if fd.Body == nil {
		return false
	}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && r.vars[r.info.Uses[i]] {
			found = true
		}
		return !found
	})
	return found
}

func (r *rewriter) prePoints(s ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	switch s.(type) {
	case *ast.BlockStmt, *ast.LabeledStmt, *ast.EmptyStmt, *ast.BranchStmt, *ast.DeclStmt, *ast.CaseClause, *ast.CommClause:
		return nil
	}
	if r.all || r.touches(s) {
		out = append(out, r.pstmt())
	}
	// map accesses on fields of shared objects
	type acc struct {
		e ast.Expr
		w bool
	}
	var accs []acc
	add := func(e ast.Expr, w bool) {
		if r.fieldSel(e) && isMap(r.typ(e)) && pure(e) {
			for _, a := range accs {
				if exprString(a.e) == exprString(e) && (a.w || !w) {
					return
				}
			}
			accs = append(accs, acc{e, w})
		}
	}
	if as, ok := s.(*ast.AssignStmt); ok {
		for _, l := range as.Lhs {
			if ix, ok := l.(*ast.IndexExpr); ok {
				add(ix.X, true)
			}
		}
	}
	ast.Inspect(s, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.BlockStmt, *ast.FuncLit, *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.IndexExpr:
			add(c.X, false)
		case *ast.CallExpr:
			if len(c.Args) > 0 && r.builtin(c.Fun, "delete") {
				add(c.Args[0], true)
			}
		case *ast.RangeStmt:
			add(c.X, false)
		}
		return true
	})
	for _, a := range accs {
		w := "false"
		if a.w {
			w = "true"
		}
		out = append(out, &ast.ExprStmt{X: r.call("MapAcc", clone(a.e), id(w))})
	}
	return out
}

// pure: ident(.ident)*
func pure(e ast.Expr) bool {
	switch n := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(n.X)
	}
	return false
}

func clone(e ast.Expr) ast.Expr {
	switch n := e.(type) {
	case *ast.Ident:
		return id(n.Name)
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(n.X), Sel: id(n.Sel.Name)}
	}
	panic("clone")
}

func exprString(e ast.Expr) string { return types.ExprString(e) }

// ---- driver --------------------------------------------------------------

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
}

type multi []string

func (m *multi) String() string     { return strings.Join(*m, ",") }
func (m *multi) Set(s string) error { *m = append(*m, s); return nil }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(2)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	overlay := flag.String("overlay", "", "")
	var adds multi
	flag.Var(&adds, "add", "reldir=srcdir: overlay all .go files of srcdir into repo/reldir")
	flag.Parse()
	replace := map[string]string{}
	must(os.MkdirAll(*out, 0o755))
	for _, a := range adds {
		p := strings.SplitN(a, "=", 2)
		ents, err := os.ReadDir(p[1])
		must(err)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				replace[filepath.Join(*repo, p[0], e.Name())] = filepath.Join(p[1], e.Name())
			}
		}
	}
	for _, dir := range flag.Args() {
		instrument(*repo, dir, *out, replace)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	must(os.WriteFile(*overlay, b, 0o644))
}

func instrument(repo, dir, out string, replace map[string]string) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles", "./"+dir)
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	must(err)
	exports := map[string]string{}
	var target listPkg
	dec := json.NewDecoder(bytes.NewReader(o))
	abs, _ := filepath.Abs(filepath.Join(repo, dir))
	for dec.More() {
		var p listPkg
		must(dec.Decode(&p))
		exports[p.ImportPath] = p.Export
		if p.Dir == abs {
			target = p
		}
	}
	if target.Dir == "" {
		must(fmt.Errorf("package %s not listed", dir))
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	var files []*ast.File
	for _, f := range target.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(target.Dir, f), nil, 0)
		must(err)
		files = append(files, af)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(e error) { fmt.Fprintln(os.Stderr, "instr: types:", e) }}
	pkg, err := conf.Check(target.ImportPath, fset, files, info)
	must(err)
	odir := filepath.Join(out, strings.ReplaceAll(dir, "/", "_"))
	must(os.MkdirAll(odir, 0o755))
	r := &rewriter{info: info, fset: fset, pkg: pkg, shared: map[*types.Named]bool{}}
	r.findVars(files)
	for i, af := range files {
		r.used = false
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			r.all = ok && r.usesVars(fd)
			r.walk(d)
		}
		fixImports(af, info, r.used)
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.TabIndent | printer.UseSpaces, Tabwidth: 8}
		must(cfg.Fprint(&buf, fset, af))
		dst := filepath.Join(odir, target.GoFiles[i])
		must(os.WriteFile(dst, buf.Bytes(), 0o644))
		replace[filepath.Join(target.Dir, target.GoFiles[i])] = dst
	}
}

func fixImports(af *ast.File, info *types.Info, addVrt bool) {
	usedPk := map[string]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if p, ok := info.Uses[i].(*types.PkgName); ok {
				usedPk[p.Name()] = true
			}
		}
		return true
	})
	var decls []ast.Decl
	for _, d := range af.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		var specs []ast.Spec
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			var name string
			if is.Name != nil {
				name = is.Name.Name
			} else if o, ok := info.Implicits[is].(*types.PkgName); ok {
				name = o.Name()
			}
			if name == "_" || name == "." || usedPk[name] {
				specs = append(specs, s)
			}
		}
		if len(specs) > 0 {
			g.Specs = specs
			if !g.Lparen.IsValid() && len(specs) > 1 {
				g.Lparen = g.Pos()
			}
			decls = append(decls, g)
		}
	}
	if addVrt {
		sp := &ast.ImportSpec{Name: id(V), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(vrtPath)}}
		decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{sp}}}, decls...)
	}
	af.Decls = decls
}
