// Reads Go files and writes down what they declare, in a form that can be compared line by line.
//
// Input: records of the form "<key> <length>\n<content>\n". Output, per record: "== <key>" and the
// blocks of the file, where each declaration starts a block and what belongs to it is indented.
package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
)

type out struct {
	b       *strings.Builder
	notes   map[string]bool
	fset    *token.FileSet
	src     []byte
	asserts []ast.Node
}

func (o *out) line(f string, a ...any) { fmt.Fprintf(o.b, f+"\n", a...) }
func (o *out) note(s string)           { o.notes[s] = true }
func (o *out) raw(n ast.Node) string {
	a, b := o.fset.Position(n.Pos()).Offset, o.fset.Position(n.End()).Offset
	if a < 0 || b > len(o.src) || a > b {
		return "<?>"
	}
	return strings.Join(strings.Fields(string(o.src[a:b])), " ")
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	for {
		h, err := in.ReadString('\n')
		if err == io.EOF {
			return
		}
		var key string
		var n int
		if _, err := fmt.Sscanf(h, "%s %d", &key, &n); err != nil {
			panic(err)
		}
		src := make([]byte, n+1)
		if _, err := io.ReadFull(in, src); err != nil {
			panic(err)
		}
		fmt.Fprintf(w, "== %s\n", key)
		w.WriteString(describe(src[:n]))
	}
}

type noImport struct{}

func (noImport) Import(string) (*types.Package, error) { return nil, fmt.Errorf("none") }

func describe(src []byte) string {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, "f.go", src, parser.ParseComments|parser.SkipObjectResolution)
	if err != nil {
		return "syntax " + strings.ReplaceAll(err.Error(), "\n", " ") + "\n"
	}
	o := &out{b: &strings.Builder{}, notes: map[string]bool{}, fset: fset, src: src}
	o.file(file)
	// names that are not declared, or declared twice; packages can't be looked into
	errs := map[string]bool{}
	conf := types.Config{Importer: noImport{}, Error: func(e error) {
		if te, ok := e.(types.Error); ok {
			m := te.Msg
			if strings.HasPrefix(m, "undefined: ") || strings.Contains(m, "redeclared") || strings.Contains(m, "already declared") || strings.HasPrefix(m, "duplicate ") {
				if o.inAssert(te.Pos) {
					o.note("assertion " + m)
					return
				}
				errs[strings.ReplaceAll(m, "\n", " ")] = true
			}
		}
	}}
	_, _ = conf.Check("p", fset, []*ast.File{file}, nil)
	for _, m := range [2]map[string]bool{errs, o.notes} {
		var l []string
		for e := range m {
			l = append(l, e)
		}
		sort.Strings(l)
		for _, e := range l {
			if _, isErr := errs[e]; isErr {
				o.line("name %s", e)
			} else {
				o.line("note %s", e)
			}
		}
	}
	return o.b.String()
}

func (o *out) doc(ind string, g *ast.CommentGroup) {
	if g == nil {
		return
	}
	for _, c := range g.List {
		o.line("%sdoc %s", ind, strconv.Quote(strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))))
	}
}

func (o *out) file(f *ast.File) {
	o.line("package %s", f.Name.Name)
	o.doc("  ", f.Doc)
	used := map[*ast.CommentGroup]bool{f.Doc: true}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			used[d.Doc] = true
			for _, s := range d.Specs {
				o.spec(d, s, used)
			}
		case *ast.FuncDecl:
			used[d.Doc] = true
			o.fun(d)
		}
	}
	for _, g := range f.Comments {
		if !used[g] && !(g.Pos() < f.Package) {
			o.line("loose comment %s", strconv.Quote(g.Text()))
		}
	}
}

func (o *out) generics(l *ast.FieldList) string {
	if l == nil {
		return ""
	}
	var v []string
	for _, f := range l.List {
		for _, n := range f.Names {
			v = append(v, n.Name+" "+types.ExprString(f.Type))
		}
	}
	return "[" + strings.Join(v, ", ") + "]"
}

// Whether the place is part of a `var _ T = ...`.
func (o *out) inAssert(p token.Pos) bool {
	for _, a := range o.asserts {
		if a.Pos() <= p && p <= a.End() {
			return true
		}
	}
	return false
}

func (o *out) spec(d *ast.GenDecl, s ast.Spec, used map[*ast.CommentGroup]bool) {
	doc := d.Doc
	switch s := s.(type) {
	case *ast.ImportSpec:
		n := ""
		if s.Name != nil {
			n = s.Name.Name
		}
		o.line("import %s %s", n, s.Path.Value)
	case *ast.TypeSpec:
		if s.Doc != nil {
			doc = s.Doc
			used[doc] = true
		}
		head := s.Name.Name + o.generics(s.TypeParams)
		switch t := s.Type.(type) {
		case *ast.StructType:
			o.line("struct %s", head)
			o.doc("  ", doc)
			for _, f := range t.Fields.List {
				used[f.Doc] = true
				if len(f.Names) == 0 {
					o.line("  embedded %s", types.ExprString(f.Type))
				}
				for _, n := range f.Names {
					o.line("  field %s %s", n.Name, types.ExprString(f.Type))
					o.doc("    ", f.Doc)
				}
			}
		case *ast.InterfaceType:
			o.line("interface %s", head)
			o.doc("  ", doc)
			for _, m := range t.Methods.List {
				for _, n := range m.Names {
					o.line("  method %s %s", n.Name, types.ExprString(m.Type))
				}
				if len(m.Names) == 0 {
					o.line("  element %s", types.ExprString(m.Type))
				}
			}
		default:
			// both forms declare the name for the target
			o.line("type %s = %s", head, types.ExprString(s.Type))
			o.doc("  ", doc)
		}
	case *ast.ValueSpec:
		if s.Doc != nil {
			doc = s.Doc
			used[doc] = true
		}
		t := ""
		if s.Type != nil {
			t = types.ExprString(s.Type)
		}
		for i, n := range s.Names {
			v := "none"
			if i < len(s.Values) {
				v = o.value(s.Values[i])
				if t == "float32" || t == "float64" {
					v = o.float(s.Values[i])
				}
			}
			if n.Name == "_" {
				if i < len(s.Values) {
					v = types.ExprString(s.Values[i])
				}
				o.asserts = append(o.asserts, s)
				o.line("assert %s = %s", t, v)
			} else {
				o.line("%s %s %s = %s", d.Tok, n.Name, t, v)
			}
			o.doc("  ", doc)
		}
	}
}

// The value of a constant, in a form that does not depend on how it is written.
func (o *out) value(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.BasicLit:
		switch e.Kind {
		case token.STRING:
			s, err := strconv.Unquote(e.Value)
			if err != nil {
				return "?" + e.Value
			}
			return "string " + hex.EncodeToString([]byte(s))
		case token.INT, token.FLOAT:
			return number(constant.MakeFromLiteral(e.Value, e.Kind, 0))
		}
	case *ast.UnaryExpr:
		if l, ok := e.X.(*ast.BasicLit); ok && (e.Op == token.SUB || e.Op == token.ADD) {
			return number(constant.UnaryOp(e.Op, constant.MakeFromLiteral(l.Value, l.Kind, 0), 0))
		}
	case *ast.Ident:
		if e.Name == "true" || e.Name == "false" {
			return "bool " + e.Name
		}
	case *ast.CompositeLit:
		if types.ExprString(e.Type) == "[]byte" {
			b := []byte{}
			for _, x := range e.Elts {
				l, ok := x.(*ast.BasicLit)
				if !ok {
					return "?" + o.raw(e)
				}
				n, err := strconv.ParseUint(l.Value, 0, 8)
				if err != nil {
					return "?" + o.raw(e)
				}
				b = append(b, byte(n))
			}
			return "bytes " + hex.EncodeToString(b)
		}
	}
	return "?" + o.raw(e)
}
func (o *out) float(e ast.Expr) string {
	neg := false
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.SUB {
		neg, e = true, u.X
	}
	l, ok := e.(*ast.BasicLit)
	if !ok || l.Kind != token.INT && l.Kind != token.FLOAT {
		return "?" + o.raw(e)
	}
	f, _ := constant.Float64Val(constant.ToFloat(constant.MakeFromLiteral(l.Value, l.Kind, 0)))
	if neg && f != 0 {
		f = -f
	}
	return "float " + strconv.FormatUint(math.Float64bits(f), 16)
}
func number(v constant.Value) string {
	if i := constant.ToInt(v); i.Kind() == constant.Int {
		return "number " + i.ExactString()
	}
	f, _ := constant.Float64Val(v)
	return "float " + strconv.FormatUint(math.Float64bits(f), 16)
}

func (o *out) fun(d *ast.FuncDecl) {
	name := d.Name.Name
	recv, ptr := "", ""
	env := scope{}
	if d.Recv != nil && len(d.Recv.List) == 1 {
		r := d.Recv.List[0]
		t := r.Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
			ptr = "*"
		}
		recv = types.ExprString(t)
		if len(r.Names) == 1 {
			env[r.Names[0].Name] = "R"
		}
	}
	sig := types.ExprString(d.Type)
	switch {
	case recv == "" && strings.HasPrefix(name, "New"):
		o.constructor(d)
	case name == "sealed" && sig == "func()" && len(d.Body.List) == 0:
		o.line("sealed %s%s", ptr, recv)
	case name == "Encode" && sig == "func(w []byte) []byte":
		o.line("encode %s%s", ptr, recv)
		env["w"] = "W"
		o.encode(d.Body, env, recv)
	case name == "Decode" && sig == "func(r []byte) ([]byte, error)":
		o.line("decode %s%s", ptr, recv)
		env["r"] = "W"
		o.decode(d.Body, env)
	case name == "Size" && sig == "func() int":
		o.line("size %s%s", ptr, recv)
		o.size(d.Body, env)
	default:
		o.line("other func %s %s %s", recv, name, sig)
	}
	o.doc("  ", d.Doc)
}

func (o *out) constructor(d *ast.FuncDecl) {
	pos := map[string]string{}
	var ps []string
	for _, f := range d.Type.Params.List {
		for _, n := range f.Names {
			pos[n.Name] = fmt.Sprint("p", len(ps))
			ps = append(ps, types.ExprString(f.Type))
		}
	}
	res := ""
	if d.Type.Results != nil && len(d.Type.Results.List) == 1 {
		res = types.ExprString(d.Type.Results.List[0].Type)
	}
	o.line("new %s%s(%s) %s", strings.TrimPrefix(d.Name.Name, "New"), o.generics(d.Type.TypeParams), strings.Join(ps, "; "), res)
	if len(d.Body.List) == 1 {
		if r, ok := d.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
			if c, ok := r.Results[0].(*ast.CompositeLit); ok {
				o.line("  make %s", types.ExprString(c.Type))
				for _, e := range c.Elts {
					kv, ok := e.(*ast.KeyValueExpr)
					if !ok {
						o.line("  ? %s", o.raw(e))
						continue
					}
					v := "?" + o.raw(kv.Value)
					if id, ok := kv.Value.(*ast.Ident); ok && pos[id.Name] != "" {
						v = pos[id.Name]
					}
					o.line("  set %s = %s", types.ExprString(kv.Key), v)
				}
				return
			}
		}
	}
	o.line("  ? %s", o.raw(d.Body))
}

// Names in reach, with what they stand for.
type scope map[string]string

func (s scope) with(name, is string) scope {
	n := scope{}
	for k, v := range s {
		n[k] = v
	}
	n[name] = is
	return n
}

// The number of values that functions around this place have as parameters.
func (s scope) bound() int {
	n, _ := strconv.Atoi(s[""])
	return n
}
func (s scope) bind(name string) (scope, string) {
	d := fmt.Sprint("$", s.bound())
	return s.with(name, d).with("", fmt.Sprint(s.bound()+1)), d
}

func (o *out) val(e ast.Expr, s scope) string {
	switch e := e.(type) {
	case *ast.Ident:
		if v, ok := s[e.Name]; ok {
			return v
		}
	case *ast.SelectorExpr:
		return o.val(e.X, s) + "." + e.Sel.Name
	case *ast.CallExpr:
		if f, ok := e.Fun.(*ast.SelectorExpr); ok && f.Sel.Name == "Get" && len(e.Args) == 0 {
			return o.val(f.X, s) + ".Get()"
		}
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			return "&" + o.val(e.X, s)
		}
	case *ast.ParenExpr:
		return o.val(e.X, s)
	}
	return "?" + o.raw(e)
}

// A function of the buf package with its type arguments.
func bufFunc(e ast.Expr) (string, []string, bool) {
	var args []string
	switch x := e.(type) {
	case *ast.IndexExpr:
		args = []string{types.ExprString(x.Index)}
		e = x.X
	case *ast.IndexListExpr:
		for _, i := range x.Indices {
			args = append(args, types.ExprString(i))
		}
		e = x.X
	}
	if s, ok := e.(*ast.SelectorExpr); ok {
		if p, ok := s.X.(*ast.Ident); ok && p.Name == "buf" {
			return s.Sel.Name, args, true
		}
	}
	return "", nil, false
}
func targs(a []string) string {
	if len(a) == 0 {
		return ""
	}
	return "[" + strings.Join(a, ", ") + "]"
}
func single(b *ast.BlockStmt) (ast.Expr, bool) {
	if len(b.List) == 1 {
		if r, ok := b.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 1 {
			return r.Results[0], true
		}
	}
	return nil, false
}
func params(t *ast.FuncType) (names, tys []string) {
	for _, f := range t.Params.List {
		for _, n := range f.Names {
			names = append(names, n.Name)
			tys = append(tys, types.ExprString(f.Type))
		}
	}
	return
}
func results(t *ast.FuncType) string {
	if t.Results == nil {
		return ""
	}
	var v []string
	for _, f := range t.Results.List {
		v = append(v, types.ExprString(f.Type))
	}
	return strings.Join(v, ", ")
}

// ---- encoding -----------------------------------------------------------------------------------
func (o *out) encode(b *ast.BlockStmt, s scope, recv string) {
	for _, st := range b.List {
		switch st := st.(type) {
		case *ast.AssignStmt:
			if len(st.Lhs) == 1 && len(st.Rhs) == 1 && st.Tok == token.ASSIGN && o.val(st.Lhs[0], s) == "W" {
				if c, ok := st.Rhs[0].(*ast.CallExpr); ok && len(c.Args) > 1 && o.val(c.Args[0], s) == "W" {
					n, ta, _ := bufFunc(c.Fun)
					switch {
					case n == "EncodeField" && len(c.Args) == 3:
						if f, ok := c.Args[2].(*ast.FuncLit); ok {
							o.line("  required %s %s", o.raw(c.Args[1]), o.encFunc(f, s, 0))
							continue
						}
					case n == "EncodeFieldOption" && len(c.Args) == 4:
						if f, ok := c.Args[3].(*ast.FuncLit); ok {
							o.line("  optional %s %s %s %s", o.raw(c.Args[1]), targs(ta), o.val(c.Args[2], s), o.encFunc(f, s, 1))
							continue
						}
					case n == "EncodeU32" && len(c.Args) == 2 && o.raw(c.Args[1]) == "buf.EndMarker":
						o.line("  end")
						continue
					}
				}
			}
		case *ast.ReturnStmt:
			if len(st.Results) == 1 {
				if o.val(st.Results[0], s) == "W" {
					continue
				}
				if o.raw(st.Results[0]) == "nil" {
					o.note("encoding discarded " + recv)
					continue
				}
			}
		}
		o.line("  ? %s", o.raw(st))
	}
}

// func(w []byte, v T...) []byte { return E }
func (o *out) encFunc(f *ast.FuncLit, s scope, extra int) string {
	n, t := params(f.Type)
	e, ok := single(f.Body)
	if !ok || len(n) != 1+extra || t[0] != "[]byte" || results(f.Type) != "[]byte" {
		return "?" + o.raw(f)
	}
	s = s.with(n[0], "W")
	head := ""
	for i := 1; i < len(n); i++ {
		var d string
		s, d = s.bind(n[i])
		head += "|" + d + " " + t[i] + "| "
	}
	return head + o.enc(e, s)
}
func (o *out) enc(e ast.Expr, s scope) string {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return "?" + o.raw(e)
	}
	if f, ok := c.Fun.(*ast.FuncLit); ok {
		n, t := params(f.Type)
		if len(n) != 1 || t[0] != "[]byte" || results(f.Type) != "[]byte" || len(c.Args) != 1 || o.val(c.Args[0], s) != "W" {
			return "?" + o.raw(e)
		}
		s = s.with(n[0], "W")
		var v []string
		for i, st := range f.Body.List {
			switch st := st.(type) {
			case *ast.AssignStmt:
				if len(st.Lhs) == 1 && len(st.Rhs) == 1 && st.Tok == token.ASSIGN && o.val(st.Lhs[0], s) == "W" {
					v = append(v, o.enc(st.Rhs[0], s))
					continue
				}
			case *ast.ReturnStmt:
				if i == len(f.Body.List)-1 && len(st.Results) == 1 && o.val(st.Results[0], s) == "W" {
					continue
				}
			}
			v = append(v, "?"+o.raw(st))
		}
		return "seq(" + strings.Join(v, "; ") + ")"
	}
	if n, ta, ok := bufFunc(c.Fun); ok {
		if !strings.HasPrefix(n, "Encode") || len(c.Args) < 2 || o.val(c.Args[0], s) != "W" {
			return "?" + o.raw(e)
		}
		v := []string{o.val(c.Args[1], s)}
		for _, a := range c.Args[2:] {
			if f, ok := a.(*ast.FuncLit); ok {
				v = append(v, o.encFunc(f, s, 1))
			} else {
				v = append(v, "?"+o.raw(a))
			}
		}
		return strings.TrimPrefix(n, "Encode") + targs(ta) + "(" + strings.Join(v, ", ") + ")"
	}
	if f, ok := c.Fun.(*ast.SelectorExpr); ok && f.Sel.Name == "Encode" && len(c.Args) == 1 && o.val(c.Args[0], s) == "W" {
		return "call(" + o.val(f.X, s) + ")"
	}
	return "?" + o.raw(e)
}

// ---- size ---------------------------------------------------------------------------------------
func (o *out) size(b *ast.BlockStmt, s scope) {
	for i, st := range b.List {
		switch st := st.(type) {
		case *ast.AssignStmt:
			if len(st.Lhs) != 1 || len(st.Rhs) != 1 {
				break
			}
			if i == 0 && st.Tok == token.DEFINE && o.raw(st.Rhs[0]) == "0" {
				if n, ok := st.Lhs[0].(*ast.Ident); ok {
					s = s.with(n.Name, "W")
					continue
				}
			}
			if st.Tok != token.ADD_ASSIGN || o.val(st.Lhs[0], s) != "W" {
				break
			}
			if o.raw(st.Rhs[0]) == "buf.EndMarkerSize" {
				o.line("  end")
				continue
			}
			if c, ok := st.Rhs[0].(*ast.CallExpr); ok {
				n, ta, _ := bufFunc(c.Fun)
				if n == "SizeField" && len(c.Args) == 2 {
					if f, ok := c.Args[1].(*ast.FuncLit); ok {
						o.line("  required %s %s", o.raw(c.Args[0]), o.sizeFunc(f, s, 0))
						continue
					}
				}
				if n == "SizeFieldOption" && len(c.Args) == 3 {
					if f, ok := c.Args[2].(*ast.FuncLit); ok {
						o.line("  optional %s %s %s %s", o.raw(c.Args[0]), targs(ta), o.val(c.Args[1], s), o.sizeFunc(f, s, 1))
						continue
					}
				}
			}
		case *ast.ReturnStmt:
			if len(st.Results) == 1 && o.val(st.Results[0], s) == "W" {
				continue
			}
		}
		o.line("  ? %s", o.raw(st))
	}
}
func (o *out) sizeFunc(f *ast.FuncLit, s scope, extra int) string {
	n, t := params(f.Type)
	e, ok := single(f.Body)
	if !ok || len(n) != extra || results(f.Type) != "int" {
		return "?" + o.raw(f)
	}
	head := ""
	for i := range n {
		var d string
		s, d = s.bind(n[i])
		head += "|" + d + " " + t[i] + "| "
	}
	return head + o.siz(e, s)
}
func (o *out) siz(e ast.Expr, s scope) string {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return "?" + o.raw(e)
	}
	if f, ok := c.Fun.(*ast.FuncLit); ok {
		if n, _ := params(f.Type); len(n) != 0 || results(f.Type) != "int" {
			return "?" + o.raw(e)
		}
		if len(c.Args) != 0 {
			o.note("size of a tuple called with an argument")
		}
		var v []string
		for i, st := range f.Body.List {
			switch st := st.(type) {
			case *ast.AssignStmt:
				if i == 0 && st.Tok == token.DEFINE && len(st.Lhs) == 1 && o.raw(st.Rhs[0]) == "0" {
					if n, ok := st.Lhs[0].(*ast.Ident); ok {
						s = s.with(n.Name, "W")
						continue
					}
				}
				if len(st.Lhs) == 1 && len(st.Rhs) == 1 && st.Tok == token.ADD_ASSIGN && o.val(st.Lhs[0], s) == "W" {
					v = append(v, o.siz(st.Rhs[0], s))
					continue
				}
			case *ast.ReturnStmt:
				if i == len(f.Body.List)-1 && len(st.Results) == 1 && o.val(st.Results[0], s) == "W" {
					continue
				}
			}
			v = append(v, "?"+o.raw(st))
		}
		return "seq(" + strings.Join(v, "; ") + ")"
	}
	if n, ta, ok := bufFunc(c.Fun); ok {
		if !strings.HasPrefix(n, "Size") || len(c.Args) < 1 {
			return "?" + o.raw(e)
		}
		v := []string{o.val(c.Args[0], s)}
		for _, a := range c.Args[1:] {
			if f, ok := a.(*ast.FuncLit); ok {
				v = append(v, o.sizeFunc(f, s, 1))
			} else {
				v = append(v, "?"+o.raw(a))
			}
		}
		return strings.TrimPrefix(n, "Size") + targs(ta) + "(" + strings.Join(v, ", ") + ")"
	}
	if f, ok := c.Fun.(*ast.SelectorExpr); ok && f.Sel.Name == "Size" && len(c.Args) == 0 {
		return "call(" + o.val(f.X, s) + ")"
	}
	return "?" + o.raw(e)
}

// ---- decoding -----------------------------------------------------------------------------------
const errCheck = "if err != nil { return nil, err }"

func (o *out) decode(b *ast.BlockStmt, s scope) {
	for i, st := range b.List {
		switch st := st.(type) {
		case *ast.AssignStmt:
			if st.Tok == token.DEFINE && len(st.Lhs) == 1 && len(st.Rhs) == 1 && o.raw(st.Rhs[0]) == "false" {
				if n, ok := st.Lhs[0].(*ast.Ident); ok {
					if _, twice := s[n.Name]; !twice {
						s = s.with(n.Name, "flag "+n.Name)
						continue
					}
				}
			}
		case *ast.ForStmt:
			if st.Init == nil && st.Post == nil && st.Cond != nil && o.raw(st.Cond) == "len(r) > 0" {
				o.loop(st.Body, s)
				continue
			}
		case *ast.IfStmt:
			if u, ok := st.Cond.(*ast.UnaryExpr); ok && u.Op == token.NOT && st.Else == nil && st.Init == nil && len(st.Body.List) == 1 {
				if r, ok := st.Body.List[0].(*ast.ReturnStmt); ok && len(r.Results) == 2 && o.raw(r.Results[0]) == "nil" {
					if c, ok := r.Results[1].(*ast.CompositeLit); ok && types.ExprString(c.Type) == "buf.MissingFieldError" {
						var v []string
						for _, e := range c.Elts {
							if kv, ok := e.(*ast.KeyValueExpr); ok {
								v = append(v, o.raw(kv.Key)+"="+o.raw(kv.Value))
							} else {
								v = append(v, "?"+o.raw(e))
							}
						}
						o.line("  missing %s: %s", o.val(u.X, s), strings.Join(v, " "))
						continue
					}
				}
			}
		case *ast.ReturnStmt:
			if i == len(b.List)-1 && o.raw(st) == "return r, nil" {
				continue
			}
		}
		o.line("  ? %s", o.raw(st))
	}
}
func (o *out) loop(b *ast.BlockStmt, s scope) {
	step := 0
	want := []string{"r2, id, err := buf.DecodeID(r)", errCheck, "r = r2"}
	for _, st := range b.List {
		if step < 3 && o.raw(st) == want[step] {
			step++
			continue
		}
		if sw, ok := st.(*ast.SwitchStmt); ok && step == 3 && sw.Init == nil && sw.Tag != nil && o.raw(sw.Tag) == "id" {
			step++
			hasDefault := false
			for _, c := range sw.Body.List {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					hasDefault = true
					continue
				}
				if len(cc.List) == 1 && o.raw(cc.List[0]) == "buf.EndMarker" {
					o.line("  end")
					if len(cc.Body) == 1 {
						if br, ok := cc.Body[0].(*ast.BranchStmt); ok && br.Tok == token.BREAK && br.Label == nil {
							o.note("decoding does not stop at the end marker")
						}
					}
					continue
				}
				o.oneCase(cc, s)
			}
			if !hasDefault {
				o.note("unknown fields are not skipped")
			}
			continue
		}
		o.line("  ? %s", o.raw(st))
	}
	if step != 4 {
		o.line("  ? incomplete loop")
	}
}
func (o *out) oneCase(cc *ast.CaseClause, s scope) {
	var ids []string
	for _, e := range cc.List {
		ids = append(ids, o.raw(e))
	}
	tree, target, flag := "none", "none", "none"
	step := 0
	for _, st := range cc.Body {
		a, _ := st.(*ast.AssignStmt)
		switch {
		case step == 0 && a != nil && a.Tok == token.DEFINE && len(a.Lhs) == 3 && len(a.Rhs) == 1 && o.raw(a.Lhs[0])+o.raw(a.Lhs[1])+o.raw(a.Lhs[2]) == "r2valueerr":
			tree = o.dec(a.Rhs[0], s)
		case step == 1 && o.raw(st) == errCheck:
		case step == 2 && o.raw(st) == "r = r2":
		case step == 3 && a != nil && a.Tok == token.ASSIGN && len(a.Lhs) == 1 && len(a.Rhs) == 1 && o.raw(a.Rhs[0]) == "value":
			target = o.val(a.Lhs[0], s)
		case step == 4 && a != nil && a.Tok == token.ASSIGN && len(a.Lhs) == 1 && len(a.Rhs) == 1 && o.raw(a.Rhs[0]) == "true":
			flag = o.val(a.Lhs[0], s)
		default:
			o.line("  ? %s", o.raw(st))
			continue
		}
		step++
	}
	o.line("  case %s %s %s %s", strings.Join(ids, ","), target, flag, tree)
}

// func(r []byte) ([]byte, T, error) { return E }
func (o *out) decFunc(f *ast.FuncLit, s scope) string {
	n, t := params(f.Type)
	e, ok := single(f.Body)
	res := results(f.Type)
	if !ok || len(n) != 1 || t[0] != "[]byte" || !strings.HasPrefix(res, "[]byte, ") || !strings.HasSuffix(res, ", error") {
		return "?" + o.raw(f)
	}
	return "|" + strings.TrimSuffix(strings.TrimPrefix(res, "[]byte, "), ", error") + "| " + o.dec(e, s.with(n[0], "W"))
}
func (o *out) dec(e ast.Expr, s scope) string {
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) < 1 || o.val(c.Args[0], s) != "W" {
		return "?" + o.raw(e)
	}
	if n, ta, ok := bufFunc(c.Fun); ok && strings.HasPrefix(n, "Decode") {
		var v []string
		for _, a := range c.Args[1:] {
			if f, ok := a.(*ast.FuncLit); ok {
				v = append(v, o.decFunc(f, s))
			} else {
				v = append(v, "?"+o.raw(a))
			}
		}
		return strings.TrimPrefix(n, "Decode") + targs(ta) + "(" + strings.Join(v, ", ") + ")"
	}
	f, ok := c.Fun.(*ast.FuncLit)
	if !ok || len(c.Args) != 1 {
		return "?" + o.raw(e)
	}
	n, t := params(f.Type)
	res := results(f.Type)
	if len(n) != 1 || t[0] != "[]byte" || !strings.HasPrefix(res, "[]byte, ") || !strings.HasSuffix(res, ", error") {
		return "?" + o.raw(e)
	}
	ty := strings.TrimSuffix(strings.TrimPrefix(res, "[]byte, "), ", error")
	s = s.with(n[0], "W")
	l := f.Body.List
	// var value T; return value.Decode(r)
	if len(l) == 2 && o.raw(l[0]) == "var value "+ty || len(l) == 2 && strings.HasPrefix(o.raw(l[0]), "var value ") {
		got := ""
		if d, ok := l[0].(*ast.DeclStmt); ok {
			if g, ok := d.Decl.(*ast.GenDecl); ok && len(g.Specs) == 1 {
				if v, ok := g.Specs[0].(*ast.ValueSpec); ok && v.Type != nil {
					got = types.ExprString(v.Type)
				}
			}
		}
		if got == ty && o.raw(l[1]) == "return value.Decode("+n[0]+")" {
			o.note("decoder of another type returned with two values")
			return "call(" + ty + ")"
		}
		return "?" + o.raw(e)
	}
	// r2, value0, err := E0; if err...; r = r2; tuple.F0 = value0; ...; return r, tuple, nil
	var v []string
	declared := false
	for i := 0; i < len(l); i++ {
		if d, ok := l[i].(*ast.DeclStmt); ok && i == 0 && o.raw(d) == "var tuple "+ty {
			declared = true
			continue
		}
		if a, ok := l[i].(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 3 && len(a.Rhs) == 1 && i+3 < len(l) {
			val := o.raw(a.Lhs[1])
			set, ok := l[i+3].(*ast.AssignStmt)
			chk := o.raw(l[i+1])
			if (chk == "if err != nil { return nil, value, err }" || chk == "if err != nil { return nil, tuple, err }") && o.raw(l[i+2]) == "r = r2" && ok &&
				set.Tok == token.ASSIGN && len(set.Lhs) == 1 && o.raw(set.Rhs[0]) == val && o.raw(a.Lhs[0]) == "r2" && o.raw(a.Lhs[2]) == "err" {
				v = append(v, strings.TrimPrefix(o.raw(set.Lhs[0]), "tuple.")+"="+o.dec(a.Rhs[0], s))
				i += 3
				continue
			}
		}
		if r, ok := l[i].(*ast.ReturnStmt); ok && i == len(l)-1 && o.raw(r) == "return r, tuple, nil" {
			continue
		}
		v = append(v, "?"+o.raw(l[i]))
	}
	if !declared {
		o.note("tuple decoded into an undeclared name")
	}
	return "seq " + ty + " (" + strings.Join(v, "; ") + ")"
}
