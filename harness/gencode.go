package main

import (
	"bytes"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"io"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	xhtml "golang.org/x/net/html"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/svg"
)

// core are the constructors of the root package that generated code may call
var core = map[string]any{
	"aitch.Attribute": aitch.Attribute, "aitch.NewAttribute": aitch.NewAttribute,
	"aitch.BooleanAttribute": aitch.BooleanAttribute, "aitch.NewBooleanAttribute": aitch.NewBooleanAttribute,
	"aitch.DelimitedAttribute": aitch.DelimitedAttribute, "aitch.NewDelimitedAttribute": aitch.NewDelimitedAttribute,
	"aitch.Element": aitch.Element, "aitch.NewElement": aitch.NewElement,
	"aitch.VoidElement": aitch.VoidElement, "aitch.NewVoidElement": aitch.NewVoidElement,
	"aitch.Collection": aitch.Collection, "aitch.Fragment": aitch.Fragment,
	"aitch.Text": aitch.Text, "aitch.Comment": aitch.Comment, "aitch.PI": aitch.PI, "aitch.DocType": aitch.DocType,
}

var farEntities = map[rune]string{0xa0: "&nbsp;", 0xe9: "&eacute;", 0x20ac: "&euro;"}

// source writes a document (a list of events) as markup
func source(doc []any) string {
	sb := &strings.Builder{}
	raw := false
	esc := func(s, q, style string) string {
		r := &strings.Builder{}
		for i := 0; i < len(s); i++ {
			if style == "ent" && s[i] >= 0x80 {
				if c, n := utf8.DecodeRuneInString(s[i:]); c != utf8.RuneError && c >= 0xa0 {
					if e, ok := farEntities[c]; ok {
						r.WriteString(e)
					} else {
						fmt.Fprintf(r, "&#x%x;", c)
					}
					i += n - 1
					continue
				}
			}
			switch c := s[i]; {
			case c == '\r':
				// only as a reference: a literal one is a line break in markup
				r.WriteString(map[bool]string{true: "&#13;", false: "&#xD;"}[style == "num" || style == ""])
			case c == '&':
				r.WriteString(map[string]string{"num": "&#38;", "hex": "&#x26;"}[style])
				if style != "num" && style != "hex" {
					r.WriteString("&amp;")
				}
			case c == '<':
				if style == "num" {
					r.WriteString("&#60;")
				} else {
					r.WriteString("&lt;")
				}
			case c == '>' && style != "raw":
				r.WriteString("&gt;")
			case (c == '"' || c == '\'') && (strings.IndexByte(q, c) >= 0 || style == "num"):
				fmt.Fprintf(r, "&#%d;", c)
			default:
				r.WriteByte(c)
			}
		}
		return r.String()
	}
	up := func(m M, n string) string {
		if flag(m, "up") {
			return upper(n)
		}
		return n
	}
	for _, x := range doc {
		e := x.(M)
		style := str(e, "style")
		switch str(e, "e") {
		case "start":
			n := bs(str(e, "n"))
			sb.WriteString("<" + up(e, n))
			for _, y := range list(e, "as") {
				a := y.(M)
				sb.WriteString(" " + up(e, bs(str(a, "n"))))
				if flag(a, "nov") {
					continue
				}
				if style == "single" {
					sb.WriteString("='" + esc(bs(str(a, "v")), "'", style) + "'")
				} else {
					sb.WriteString("=\"" + esc(bs(str(a, "v")), "\"", style) + "\"")
				}
			}
			if flag(e, "sl") {
				sb.WriteString(" /")
			}
			sb.WriteString(">")
			raw = flag(e, "raw")
		case "end":
			sb.WriteString("</" + up(e, bs(str(e, "n"))) + ">")
			raw = false
		case "text":
			if raw {
				sb.WriteString(bs(str(e, "s")))
			} else {
				sb.WriteString(esc(bs(str(e, "s")), "", style))
			}
		case "comment":
			text := esc(bs(str(e, "s")), "", "")
			switch style {
			case "pi": // read as a comment which starts with the question mark
				sb.WriteString("<" + text + ">")
			case "bang":
				sb.WriteString("<!" + text + ">")
			case "slash":
				sb.WriteString("</" + text + ">")
			default:
				sb.WriteString("<!--" + text + "-->")
			}
		case "doctype":
			sb.WriteString("<!" + up(e, "doctype") + " " + bs(str(e, "s")) + ">")
		default:
			panic("event " + str(e, "e"))
		}
	}
	return sb.String()
}

type readErr struct{}

func (readErr) Error() string { return "read error" }

// pieces is a reader that returns n bytes at a time, and fails (with err) after `upto` bytes
type pieces struct {
	s    string
	n    int
	upto int
	err  error
	at   int
}

func (p *pieces) Read(b []byte) (int, error) {
	end := p.upto
	if end < 0 || end > len(p.s) {
		end = len(p.s)
	}
	n := min(p.n, len(b), end-p.at)
	if n <= 0 {
		return 0, p.err
	}
	copy(b, p.s[p.at:p.at+n])
	p.at += n
	return n, nil
}

// stopWriter fails with the write that reaches byte `at`, writing `part` of it; if `rec`, it works again afterwards
type stopWriter struct {
	at     int
	part   bool
	rec    bool
	failed bool
	got    bytes.Buffer
}

func (w *stopWriter) Write(b []byte) (int, error) {
	if w.failed {
		if w.rec {
			return len(b), nil
		}
		return 0, &writeErr{"w2"}
	}
	if w.got.Len()+len(b) <= w.at {
		return w.got.Write(b)
	}
	w.failed = true
	n := 0
	if w.part {
		n = w.at - w.got.Len()
	}
	w.got.Write(b[:n])
	return n, &writeErr{"w"}
}

type genFault struct {
	Kind string `json:"kind"`
	Err  bool   `json:"err"`
	Pre  bool   `json:"pre"`
	At   int    `json:"at"`
	N    int    `json:"n"`
}

type genObs struct {
	Err    string     `json:"err"`
	Code   string     `json:"code"`
	Bad    string     `json:"bad"`
	Panic  string     `json:"panic"`
	Toks   []OTok     `json:"toks"`
	Same   bool       `json:"same"`
	Faults []genFault `json:"faults"`
}

func generator(pkg string) func(io.Reader, io.Writer) error {
	if pkg == "svg" {
		return svg.GenerateCode
	}
	return html.GenerateCode
}

// template finds the expression of the generated declaration
func template(code string) (*token.FileSet, ast.Expr, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "generated.go", "package generated\n"+code, 0)
	if err != nil {
		return nil, nil, err
	}
	var expr ast.Expr
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			return nil, nil, fmt.Errorf("a declaration that is not of a variable")
		}
		for _, s := range g.Specs {
			if v, ok := s.(*ast.ValueSpec); ok {
				if len(v.Values) != 1 || expr != nil {
					return nil, nil, fmt.Errorf("more than one expression")
				}
				expr = v.Values[0]
			}
		}
	}
	if expr == nil {
		return nil, nil, fmt.Errorf("no expression")
	}
	return fs, expr, nil
}

var bytesType = reflect.TypeOf([]byte(nil))

// unsupported is an expression eval cannot compute; such code is compiled instead
type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

// eval computes an expression of generated code
func eval(e ast.Expr) (v reflect.Value, err error) {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			return reflect.ValueOf(s), err
		case token.INT:
			n, err := strconv.Atoi(x.Value)
			return reflect.ValueOf(n), err
		}
	case *ast.Ident:
		switch x.Name {
		case "nil":
			return reflect.Value{}, nil
		case "true", "false":
			return reflect.ValueOf(x.Name == "true"), nil
		}
	case *ast.BinaryExpr:
		a, err := eval(x.X)
		if err != nil {
			return a, err
		}
		b, err := eval(x.Y)
		if err != nil {
			return b, err
		}
		if x.Op == token.ADD && a.Kind() == reflect.String && b.Kind() == reflect.String {
			return reflect.ValueOf(a.String() + b.String()), nil
		}
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok {
			name := p.Name + "." + x.Sel.Name
			if c, ok := catalog[name]; ok {
				return reflect.ValueOf(c), nil
			}
			if c, ok := core[name]; ok {
				return reflect.ValueOf(c), nil
			}
		}
	case *ast.CallExpr:
		if t, ok := x.Fun.(*ast.ArrayType); ok && t.Len == nil && len(x.Args) == 1 {
			if id, ok := t.Elt.(*ast.Ident); ok && id.Name == "byte" {
				s, err := eval(x.Args[0])
				if err != nil {
					return s, err
				}
				return s.Convert(bytesType), nil
			}
		}
		fn, err := eval(x.Fun)
		if err != nil {
			return fn, err
		}
		if fn.Kind() != reflect.Func {
			return fn, fmt.Errorf("not a function")
		}
		t := fn.Type()
		args := make([]reflect.Value, len(x.Args))
		for i, a := range x.Args {
			v, err := eval(a)
			if err != nil {
				return v, err
			}
			var want reflect.Type
			switch {
			case t.IsVariadic() && i >= t.NumIn()-1:
				want = t.In(t.NumIn() - 1).Elem()
			case i < t.NumIn():
				want = t.In(i)
			default:
				return v, fmt.Errorf("too many arguments")
			}
			if !v.IsValid() {
				v = reflect.Zero(want)
			} else if !v.Type().AssignableTo(want) {
				return v, fmt.Errorf("argument of type %s, not %s", v.Type(), want)
			}
			args[i] = v
		}
		if len(args) < t.NumIn() && !(t.IsVariadic() && len(args) == t.NumIn()-1) {
			return fn, fmt.Errorf("too few arguments")
		}
		return fn.Call(args)[0], nil
	}
	return v, unsupported(fmt.Sprintf("%T", e))
}

// readBack reads markup as a sequence of tokens
// upper puts the letters a to z in upper case
func upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'a' <= c && c <= 'z' {
			b[i] = c - 'a' + 'A'
		}
	}
	return string(b)
}

// lower puts the letters A to Z in lower case
func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if 'A' <= c && c <= 'Z' {
			b[i] = c - 'A' + 'a'
		}
	}
	return string(b)
}

func readBack(out string) []OTok {
	res := []OTok{}
	// a carriage return is read as itself (a parser would take it as a line feed)
	z := xhtml.NewTokenizer(strings.NewReader(strings.ReplaceAll(out, "\r", "&#13;")))
	for {
		tt := z.Next()
		t := z.Token()
		tok := OTok{N: l1s(lower(t.Data)), As: []OAttr{}}
		switch tt {
		case xhtml.ErrorToken:
			return res
		case xhtml.StartTagToken, xhtml.SelfClosingTagToken:
			tok.K = "tag"
			for _, a := range t.Attr {
				tok.As = append(tok.As, OAttr{N: l1s(lower(a.Key)), V: l1s(a.Val)})
			}
			res = append(res, tok)
			if tt == xhtml.SelfClosingTagToken && !isVoid[t.Data] {
				res = append(res, OTok{K: "close", N: tok.N, As: []OAttr{}})
			}
			continue
		case xhtml.EndTagToken:
			tok.K = "close"
		case xhtml.CommentToken, xhtml.TextToken:
			tok.K, tok.N, tok.V = "text", "", l1s(t.Data)
			if tt == xhtml.CommentToken {
				tok.K = "comment"
			} else if len(res) > 0 && res[len(res)-1].K == "doctype" {
				// a line break ends a processing instruction
				if tok.V = strings.TrimPrefix(tok.V, "\n"); tok.V == "" {
					continue
				}
			}
		case xhtml.DoctypeToken:
			tok.K, tok.N, tok.V = "doctype", "", l1s(t.Data)
		}
		res = append(res, tok)
	}
}

var isVoid = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true, "input": true,
	"link": true, "meta": true, "param": true, "source": true, "track": true, "wbr": true}

func runGen(c M) any {
	o := genObs{Toks: []OTok{}, Faults: []genFault{}}
	gen := generator(str(c, "pkg"))
	src := source(list(c, "doc"))
	var code bytes.Buffer
	o.Panic = guard(func() {
		if err := gen(strings.NewReader(src), &code); err != nil {
			o.Err = err.Error()
		}
	})
	if o.Panic != "" {
		return o
	}
	o.Code = l1s(code.String())
	_, expr, err := template(code.String())
	if err != nil {
		o.Bad = err.Error()
	} else if comp := obj(c, "compiled"); comp != nil {
		// what the compiled code renders
		o.Bad, o.Panic = str(comp, "bad"), str(comp, "panic")
		o.Toks = readBack(bs(str(comp, "out")))
	} else {
		o.Panic = guard(func() {
			v, err := eval(expr)
			if err != nil {
				o.Bad = err.Error()
				return
			}
			if n, ok := v.Interface().(aitch.Node); ok {
				var out bytes.Buffer
				if err := n.Render(context.New(&out, nil, nil)); err != nil {
					o.Bad = "render: " + err.Error()
				}
				o.Toks = readBack(out.String())
			} else {
				o.Bad = "not a node"
			}
		})
	}
	// the same in pieces
	o.Same = true
	for _, n := range []int{1, 7} {
		var again bytes.Buffer
		p := guard(func() { err = gen(&pieces{s: src, n: n, upto: -1, err: io.EOF}, &again) })
		o.Same = o.Same && p == "" && err == nil && again.String() == code.String()
	}
	// faults
	seen := map[string]int{}
	note := func(kind string, at int, err error, p string, pre bool) {
		f := genFault{Kind: kind, Err: err != nil && p == "", Pre: pre, At: at, N: 1}
		k := fmt.Sprint(f.Kind, f.Err, f.Pre)
		if i, ok := seen[k]; ok {
			o.Faults[i].N++
			return
		}
		seen[k] = len(o.Faults)
		o.Faults = append(o.Faults, f)
	}
	step := 1
	if s, ok := c["step"].(float64); ok {
		step = int(s)
	}
	if m := code.Len() / 300; step < m {
		step = m // a long document
	}
	for at := 0; at < code.Len(); at += step {
		for _, kind := range []string{"none", "part", "none+", "part+"} {
			w := &stopWriter{at: at, part: kind[:4] == "part", rec: strings.HasSuffix(kind, "+")}
			var err error
			p := guard(func() { err = gen(strings.NewReader(src), shaped(w, at+len(kind))) })
			note("write/"+kind, at, err, p, strings.HasPrefix(code.String(), w.got.String()))
		}
	}
	for at := 0; at <= len(src); at += step {
		for _, e := range []error{readErr{}, io.ErrUnexpectedEOF, io.ErrNoProgress} {
			var out bytes.Buffer
			var err error
			p := guard(func() { err = gen(&pieces{s: src, n: 16, upto: at, err: e}, &out) })
			note("read/"+e.Error(), at, err, p, errors.Is(err, e))
		}
	}
	return o
}

// goFile is a Go file that registers what the generated code of a document is
func goFile(c M) string {
	var code bytes.Buffer
	if err := generator(str(c, "pkg"))(strings.NewReader(source(list(c, "doc"))), &code); err != nil {
		return ""
	}
	fs, expr, err := template(code.String())
	if err != nil {
		return ""
	}
	var sb bytes.Buffer
	check(printer.Fprint(&sb, fs, expr))
	return sb.String()
}
