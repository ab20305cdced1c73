package main

import (
	"bytes"
	gocontext "context"
	"errors"
	"fmt"
	htmltemplate "html/template"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unicode/utf8"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
)

// M is a syntax tree node or value, as in the specification
type M = map[string]any

func str(m M, k string) string {
	if s, ok := m[k].(string); ok {
		return s
	}
	return ""
}

func raws(m M, k string) []byte { return by(str(m, k)) }

func list(m M, k string) []any {
	if l, ok := m[k].([]any); ok {
		return l
	}
	return nil
}

func obj(m M, k string) M {
	if l, ok := m[k].(M); ok {
		return l
	}
	return nil
}

func flag(m M, k string) bool { b, _ := m[k].(bool); return b }

func num(m M, k string) int { f, _ := m[k].(float64); return int(f) }

// cbErr is an error returned by a callback
type cbErr struct{ id string }

func (e *cbErr) Error() string { return "callback error " + e.id }

type stringer struct{ s string }

func (s stringer) String() string { return s.s }

// Stringers of other kinds
type (
	stringString string
	intStringer  int
	boolStringer bool
	pairStringer [2]string
	mapStringer  map[string]string
	funcStringer func() any
	bothStringer struct{ s string }
	byteStringer []byte
	runeStringer []rune
	partStringer []string
	chanStringer chan string
)

func (s stringString) String() string { return string(s[1:]) }
func (i intStringer) String() string {
	s, _ := intTexts.Load(int(i))
	return s.(string)
}
func (b boolStringer) String() string { return map[bool]string{true: "", false: "0"}[bool(b)] }
func (l pairStringer) String() string { return l[0] + l[1] }
func (m mapStringer) String() string  { return m["text"] }
func (f funcStringer) String() string { return f().(string) }
func (b byteStringer) String() string { return string(b) }
func (l partStringer) String() string { return strings.Join(l, "") }
func (l runeStringer) String() string { return string(l) }
func (c chanStringer) String() string {
	s := <-c
	c <- s
	return s
}
func (b *bothStringer) String() string { return b.s }
func (b *bothStringer) Error() string  { return "error " + b.s }

var intTexts sync.Map

func someStringer(s string) any {
	h := 0
	for i := range len(s) {
		h = (h*31 + int(s[i])) % 1000003
	}
	switch s {
	case "0":
		return boolStringer(false)
	case "":
		h = 1
	}
	switch h % 11 {
	case 7:
		return byteStringer(s)
	case 8:
		return partStringer{s[:len(s)/3], s[len(s)/3:]}
	case 9:
		if utf8.ValidString(s) {
			return runeStringer(s)
		}
	case 10:
		c := make(chanStringer, 1)
		c <- s
		return c
	case 0:
		return stringString("k" + s)
	case 1:
		if t, loaded := intTexts.LoadOrStore(h, s); loaded && t != s {
			return stringer{s}
		}
		return intStringer(h)
	case 2:
		return pairStringer{s[:len(s)/2], s[len(s)/2:]}
	case 3:
		return mapStringer{"text": s}
	case 4:
		return funcStringer(func() any { return s })
	case 5:
		return &bothStringer{s}
	}
	return stringer{s}
}

type namedString string
type namedBool bool
type namedBytes []byte
type namedInt int

// Log records the callbacks of one rendering
type Log struct {
	mu sync.Mutex
	ev []string
}

func (l *Log) add(s string) {
	l.mu.Lock()
	l.ev = append(l.ev, s)
	l.mu.Unlock()
}

// logger is implemented by the writers of the harness
type logger interface {
	Log() *Log
	Gate()
}

type snapshot struct {
	what   string
	check  func() string
	before string
}

// Env holds what belongs to one program
type Env struct {
	heap   map[string]aitch.Node
	log    *Log // of the current rendering, where renderings are not concurrent
	cntMu  sync.Mutex
	cnt    map[string]int
	snaps  []snapshot
	values map[string]any
	// nothing dynamic is to be called while a template is declared
	declaring bool
	root      *Env // counts the calls
}

// inside gives what a callback declares its nodes with, while it runs
func (e *Env) inside() *Env {
	in := newEnv()
	in.heap, in.log, in.root = e.heap, e.log, e.root
	return in
}

// every other callback declares its nodes anew in each call
func anew(id string) bool {
	h := 7
	for i := range len(id) {
		h = (h*31 + int(id[i])) % 1009
	}
	return h%2 == 0
}

func newEnv() *Env {
	e := &Env{heap: map[string]aitch.Node{}, cnt: map[string]int{}, log: &Log{}, values: map[string]any{}}
	e.root = e
	return e
}

func (e *Env) event(ctx *context.Context, s string) {
	if ctx != nil {
		if l, ok := ctx.Writer.(logger); ok {
			l.Gate()
			l.Log().add(s)
			return
		}
	}
	e.log.add(s)
}

func (e *Env) call(kind, id string, ctx *context.Context) {
	churn()
	e.event(ctx, kind+":"+id+"|"+digCtx(ctx))
}

// ---- descriptions of values and contexts, as in the specification (DigV, DigCtx)

func digV(v any) string {
	switch vt := v.(type) {
	case nil:
		return "nil"
	case string:
		return "s:" + l1s(vt)
	case fmt.Stringer:
		return "g:" + l1s(vt.String())
	case []byte:
		return "r:" + l1(vt)
	case bool:
		return strconv.FormatBool(vt)
	case float32:
		return "float32:" + strconv.FormatFloat(float64(vt), 'g', -1, 32)
	case float64:
		return "float64:" + strconv.FormatFloat(vt, 'g', -1, 64)
	case map[string]any:
		return digM(vt)
	}
	rv := reflect.ValueOf(v)
	if _, ok := v.(anySlice); ok || rv.Type().PkgPath() == "" {
		switch rv.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return rv.Type().Name() + ":" + strconv.FormatInt(rv.Int(), 10)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return rv.Type().Name() + ":" + strconv.FormatUint(rv.Uint(), 10)
		case reflect.Slice:
			parts := make([]string, rv.Len())
			for i := range parts {
				parts[i] = digV(rv.Index(i).Interface())
			}
			return "[" + strings.Join(parts, ",") + "]"
		}
	}
	return "o"
}

func digM(m map[string]any) string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	parts := make([]string, len(keys))
	for i, k := range keys {
		parts[i] = l1s(k) + "=" + digV(m[k])
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func digCtx(ctx *context.Context) string {
	if ctx == nil {
		return "none"
	}
	s := "c=" + digV(ctx.Cargo) + ";d=" + digM(ctx.Data)
	if ctx.Parent != nil {
		s += ";p(" + digCtx(ctx.Parent) + ")"
	}
	return s
}

// ident describes an argument such that a change of it shows
func ident(v any) string {
	if v == nil {
		return "nil"
	}
	if b, ok := v.([]byte); ok {
		return "bytes " + string(b)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Func, reflect.Ptr, reflect.Chan, reflect.UnsafePointer:
		return fmt.Sprintf("%T %x", v, rv.Pointer())
	case reflect.Map:
		return fmt.Sprintf("%T %v", v, v)
	case reflect.Slice:
		return fmt.Sprintf("%T %x %d", v, rv.Pointer(), rv.Len())
	}
	return fmt.Sprintf("%T %v", v, v)
}

func (e *Env) watch(what string, f func() string) {
	e.snaps = append(e.snaps, snapshot{what, f, f()})
}

func (e *Env) modified() []string {
	r := []string{}
	for _, s := range e.snaps {
		if s.check() != s.before {
			r = append(r, s.what)
		}
	}
	return r
}

// args gives the slice passed to a variadic constructor: it has room behind its end, and is watched
func (e *Env) args(what string, vs []any) []any {
	const room = 3
	full := make([]any, len(vs)+room)
	copy(full, vs)
	for i := 0; i < room; i++ {
		full[len(vs)+i] = "sentinel"
	}
	e.watch(what, func() string {
		var sb strings.Builder
		for _, v := range full {
			sb.WriteString(ident(v))
			sb.WriteByte('|')
		}
		return sb.String()
	})
	return full[:len(vs)]
}

type sentinelNode struct{ aitch.Node }

func (e *Env) nodeArgs(what string, ns []aitch.Node) []aitch.Node {
	const room = 3
	full := make([]aitch.Node, len(ns)+room)
	copy(full, ns)
	for i := 0; i < room; i++ {
		full[len(ns)+i] = &sentinelNode{}
	}
	e.watch(what, func() string {
		var sb strings.Builder
		for _, v := range full {
			sb.WriteString(ident(v))
			sb.WriteByte('|')
		}
		return sb.String()
	})
	return full[:len(ns)]
}

func (e *Env) bytesArg(what string, b []byte) []byte {
	full := make([]byte, len(b)+3)
	copy(full, b)
	copy(full[len(b):], "~~~")
	e.watch(what, func() string { return string(full) })
	return full[:len(b)]
}

// ---- values

func parseLit(ty, s string) any {
	i := func(bits int) int64 {
		n, err := strconv.ParseInt(s, 10, bits)
		if err != nil {
			panic(err)
		}
		return n
	}
	u := func(bits int) uint64 {
		n, err := strconv.ParseUint(s, 10, bits)
		if err != nil {
			panic(err)
		}
		return n
	}
	switch ty {
	case "int":
		return int(i(64))
	case "int8":
		return int8(i(8))
	case "int16":
		return int16(i(16))
	case "int32":
		return int32(i(32))
	case "int64":
		return i(64)
	case "uint":
		return uint(u(64))
	case "uint8":
		return uint8(u(8))
	case "uint16":
		return uint16(u(16))
	case "uint32":
		return uint32(u(32))
	case "uint64":
		return u(64)
	case "float32":
		f, err := strconv.ParseFloat(s, 32)
		if err != nil {
			panic(err)
		}
		return float32(f)
	case "float64":
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(err)
		}
		return f
	}
	panic("literal type " + ty)
}

func otherValue(kind string) any {
	switch kind {
	case "struct":
		return struct{ A int }{1}
	case "ptr":
		x := 1
		return &x
	case "strptr":
		s := "x"
		return &s
	case "chan":
		return make(chan int)
	case "namedstring":
		return namedString("<named>")
	case "namedint":
		return namedInt(7)
	case "strings":
		return []string{"a", "b"}
	case "anys":
		return []any{"a", 1}
	case "mapss":
		return map[string]string{"a": "b"}
	case "complex":
		return complex(1, 2)
	case "error":
		return errors.New("<error>")
	case "array":
		return [2]int{1, 2}
	case "uintptr":
		return uintptr(5)
	case "func":
		return func() string { return "<func>" }
	case "funcs":
		return func() []byte { return []byte("<func>") }
	case "ctxfunc":
		return func(*context.Context) string { return "<func>" }
	case "html":
		return htmltemplate.HTML("<b>")
	case "namedbool":
		return namedBool(false)
	case "boolptr":
		b := false
		return &b
	case "nilptr":
		return (*int)(nil)
	case "bytearray":
		return [2]byte{'a', 'b'}
	case "namedbytes":
		return namedBytes("<i>")
	case "runes":
		return []rune("<r>")
	case "nilfunc":
		return (func() string)(nil)
	case "buffer":
		return *bytes.NewBufferString("<u>")
	}
	panic("other value " + kind)
}

// value builds the Go value of a syntax tree
func (e *Env) value(m M) any {
	switch t := str(m, "t"); t {
	case "nil":
		return nil
	case "str":
		return bs(str(m, "s"))
	case "strg":
		return someStringer(bs(str(m, "s")))
	case "raw":
		return e.bytesArg("bytes", raws(m, "s"))
	case "lit":
		return parseLit(str(m, "ty"), str(m, "s"))
	case "bool":
		return flag(m, "b")
	case "fany":
		v := e.value(obj(m, "v"))
		return func() any { return v }
	case "key":
		return aitch.DynamicValueKey(bs(str(m, "key")))
	case "fn":
		f := e.fn(m)
		if flag(m, "plain") {
			return f
		}
		return aitch.DynamicValueFunc(f)
	case "cat":
		return aitch.NewConcatValue(e.args("concat", e.vals(list(m, "vs")))...)
	case "val":
		return aitch.NewValue(e.value(obj(m, "v")))
	case "node":
		n := e.node(obj(m, "n"))
		if n == nil {
			return nil
		}
		return n
	case "nbsp":
		if c, _ := m["count"].(float64); c != 1 || flag(m, "n") {
			return aitch.Nbsps(int(c))
		}
		return aitch.Nbsp()
	case "pkg":
		switch f := catalog[str(m, "f")].(type) {
		case string:
			return f
		case func(...any) aitch.Value:
			return f(e.args("unit", e.vals(list(m, "vs")))...)
		case func(string, any) aitch.Value:
			return f(bs(str(m, "nm")), e.vals(list(m, "vs"))[0])
		default:
			panic("value constructor " + str(m, "f"))
		}
	case "hmap":
		return e.headers(m)
	case "map":
		if flag(m, "nil") {
			return map[string]any(nil)
		}
		return e.dataMap(list(m, "m"))
	case "list":
		vs := e.vals(list(m, "vs"))
		switch str(m, "ty") {
		case "string":
			r := make([]string, len(vs))
			for i, v := range vs {
				r[i] = v.(string)
			}
			return r
		case "int":
			r := make([]int, len(vs))
			for i, v := range vs {
				r[i] = v.(int)
			}
			return r
		case "named":
			return anySlice(vs)
		case "map":
			r := make([]map[string]any, len(vs))
			for i, v := range vs {
				r[i] = v.(map[string]any)
			}
			return r
		}
		return vs
	case "other":
		return otherValue(str(m, "s"))
	default:
		panic("value " + t)
	}
}

type anySlice []any

// anys are the items of a list of any type (not of bytes)
func anys(v any) []any {
	rv := reflect.ValueOf(v)
	if !rv.IsValid() || rv.Kind() != reflect.Slice || rv.Type().Elem().Kind() == reflect.Uint8 {
		return nil
	}
	r := make([]any, rv.Len())
	for i := range r {
		r[i] = rv.Index(i).Interface()
	}
	return r
}

func (e *Env) vals(l []any) []any {
	r := make([]any, len(l))
	for i, v := range l {
		r[i] = e.value(v.(M))
	}
	return r
}

func (e *Env) dataMap(pairs []any) map[string]any {
	if len(pairs) == 0 {
		return nil
	}
	r := make(map[string]any, len(pairs))
	for _, p := range pairs {
		kv := p.([]any)
		r[bs(kv[0].(string))] = e.datum(kv[1].(M))
	}
	return r
}

// datum is a value to be found in data: Stringers that are slices would be lists there
func (e *Env) datum(m M) any {
	v := e.value(m)
	if str(m, "t") == "strg" && reflect.ValueOf(v).Kind() == reflect.Slice {
		return stringer{v.(fmt.Stringer).String()}
	}
	return v
}

func (e *Env) fn(m M) func(ctx *context.Context) []byte {
	id, mode, s := str(m, "id"), str(m, "mode"), bs(str(m, "s"))
	return func(ctx *context.Context) []byte {
		e.call("fn", id, ctx)
		strOr := func(v any) []byte {
			if s, ok := v.(string); ok {
				return []byte(s)
			}
			return []byte("-")
		}
		switch mode {
		case "const":
			return []byte(s)
		case "err":
			e.putError(ctx, s)
			return []byte("not written")
		case "count":
			e.root.cntMu.Lock()
			e.root.cnt[id]++
			n := e.root.cnt[id]
			e.root.cntMu.Unlock()
			return []byte(id + "." + strconv.Itoa(n))
		case "data":
			return strOr(ctx.Data[s])
		case "cargo":
			return strOr(ctx.Cargo)
		case "parent":
			if ctx.Parent == nil {
				return []byte("-")
			}
			return strOr(ctx.Parent.Cargo)
		}
		panic("fn mode " + mode)
	}
}

func (e *Env) cond(m M) aitch.ConditionalFunc {
	f := e.condition(m)
	if f == nil {
		return nil
	}
	return func(ctx *context.Context) bool {
		if e.declaring {
			e.event(nil, "cond")
		}
		return f(ctx)
	}
}

func (e *Env) condition(m M) aitch.ConditionalFunc {
	key, s, b := bs(str(m, "key")), bs(str(m, "s")), flag(m, "b")
	truth := func(data map[string]any) bool {
		v, ok := data[key]
		if !ok {
			return false
		}
		if vb, ok := v.(bool); ok {
			return vb
		}
		return true
	}
	switch c := str(m, "c"); c {
	case "nilfn":
		return nil
	case "const":
		return func(ctx *context.Context) bool { return b }
	case "key":
		return func(ctx *context.Context) bool { return truth(ctx.Data) }
	case "nkey":
		return func(ctx *context.Context) bool { return !truth(ctx.Data) }
	case "cargo":
		return func(ctx *context.Context) bool { cs, ok := ctx.Cargo.(string); return ok && cs == s }
	case "parentkey":
		return func(ctx *context.Context) bool {
			if ctx.Parent == nil {
				return false
			}
			_, ok := ctx.Parent.Data[key]
			return ok
		}
	default:
		panic("condition " + c)
	}
}

// ---- nodes

func (e *Env) nodes(l []any) []aitch.Node {
	r := make([]aitch.Node, len(l))
	for i, n := range l {
		r[i] = e.node(n.(M))
	}
	return r
}

// contents are nodes or values
func (e *Env) contents(l []any) []any {
	r := make([]any, len(l))
	for i, c := range l {
		m := c.(M)
		if _, ok := m["k"]; ok {
			if n := e.node(m); n != nil {
				r[i] = n
			}
		} else {
			r[i] = e.value(m)
		}
	}
	return r
}

func (e *Env) declared(l []any) []aitch.Node {
	e.declaring = true
	defer func() { e.declaring = false }()
	return e.nodeArgs("nodes", e.nodes(l))
}

func (e *Env) node(m M) aitch.Node {
	name := func() []byte { return e.bytesArg("name", raws(m, "n")) }
	vs := func() []any { return e.args("values", e.vals(list(m, "vs"))) }
	ns := func() []aitch.Node { return e.nodeArgs("nodes", e.nodes(list(m, "ns"))) }
	switch k := str(m, "k"); k {
	case "nil":
		return nil
	case "ref":
		n, ok := e.heap[str(m, "id")]
		if !ok {
			panic("ref " + str(m, "id"))
		}
		return n
	case "pkg":
		return e.pkgNode(m)
	case "doctype":
		return aitch.DocType()
	case "hdr":
		if flag(m, "js") {
			hs := []htmx.HeadersMap{}
			for _, v := range list(m, "vs") {
				hs = append(hs, e.headers(v.(M)))
			}
			return htmx.HeadersJS(hs...)
		}
		return htmx.Headers(vs()...)
	case "el":
		c := e.args("contents", e.contents(list(m, "c")))
		switch ctor := str(m, "ctor"); ctor {
		case "Element":
			return aitch.Element(bs(str(m, "n")), c...)
		case "VoidElement":
			return aitch.VoidElement(bs(str(m, "n")), c...)
		case "NewElement":
			return aitch.NewElement(name(), c...)
		case "NewVoidElement":
			return aitch.NewVoidElement(name(), c...)
		default:
			panic("ctor " + ctor)
		}
	case "attr":
		if str(m, "ctor") == "Attribute" {
			return aitch.Attribute(bs(str(m, "n")), vs()...)
		}
		return aitch.NewAttribute(name(), vs()...)
	case "battr":
		if str(m, "ctor") == "BooleanAttribute" {
			return aitch.BooleanAttribute(bs(str(m, "n")))
		}
		return aitch.NewBooleanAttribute(name())
	case "dattr":
		if str(m, "ctor") == "DelimitedAttribute" {
			return aitch.DelimitedAttribute(bs(str(m, "n")), bs(str(m, "d")), vs()...)
		}
		return aitch.NewDelimitedAttribute(name(), e.bytesArg("delimiter", raws(m, "d")), vs()...)
	case "text":
		return aitch.Text(vs()...)
	case "comment":
		return aitch.Comment(vs()...)
	case "frag":
		return aitch.Fragment(vs()...)
	case "pi":
		return aitch.PI(bs(str(m, "n")), vs()...)
	case "coll":
		return aitch.Collection(ns()...)
	case "cond":
		c := obj(m, "c")
		switch str(m, "via") {
		case "When":
			key := bs(str(c, "key"))
			if str(c, "c") == "nkey" {
				key = "!" + key
			}
			return aitch.When(aitch.DynamicValueKey(key), ns()...)
		default:
			return aitch.Conditional(e.cond(c), ns()...)
		}
	case "iter":
		src := obj(m, "src")
		id := str(src, "id")
		switch s := str(src, "s"); s {
		case "key":
			return aitch.IterateKey(bs(str(src, "key")), ns()...)
		case "fn", "fnkey":
			items := e.vals(list(src, "items"))
			return aitch.Iterate(func(ctx *context.Context) []any {
				e.call("iter", id, ctx)
				e.putError(ctx, str(src, "err"))
				if s == "fnkey" {
					return anys(ctx.Data[bs(str(src, "key"))])
				}
				return items
			}, ns()...)
		case "yield", "yieldkey":
			items := e.vals(list(src, "items"))
			return aitch.IterateYield(func(ctx *context.Context, yield func(any)) {
				e.call("iter", id, ctx)
				bt, ek := []byte(bs(str(src, "bt"))), num(src, "ek")
				if ek == 0 {
					e.putError(ctx, str(src, "err"))
				}
				l := items
				if s == "yieldkey" {
					l = anys(ctx.Data[bs(str(src, "key"))])
				}
				one := map[string]any{}
				for k, i := range l {
					if ctx.Error == nil && k > 0 && k == ek {
						e.putError(ctx, str(src, "err"))
					}
					if len(bt) > 0 {
						if ctx.Error != nil {
							return
						}
						ctx.Write(bt)
						e.call("yield", id, ctx)
						// one map for all the items
						if m, ok := i.(map[string]any); ok && m != nil {
							for key := range one {
								delete(one, key)
							}
							for key, v := range m {
								one[key] = v
							}
							i = one
						}
					}
					yield(i)
				}
				if ctx.Error == nil {
					if str(src, "err") != "" {
						e.putError(ctx, str(src, "err"))
					} else if len(bt) > 0 {
						ctx.Write(bt)
					}
				}
			}, ns()...)
		default:
			panic("iter " + s)
		}
	case "cc":
		if str(m, "id") == "nil" {
			return aitch.ContentCollect(nil)
		}
		nodes := ns()
		id := str(m, "id")
		return aitch.ContentCollect(func(ctx *context.Context) []aitch.Node {
			e.call("cc", id, ctx)
			e.putError(ctx, str(m, "err"))
			if anew(id) {
				return e.inside().declared(list(m, "ns"))
			}
			return nodes
		})
	case "custom":
		ns := e.nodeArgs("nodes", e.nodes(list(m, "ns")))
		return &customNode{e: e, ty: nodeTypes[str(m, "ty")], name: str(m, "n"), raw: raws(m, "n"), ns: ns, ret: str(m, "ret")}
	case "cattr":
		return &customAttr{name: bs(str(m, "n")), v: bs(str(m, "s"))}
	case "imp":
		if str(m, "id") == "nil" {
			return aitch.Imperative(nil)
		}
		id, ret := str(m, "id"), str(m, "ret")
		ops := make([]func(ic aitch.ImperativeContext), 0)
		for _, o := range list(m, "ops") {
			ops = append(ops, e.impOp(o.(M)))
		}
		return aitch.Imperative(func(ic aitch.ImperativeContext) error {
			ctx := ic.Context()
			e.call("imp", id, ctx)
			use := ops
			if anew(id) {
				in := e.inside()
				in.declaring = true
				use = nil
				for _, o := range list(m, "ops") {
					use = append(use, in.impOp(o.(M)))
				}
				in.declaring = false
			}
			for _, op := range use {
				op(ic)
			}
			if rk := list(m, "rk"); len(rk) > 0 {
				// only with the key
				if _, ok := ctx.Data[bs(rk[0].(string))]; !ok {
					return nil
				}
			}
			return e.ending(ctx, ret)
		})
	case "doc":
		var lang any
		if l := obj(m, "lang"); str(l, "t") != "nil" {
			lang = e.value(l)
		}
		return html.Document(lang, e.args("head", e.contents(list(m, "head"))), e.args("body", e.contents(list(m, "body"))))
	default:
		panic("node " + k)
	}
}

// ---- nodes of the user's own

var nodeTypes = map[string]aitch.NodeType{"el": aitch.ElementNode, "text": aitch.TextNode, "comment": aitch.CommentNode,
	"pi": aitch.PINode, "doc": aitch.DocumentNode, "frag": aitch.FragmentNode, "": aitch.ElementNode, "own": aitch.NodeType(100), "anon": aitch.NodeType(1 << 20), "neg": aitch.NodeType(-5)}

// customNode writes an element around its nodes; it leaves setting the context's error to others
type customNode struct {
	e    *Env
	ty   aitch.NodeType
	name string
	raw  []byte
	ns   []aitch.Node
	ret  string
}

func (n *customNode) Type() aitch.NodeType { return n.ty }
func (n *customNode) Name() string {
	if n.ty == nodeTypes["anon"] {
		return ""
	}
	return n.name
}
func (n *customNode) Render(ctx *context.Context) error {
	ctx.Write([]byte("<" + string(n.raw) + ">"))
	for _, c := range n.ns {
		if c != nil && c.Type() != aitch.AttributeNode {
			if err := c.Render(ctx); err != nil {
				return err
			}
		}
	}
	ctx.Write([]byte("</" + string(n.raw) + ">"))
	if ctx.Error == nil && n.ret != "" {
		return n.e.ending(ctx, n.ret)
	}
	return ctx.Error
}

// ending is how a callback ends: without an error, with one, or with a panic
func (e *Env) ending(ctx *context.Context, ret string) error {
	if ret == "" {
		return nil
	}
	e.event(ctx, "err:"+ret)
	if ret == "panic" {
		panic("boom")
	}
	return cbError(ret)
}

// putError puts an error into the context
func (e *Env) putError(ctx *context.Context, id string) {
	if id != "" {
		e.event(ctx, "err:"+id)
		if ctx.Error == nil {
			ctx.Error = cbError(id)
		}
	}
}

// customAttr is an attribute of the user's own
type customAttr struct{ name, v string }

var attrEscaper = strings.NewReplacer("\x00", "", "&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&quot;", "'", "&#39;")

func (n *customAttr) Type() aitch.NodeType { return aitch.AttributeNode }
func (n *customAttr) Name() string         { return n.name }
func (n *customAttr) Render(ctx *context.Context) error {
	ctx.Write([]byte(" " + n.name + "=\"" + attrEscaper.Replace(n.v) + "\""))
	return ctx.Error
}

func (e *Env) headers(m M) htmx.HeadersMap {
	if flag(m, "nilmap") {
		return nil
	}
	h := htmx.HeadersMap{}
	for k, v := range e.dataMap(list(m, "m")) {
		h[k] = v
	}
	e.watch("headers map", func() string {
		keys := []string{}
		for k, v := range h {
			keys = append(keys, k+"="+ident(v))
		}
		sort.Strings(keys)
		return strings.Join(keys, "|")
	})
	return h
}

func (e *Env) pkgNode(m M) aitch.Node {
	c := func() []any { return e.args("values", e.contents(list(m, "c"))) }
	switch f := catalog[str(m, "f")].(type) {
	case func(...any) aitch.Node:
		return f(c()...)
	case func() aitch.Node:
		return f()
	case func(string, ...any) aitch.Node:
		return f(bs(str(m, "nm")), c()...)
	}
	panic("constructor " + str(m, "f"))
}

func (e *Env) impOp(o M) func(ic aitch.ImperativeContext) {
	switch op := str(o, "o"); op {
	case "str":
		s := bs(str(o, "s"))
		return func(ic aitch.ImperativeContext) { ic.WriteString(s) }
	case "raw":
		b := e.bytesArg("raw", raws(o, "s"))
		return func(ic aitch.ImperativeContext) { ic.WriteRaw(b) }
	case "nodes":
		ns := e.nodeArgs("nodes", e.nodes(list(o, "ns")))
		return func(ic aitch.ImperativeContext) { ic.WriteNodes(ns...) }
	case "start":
		n := e.bytesArg("name", raws(o, "n"))
		as := e.nodeArgs("attributes", e.nodes(list(o, "as")))
		v := flag(o, "void")
		return func(ic aitch.ImperativeContext) { ic.Start(n, v, as...) }
	case "set":
		key, v := bs(str(o, "key")), obj(o, "v")
		return func(ic aitch.ImperativeContext) {
			ctx := ic.Context()
			for ctx.Parent != nil {
				ctx = ctx.Parent
			}
			ctx.Data[key] = e.datum(v)
		}
	case "err":
		return func(ic aitch.ImperativeContext) { e.putError(ic.Context(), str(o, "s")) }
	case "end":
		return func(ic aitch.ImperativeContext) { ic.End() }
	case "endall":
		return func(ic aitch.ImperativeContext) { ic.EndAll() }
	default:
		panic("imperative " + op)
	}
}

// wellKnown are errors of the standard library that callbacks and writers may return just as well
var wellKnown = map[string]error{"EOF": io.EOF, "canceled": gocontext.Canceled, "short": io.ErrShortWrite, "again": syscall.EAGAIN, "closed": io.ErrClosedPipe}

// sliceErr cannot be compared
type sliceErr []string

func (e sliceErr) Error() string { return e[0] }

// cbError is the error of a callback
func cbError(id string) error {
	if e, ok := wellKnown[id]; ok {
		return e
	}
	inside := &cbErr{"what " + id + " is about"}
	switch id[len(id)-1] % 6 {
	case 1:
		return sliceErr{id}
	case 2:
		return &wrapErr{id, inside}
	case 3:
		return &wrapErr{id, []error{io.EOF, gocontext.Canceled, io.ErrShortWrite, io.ErrClosedPipe}[len(id)%4]}
	case 4:
		return &joinErr{id, []error{inside, fmt.Errorf("%w, %w", io.EOF, inside)}}
	}
	return &cbErr{id}
}

// wrapErr is an error about another one
type wrapErr struct {
	id     string
	inside error
}

func (e *wrapErr) Error() string { return "callback error " + e.id + ": " + e.inside.Error() }
func (e *wrapErr) Unwrap() error { return e.inside }

// joinErr is an error about several others
type joinErr struct {
	id     string
	inside []error
}

func (e *joinErr) Error() string   { return "callback error " + e.id + ": several" }
func (e *joinErr) Unwrap() []error { return e.inside }

func errID(err error) string {
	if err == nil {
		return ""
	}
	var wr *wrapErr
	if errors.As(err, &wr) {
		return wr.id
	}
	var je *joinErr
	if errors.As(err, &je) {
		return je.id
	}
	for id, e := range wellKnown {
		if errors.Is(err, e) {
			return id
		}
	}
	var se sliceErr
	if errors.As(err, &se) {
		return se[0]
	}
	var ce *cbErr
	if errors.As(err, &ce) {
		return ce.id
	}
	var we *writeErr
	if errors.As(err, &we) {
		return we.id
	}
	return "other: " + err.Error()
}

// renderID is the id of an error returned by a node, which is that error and not one that wraps it
func renderID(err error) string {
	switch e := err.(type) {
	case nil:
		return ""
	case *wrapErr, *joinErr, sliceErr, *cbErr, *writeErr:
		return errID(err)
	default:
		for id, w := range wellKnown {
			if e == w {
				return id
			}
		}
	}
	return "other: " + err.Error()
}

type writeErr struct{ id string }

func (e *writeErr) Error() string { return "write error " + e.id }

// Temporary and Timeout: as errors of connections
func (e *writeErr) Temporary() bool { return true }
func (e *writeErr) Timeout() bool   { return true }

// Sink is a writer that keeps everything
type Sink struct {
	bytes.Buffer
	log *Log
}

func (s *Sink) Log() *Log { return s.log }
func (s *Sink) Gate()     {}
