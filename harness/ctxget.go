package main

import (
	"fmt"

	"github.com/go-andiamo/aitch/context"
)

type NS string
type gStringer struct{ s string }
type gErr struct{ s string }
type gBoth struct{ s string }

func (g gStringer) String() string { return g.s }
func (g gErr) Error() string       { return g.s }
func (g gBoth) String() string     { return g.s }
func (g gBoth) Error() string      { return g.s }

var thePtr = func() *string { s := "p"; return &s }()

// cargoTypes is filled by generated code: cargo of each struct shape
var cargoTypes = map[string]func() any{}

func leafValue(m M) any {
	switch v := str(m, "v"); v {
	case "nil":
		return nil
	case "string:", "int:0", "string:s":
		switch v {
		case "string:":
			return ""
		case "int:0":
			return 0
		}
		return "s"
	case "NS:n":
		return NS("n")
	case "stringer:g":
		return gStringer{"g"}
	case "err:e":
		return gErr{"e"}
	case "both:b":
		return gBoth{"b"}
	case "strptr:p":
		return thePtr
	case "strptr:nil":
		return (*string)(nil)
	case "bytes:b":
		return []byte("b")
	case "map:m":
		return map[string]any{"K": "inner"}
	case "bool:false":
		return false
	case "float64:1.5":
		return 1.5
	case "slice":
		return []any{"K"}
	case "func":
		return func() string { return "K" }
	case "chan":
		return make(chan string)
	case "array":
		return [1]string{"K"}
	case "ctx":
		return context.New(nil, map[string]any{"K": "inner"}, nil)
	default:
		var n int
		if _, err := fmt.Sscanf(v, "int:%d", &n); err == nil {
			return n
		}
		if str(m, "ty") == "string" {
			return v[len("string:"):]
		}
		panic("leaf " + v)
	}
}

// digLeaf names a value found
func digLeaf(v any) string {
	switch vt := v.(type) {
	case nil:
		return "nil"
	case string:
		return "string:" + vt
	case int:
		return fmt.Sprint("int:", vt)
	case NS:
		return "NS:" + string(vt)
	case gStringer:
		return "stringer:" + vt.s
	case gErr:
		return "err:" + vt.s
	case gBoth:
		return "both:" + vt.s
	case *string:
		if vt == nil {
			return "strptr:nil"
		}
		if vt != thePtr {
			return "strptr:copy"
		}
		return "strptr:p"
	case []byte:
		return "bytes:" + string(vt)
	case map[string]any:
		return "map:m"
	case bool:
		return fmt.Sprint("bool:", vt)
	case float64:
		return fmt.Sprint("float64:", vt)
	}
	s := fmt.Sprintf("%#v", v)
	t := fmt.Sprintf("%T", v)
	if t[0] == '*' {
		if s[len(s)-5:] == "(nil)" {
			return "structptr:nil"
		}
		return "structptr"
	}
	return "struct"
}

func leafMap[K ~string](m M) any {
	nilMap := flag(m, "nil")
	switch str(m, "elem") {
	case "string":
		r := map[K]string{}
		for _, p := range list(m, "m") {
			r[K(p.([]any)[0].(string))] = leafValue(p.([]any)[1].(M)).(string)
		}
		return r
	case "int":
		r := map[K]int{}
		for _, p := range list(m, "m") {
			r[K(p.([]any)[0].(string))] = leafValue(p.([]any)[1].(M)).(int)
		}
		return r
	}
	if nilMap {
		return map[K]any(nil)
	}
	r := map[K]any{}
	for _, p := range list(m, "m") {
		r[K(p.([]any)[0].(string))] = leafValue(p.([]any)[1].(M))
	}
	return r
}

func cargoMap(m M) any {
	switch str(m, "key") {
	case "string":
		return leafMap[string](m)
	case "named":
		return leafMap[NS](m)
	case "any":
		r := map[any]any{}
		for _, p := range list(m, "m") {
			r[p.([]any)[0].(string)] = leafValue(p.([]any)[1].(M))
		}
		return r
	case "int":
		if flag(m, "nil") {
			return map[int]any(nil)
		}
		return map[int]any{1: "s"}
	}
	panic("map")
}

// cargoPtr: a pointer to a value of its own type
func cargoPtr(v any) any {
	switch vt := v.(type) {
	case map[string]any:
		return &vt
	case map[NS]any:
		return &vt
	case map[any]any:
		return &vt
	case map[int]any:
		return &vt
	case map[string]string:
		return &vt
	case map[NS]string:
		return &vt
	case map[string]int:
		return &vt
	case map[NS]int:
		return &vt
	case *map[string]any:
		return &vt
	}
	panic(fmt.Sprintf("pointer to %T", v))
}

func cargoOf(m M, shape string) any {
	if shape != "" {
		return cargoTypes[shape]()
	}
	switch str(m, "c") {
	case "none":
		return nil
	case "nilptr":
		switch str(m, "of") {
		case "struct":
			return (*gBoth)(nil)
		case "map":
			return (*map[string]any)(nil)
		case "string":
			return (*string)(nil)
		}
		return (*NS)(nil)
	case "leaf":
		return leafValue(obj(m, "v"))
	case "map":
		return cargoMap(m)
	case "ptr":
		return cargoPtr(cargoOf(obj(m, "p"), ""))
	}
	panic("cargo")
}

// Look is one lookup
type Look struct {
	Key   string `json:"key"`
	Type  string `json:"type"`
	Found bool   `json:"found"`
	Val   string `json:"val"`
	Zero  bool   `json:"zero"`
	Must  string `json:"must"`
	Panic string `json:"panic"`
}

func look[T any](ctx *context.Context, key, name string, zero func(T) bool) Look {
	l := Look{Key: key, Type: name}
	l.Panic = guard(func() {
		v, ok := context.Get[T](ctx, key)
		l.Found = ok
		l.Val = digLeaf(v)
		l.Zero = zero(v)
	})
	if guard(func() { l.Must = digLeaf(context.MustGet[T](ctx, key)) }) != "" {
		l.Must = "panic"
	}
	return l
}

func runCtxGet(c M) any {
	data := map[string]any{}
	for _, p := range list(c, "data") {
		data[p.([]any)[0].(string)] = leafValue(p.([]any)[1].(M))
	}
	if len(data) == 0 {
		data = nil
	}
	cargo := cargoOf(obj(c, "cargo"), str(c, "shape"))
	parent := context.New(nil, map[string]any{"K": "parent", "L": "parent", "absent": "parent"}, map[string]any{"K": "pc"})
	ctx := context.New(nil, data, cargo)
	ctx.Parent = parent
	snap := func() string {
		return fmt.Sprintf("%#v|%p|%#v|%v", data, parent, deref(cargo), len(data)) + fmt.Sprintf("%T%v", cargo, ctx.Error) + fmt.Sprintf("%#v", parent)
	}
	before := snap()
	looks := []Look{}
	keys := []string{"K", "k", "L", "A", "B", "a", "", "AC", "absent", "Long", "long", "LONG", "K.L", "String", " K", "AC.K"}
	for _, k := range keys {
		looks = append(looks,
			look(ctx, k, "string", func(v string) bool { return v == "" }),
			look(ctx, k, "any", func(v any) bool { return v == nil }),
			look(ctx, k, "int", func(v int) bool { return v == 0 }))
		if k == "K" || !flag(c, "few") {
			looks = append(looks,
				look(ctx, k, "NS", func(v NS) bool { return v == "" }),
				look(ctx, k, "Stringer", func(v fmt.Stringer) bool { return v == nil }),
				look(ctx, k, "error", func(v error) bool { return v == nil }),
				look(ctx, k, "both", func(v gBoth) bool { return v == gBoth{} }),
				look(ctx, k, "strptr", func(v *string) bool { return v == nil }),
				look(ctx, k, "bytes", func(v []byte) bool { return v == nil }),
				look(ctx, k, "map", func(v map[string]any) bool { return v == nil }),
				look(ctx, k, "bool", func(v bool) bool { return !v }),
				look(ctx, k, "float64", func(v float64) bool { return v == 0 }))
		}
	}
	return M{"looks": looks, "mut": snap() != before}
}

func deref(v any) any {
	switch vt := v.(type) {
	case *map[string]any:
		if vt != nil {
			return *vt
		}
	case *map[NS]any:
		if vt != nil {
			return *vt
		}
	}
	return v
}
