package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// segText writes the segments of a template as html/template text
func segText(segs []any, dot string, sb *strings.Builder) {
	for _, x := range segs {
		s := x.(M)
		switch k := str(s, "s"); k {
		case "lit":
			sb.WriteString(bs(str(s, "v")))
		case "mark":
			switch str(s, "via") {
			case "pipe":
				sb.WriteString("{{ " + dot + " | " + str(s, "n") + " }}")
			case "var":
				sb.WriteString("{{with $x := " + dot + "}}{{" + str(s, "n") + " $x}}{{end}}")
			default:
				sb.WriteString("{{" + str(s, "n") + " " + dot + "}}")
			}
		case "if":
			sb.WriteString("{{if $.Data." + str(s, "key") + "}}")
			segText(list(s, "a"), dot, sb)
			sb.WriteString("{{else}}")
			segText(list(s, "b"), dot, sb)
			sb.WriteString("{{end}}")
		case "range":
			sb.WriteString("{{range $i, $e := $.Data." + str(s, "key") + "}}")
			segText(list(s, "a"), "$", sb)
			sb.WriteString("{{end}}")
		case "call":
			sb.WriteString("{{template \"" + str(s, "n") + "\" " + dot + "}}")
		default:
			panic("segment " + k)
		}
	}
}

func templateText(c M) string {
	var sb strings.Builder
	for _, d := range list(c, "defs") {
		p := d.([]any)
		sb.WriteString("{{define \"" + p[0].(string) + "\"}}")
		segText(p[1].([]any), "$", &sb)
		sb.WriteString("{{end}}")
	}
	segText(list(c, "segs"), ".", &sb)
	return sb.String()
}

// Exec is what was observed of one execution
type Exec struct {
	Out   string `json:"out"`
	After int    `json:"after"`
	Err   string `json:"err"`
	Panic string `json:"panic"`
}

type Solo struct {
	N   string `json:"n"`
	Out string `json:"out"`
	Err string `json:"err"`
}

type tmplEnv struct {
	e     *Env
	t     *aitch.Template
	perr  string
	must  bool
	execs []M
	data  []map[string]any
	cargo []any
	solo  [][]Solo
}

func newTmpl(c M) *tmplEnv {
	te := &tmplEnv{e: newEnv()}
	nm := aitch.NodeMap{}
	names := []string{}
	for _, x := range list(c, "nodes") {
		p := x.([]any)
		n := p[0].(string)
		nm[n] = te.e.node(p[1].(M))
		names = append(names, n)
	}
	text := templateText(c)
	te.perr = guard(func() {
		var err error
		te.t, err = aitch.NewTemplate("t", text, nm)
		if err != nil {
			te.perr = "error"
			panic("parse")
		}
	})
	if te.perr == "panic: parse" {
		te.perr = "error"
	}
	te.must = guard(func() { te.t = aitch.MustNewTemplate("t", text, nm) }) == ""
	for _, x := range list(c, "execs") {
		x := x.(M)
		te.execs = append(te.execs, x)
		te.data = append(te.data, te.e.dataMap(list(x, "data")))
		te.cargo = append(te.cargo, te.e.value(obj(x, "cargo")))
		solo := []Solo{}
		for _, n := range names {
			if nm[n] == nil {
				continue
			}
			sink := &Sink{log: &Log{}}
			s := Solo{N: n}
			ctx := context.New(sink, te.e.dataMap(list(x, "data")), te.e.value(obj(x, "cargo")))
			if p := guard(func() { s.Err = renderID(nm[n].Render(ctx)) }); p != "" {
				s.Err = p
				if p == "panic: boom" {
					s.Err = "panic"
				}
			}
			s.Out = l1(sink.Bytes())
			solo = append(solo, s)
		}
		te.solo = append(te.solo, solo)
	}
	return te
}

// execute runs execution i, writing to w
func (te *tmplEnv) execute(i int, w io.Writer, x *Exec) {
	x.Panic = guard(func() { x.Err = errID(te.t.Execute(w, te.data[i], te.cargo[i])) })
}

func runTmpl(c M) any {
	te := newTmpl(c)
	ex := []Exec{}
	kept := map[string]any{}
	if te.perr == "" {
		for i, x := range te.execs {
			if flag(c, "reuse") {
				// the same map for all executions, with other contents each time
				clear(kept)
				for k, v := range te.data[i] {
					kept[k] = v
				}
				te.data[i] = kept
			}
			o := Exec{}
			at := 1 << 30
			if a, ok := x["at"].(float64); ok && a >= 0 {
				at = int(a)
			}
			w := &faultWriter{at: at, kind: "part", rec: flag(x, "rec")}
			te.execute(i, logged(w, &Log{}, i), &o)
			o.Out, o.After = l1(w.got.Bytes()), w.after
			ex = append(ex, o)
		}
	}
	return M{"perr": te.perr, "must": te.must, "solo": te.solo, "ex": ex, "text": l1s(templateText(c)), "race": ""}
}

// concTmpl executes all executions at once, under each schedule
func concTmpl(c M) any {
	te := newTmpl(c)
	solo := M{"perr": te.perr, "must": te.must, "solo": te.solo, "text": l1s(templateText(c))}
	if te.perr != "" {
		solo["ex"] = []Exec{}
		solo["race"] = ""
		return []any{solo}
	}
	n := len(te.execs)
	return concurrently(n, c, func(i int, w io.Writer, res []any) {
		x := Exec{}
		te.execute(i, w, &x)
		res[i] = x
	}, func(outs [][]byte, logs []*Log, res []any, race string) any {
		tr := M{}
		for k, v := range solo {
			tr[k] = v
		}
		ex := make([]Exec, n)
		for i := range ex {
			if res[i] == nil {
				ex[i].Panic = "did not finish"
				continue
			}
			ex[i] = res[i].(Exec)
			ex[i].Out = l1(outs[i])
		}
		tr["ex"] = ex
		tr["race"] = race
		return tr
	})
}

// concProgram renders all renderings of a program at once, under each schedule
func concProgram(c M) any {
	e := newEnv()
	var makes []Rendering
	type rd struct {
		n     aitch.Node
		data  map[string]any
		cargo any
	}
	var rds []rd
	shared := map[string]rd{}
	aitch.PanicOnInvalidName = flag(c, "panics")
	for _, x := range list(c, "ops") {
		op := x.(M)
		switch str(op, "op") {
		case "make":
			r := emptyRendering()
			r.Panic = guard(func() { e.heap[str(op, "id")] = e.node(obj(op, "n")) })
			makes = append(makes, r)
		case "render":
			key := fmt.Sprint(op["data"], op["cargo"])
			v, ok := shared[key]
			if !ok {
				v = rd{data: e.dataMap(list(op, "data")), cargo: e.value(obj(op, "cargo"))}
				shared[key] = v
			}
			v.n = e.heap[str(op, "id")]
			rds = append(rds, v)
		}
	}
	n := len(rds)
	return concurrently(n, c, func(i int, w io.Writer, res []any) {
		r := emptyRendering()
		ctx := context.New(w, rds[i].data, rds[i].cargo)
		r.Panic = guard(func() {
			if rds[i].n != nil {
				r.Err = renderID(rds[i].n.Render(ctx))
			}
		})
		r.CErr = renderID(ctx.Error)
		r.Ctx = digCtx(ctx)
		res[i] = r
	}, func(outs [][]byte, logs []*Log, res []any, race string) any {
		o := Observed{Mut: e.modified()}
		o.Rs = append(o.Rs, makes...)
		for i := 0; i < n; i++ {
			if res[i] == nil {
				r := emptyRendering()
				r.Panic = "did not finish"
				o.Rs = append(o.Rs, r)
				continue
			}
			r := res[i].(Rendering)
			r.Toks = lex(outs[i])
			r.Ev = append([]string{}, logs[i].ev...)
			if race != "" && r.Panic == "" {
				r.Panic = race
			}
			o.Rs = append(o.Rs, r)
		}
		return o
	})
}
