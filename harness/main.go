package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"runtime/debug"
	"strconv"
	"time"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
)

// Rendering is what was observed of one operation of a program
type Rendering struct {
	Toks  []OTok   `json:"toks"`
	Ev    []string `json:"ev"`
	Err   string   `json:"err"`
	CErr  string   `json:"cerr"`
	Panic string   `json:"panic"`
	Outs  int      `json:"outs"`
	Ctx   string   `json:"ctx"`
	Info  string   `json:"info,omitempty"`
}

type Observed struct {
	Rs  []Rendering `json:"rs"`
	Mut []string    `json:"mut"`
}

func emptyRendering() Rendering {
	return Rendering{Toks: []OTok{}, Ev: []string{}, Outs: 1}
}

// guard runs f, turning a panic into an observation
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint("panic: ", r)
			if os.Getenv("VERIF_DEBUG") != "" {
				p += "\n" + string(debug.Stack())
			}
		}
	}()
	f()
	return ""
}

// renders counts the renderings of a program
var renders int

func renderOnce(n aitch.Node, ctx *context.Context, r *Rendering) (out []byte) {
	log := &Log{}
	sink := &Sink{log: log}
	ctx.Writer = sink
	if renders++; renders%2 == 0 {
		ctx.Writer = logged(sink, log, renders/2)
	}
	r.Panic = guard(func() {
		if n != nil {
			r.Err = renderID(n.Render(ctx))
		}
	})
	r.CErr = renderID(ctx.Error)
	r.Ev = append(r.Ev, log.ev...)
	r.Ctx = digCtx(ctx)
	return sink.Bytes()
}

var floatText = regexp.MustCompile(`NaN|[+-]?(Inf|[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?)`)

// shortestFloats writes every number of out in its shortest form
func shortestFloats(out []byte, ty string) []byte {
	bits := 64
	if ty == "float32" {
		bits = 32
	}
	return floatText.ReplaceAllFunc(out, func(b []byte) []byte {
		f, err := strconv.ParseFloat(string(b), bits)
		if err != nil {
			return b
		}
		return strconv.AppendFloat(nil, f, 'g', -1, bits)
	})
}

func info(n aitch.Node) string {
	if n == nil {
		return "nil"
	}
	switch n.Type() {
	case aitch.ElementNode:
		return "element " + l1s(n.Name())
	case aitch.AttributeNode:
		return "attribute " + l1s(n.Name())
	case aitch.TextNode:
		return "text"
	case aitch.CommentNode:
		return "comment"
	case aitch.FragmentNode:
		return "fragment"
	case aitch.PINode:
		return "pi"
	case aitch.DocumentNode:
		return "document"
	}
	return "other"
}

func runProgram(c M) Observed {
	e := newEnv()
	renders = len(list(c, "ops"))
	o := Observed{Rs: []Rendering{}, Mut: []string{}}
	aitch.PanicOnInvalidName = flag(c, "panics")
	// with reuse, all renderings are given the same context and the same map, with other contents each time
	var kept *context.Context
	if flag(c, "reuse") {
		kept = context.New(nil, map[string]any{}, nil)
	}
	for _, x := range list(c, "ops") {
		op := x.(M)
		r := emptyRendering()
		switch k := str(op, "op"); k {
		case "make":
			e.log, e.declaring = &Log{}, true
			r.Panic = guard(func() { e.heap[str(op, "id")] = e.node(obj(op, "n")) })
			e.declaring = false
			r.Ev = append(r.Ev, e.log.ev...)
			e.log = &Log{}
		case "info":
			r.Info = info(e.heap[str(op, "id")])
		case "render":
			times := 1
			if t, ok := op["times"].(float64); ok {
				times = int(t)
			}
			outs := map[string]bool{}
			for i := 0; i < times; i++ {
				ctx := context.New(nil, e.dataMap(list(op, "data")), e.value(obj(op, "cargo")))
				if kept != nil {
					clear(kept.Data)
					for k, v := range ctx.Data {
						kept.Data[k] = v
					}
					kept.Cargo, kept.Error = ctx.Cargo, nil
					ctx = kept
				}
				ri := emptyRendering()
				out := renderOnce(e.heap[str(op, "id")], ctx, &ri)
				if !outs[string(out)] {
					outs[string(out)] = true
					if n := e.heap[str(op, "id")]; n != nil && n.Type() == aitch.AttributeNode {
						out = []byte("<" + string(out) + ">")
					}
					if ty := str(c, "floats"); ty != "" {
						out = shortestFloats(out, ty)
					}
					ri.Toks = lex(out)
					r = ri
				}
			}
			r.Outs = len(outs)
		default:
			panic("op " + k)
		}
		o.Rs = append(o.Rs, r)
	}
	o.Mut = append(o.Mut, e.modified()...)
	return o
}

// each reads programs (one JSON object a line), runs f on each, and writes id, case and observation
func each(in, out string, f func(c M) any) {
	fi, err := os.Open(in)
	check(err)
	defer fi.Close()
	start := 0
	if s := os.Getenv("VERIF_START"); s != "" {
		_, err = fmt.Sscan(s, &start)
		check(err)
	}
	flags := os.O_CREATE | os.O_WRONLY | os.O_TRUNC
	if start > 0 {
		flags = os.O_CREATE | os.O_WRONLY | os.O_APPEND
	}
	fo, err := os.OpenFile(out, flags, 0o644)
	check(err)
	defer fo.Close()
	sc := bufio.NewScanner(fi)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	i := 0
	for sc.Scan() {
		if i < start {
			i++
			continue
		}
		var line M
		check(json.Unmarshal(sc.Bytes(), &line))
		res := make(chan any, 1)
		go func() {
			var r any
			if p := guard(func() { r = f(line["case"].(M)) }); p != "" {
				fmt.Fprintln(os.Stderr, "HARNESS-PANIC", line["id"], p)
				os.Exit(3)
			}
			res <- r
		}()
		select {
		case r := <-res:
			data, err := json.Marshal(M{"id": line["id"], "case": line["case"], "tr": r})
			check(err)
			_, err = fo.Write(append(data, '\n'))
			check(err)
		case <-time.After(60 * time.Second):
			fmt.Fprintln(os.Stderr, "HANG", i)
			os.Exit(4)
		}
		i++
	}
	check(sc.Err())
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: harness MODE IN OUT")
		os.Exit(2)
	}
	in, out := os.Args[2], os.Args[3]
	switch mode := os.Args[1]; mode {
	case "faults":
		each(in, out, runFaults)
	case "tmpl":
		each(in, out, runTmpl)
	case "gencode":
		each(in, out, runGen)
	case "gofiles":
		each(in, out, func(c M) any { return M{"go": l1s(goFile(c))} })
	case "ctxget":
		each(in, out, runCtxGet)
	case "conctmpl":
		each(in, out, concTmpl)
	case "concprogram":
		each(in, out, concProgram)
	case "program":
		each(in, out, func(c M) any { return runProgram(c) })
	default:
		fmt.Fprintln(os.Stderr, "mode", mode)
		os.Exit(2)
	}
}
