package main

import (
	"bytes"
	gocontext "context"
	"fmt"
	"io"
	"syscall"

	"github.com/go-andiamo/aitch/context"
)

// faultWriter fails at a byte position
type faultWriter struct {
	at     int
	kind   string
	rec    bool
	err    error
	ok     []int
	fail   []int
	got    bytes.Buffer
	after  int
	failed bool
}

func (w *faultWriter) Write(b []byte) (int, error) {
	n := len(b)
	if w.failed {
		w.after += n
		if w.rec {
			return n, nil
		}
		if n == 0 {
			return 0, nil
		}
		return 0, &writeErr{"w2"}
	}
	if n == 0 {
		return 0, nil
	}
	if w.got.Len()+n <= w.at {
		w.ok = append(w.ok, n)
		w.got.Write(b)
		return n, nil
	}
	w.failed = true
	w.fail = append(w.fail, n)
	take := 0
	switch w.kind {
	case "part":
		take = w.at - w.got.Len()
	case "full":
		take = n
	}
	w.got.Write(b[:take])
	if w.err == nil {
		w.err = &writeErr{"w"}
	}
	return take, w.err
}

// writeErrors are what writers fail with; their id is "w"
var writeErrors = []error{&writeErr{"w"}, io.EOF, sliceErr{"w"}, gocontext.Canceled, io.ErrShortWrite, syscall.EAGAIN, syscall.EINTR, io.ErrClosedPipe, io.ErrUnexpectedEOF, io.ErrNoProgress}

// planned is the error's id, "w" for the planned one
func (w *faultWriter) planned(err error) string {
	_, slice := w.err.(sliceErr)
	if w.failed && w.err != nil && !slice && err == w.err {
		return "w"
	}
	return renderID(err)
}

type plan struct {
	At    int    `json:"at"`
	Kind  string `json:"kind"`
	Rec   bool   `json:"rec"`
	Ok    []int  `json:"ok"`
	Fail  []int  `json:"fail"`
	Got   int    `json:"got"`
	Pre   bool   `json:"pre"`
	After int    `json:"after"`
	Err   string `json:"err"`
	CErr  string `json:"cerr"`
	Panic string `json:"panic"`
}

// runFaults runs a program of one declaration and one rendering with every fault plan
func runFaults(c M) any {
	ops := list(c, "ops")
	mk, rd := ops[0].(M), ops[1].(M)
	render := func(to io.Writer, shape int, pre error) (err, cerr, p string) {
		e := newEnv()
		p = guard(func() {
			n := e.node(obj(mk, "n"))
			ctx := context.New(shaped(to, shape), e.dataMap(list(rd, "data")), e.value(obj(rd, "cargo")))
			ctx.Error = pre
			id := renderID
			if fw, ok := to.(*faultWriter); ok {
				id = fw.planned
			}
			err = id(n.Render(ctx))
			cerr = id(ctx.Error)
		})
		return
	}
	var full bytes.Buffer
	e, ce, p := render(&full, 0, nil)
	if p != "" {
		e = p
	}
	if ce != e {
		e = fmt.Sprintf("returned %q, in context %q", e, ce)
	}
	tr := M{"full": full.Len(), "e": e}
	plans := []plan{}
	if p == "" {
		max, step := full.Len(), 1
		if max > 400 {
			step = max / 400
		}
		for at := 0; at <= max; at += step {
			for _, kind := range []string{"part", "none", "full"} {
				for _, rec := range []bool{true, false} {
					if at == max && (kind != "part" || rec) {
						continue
					}
					w := &faultWriter{at: at, kind: kind, rec: rec, ok: []int{}, fail: []int{}, err: writeErrors[len(plans)%len(writeErrors)]}
					pl := plan{At: at, Kind: kind, Rec: rec}
					pl.Err, pl.CErr, pl.Panic = render(w, len(plans)/3, nil)
					pl.Ok, pl.Fail, pl.Got, pl.After = w.ok, w.fail, w.got.Len(), w.after
					pl.Pre = bytes.HasPrefix(full.Bytes(), w.got.Bytes())
					plans = append(plans, pl)
				}
			}
		}
	}
	tr["plans"] = plans
	w := &faultWriter{at: 1 << 30, rec: true}
	pe, pce, pp := render(w, 1, &writeErr{"pre"})
	tr["pre"] = M{"len": w.got.Len(), "err": pe, "cerr": pce, "panic": pp}
	return tr
}
