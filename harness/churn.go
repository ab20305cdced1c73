package main

import (
	"io"
	"strconv"
	"sync/atomic"

	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/context"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

// While activities run together without control, their callbacks also build nodes of their own, with texts and names
// never seen before, and render and forget them: what building keeps for later must be safe to share.
var (
	churning atomic.Bool
	churned  atomic.Uint64
)

func churn() {
	if !churning.Load() {
		return
	}
	i := churned.Add(1)
	long := "x" + strconv.FormatUint(i, 36)
	short := string(rune('a'+i%26)) + long[len(long)-1:]
	s := long
	if i%2 == 0 {
		s = short
	}
	p, tail := func(*context.Context) bool { return i%3 > 0 }, func(ctx *context.Context) any { return s }
	var n aitch.Node
	switch i % 23 {
	case 0, 1, 2:
		n = aitch.Text(s)
	case 3:
		n = aitch.Text(s, tail, int(i))
	case 4:
		n = aitch.Element(s, s)
	case 5:
		n = aitch.NewElement([]byte(s), aitch.NewAttribute([]byte(s), s))
	case 6:
		n = aitch.VoidElement(s, aitch.Attribute(s, s))
	case 7:
		n = aitch.Element("p", aitch.BooleanAttribute(s), aitch.NewBooleanAttribute([]byte(s+"b")))
	case 8:
		n = aitch.Element("p", aitch.DelimitedAttribute(s, ",", s, tail))
	case 9:
		n = aitch.Element("p", aitch.NewDelimitedAttribute([]byte(s), []byte(short), s, s))
	case 10:
		n = aitch.Comment(s)
	case 11:
		n = aitch.PI(s, aitch.Attribute(s, s))
	case 12:
		n = aitch.Fragment(s, aitch.Text(s))
	case 13:
		n = aitch.Conditional(p, aitch.Text(s))
	case 14:
		n = aitch.When(aitch.DynamicValueKey(s), aitch.Text(s))
	case 15:
		n = aitch.IterateKey(s, aitch.Text(s))
	case 16:
		n = html.Div(html.Id(s), html.Class(s, short), s)
	case 17:
		n = html.Div(html.Style(css.Width(css.Px(s)), css.Height(css.Px(int(i))), css.Color(s)))
	case 18:
		n = html.Div(htmx.Get(s), htmx.Target(aitch.NewConcatValue("#", s)))
	case 19:
		n = svg.Circle(svg.R(s), svg.Cx(int(i)))
	case 20:
		n = aitch.Collection(aitch.Element(s), aitch.DocType())
	case 21:
		n = aitch.Text(aitch.Nbsps(int(i)%7), aitch.Nbsp(), aitch.NewValue(s))
	case 22:
		n = html.Document(s, []any{html.Title(s)}, []any{s})
	}
	_ = n.Render(context.New(io.Discard, map[string]any{short: []any{s}}, nil))
}
