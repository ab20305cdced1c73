package main

import (
	"bytes"
	"strconv"
)

// reading the written bytes back as tokens

type OAttr struct {
	N   string `json:"n"`
	B   bool   `json:"b"`
	V   string `json:"v"`
	Src string `json:"src"`
}

type OTok struct {
	K   string  `json:"k"`
	N   string  `json:"n"`
	V   string  `json:"v"`
	Src string  `json:"src"`
	As  []OAttr `json:"as"`
}

const soh, stx = 1, 2

// l1 transports bytes as Latin-1
func l1(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}

func l1s(s string) string { return l1([]byte(s)) }

// by is the inverse of l1
func by(s string) []byte {
	r := make([]byte, 0, len(s))
	for _, c := range s {
		if c > 0xff {
			panic("not latin-1: " + strconv.Quote(s))
		}
		r = append(r, byte(c))
	}
	return r
}

func bs(s string) string { return string(by(s)) }

var entities = []struct {
	e string
	c byte
}{{"&lt;", '<'}, {"&gt;", '>'}, {"&amp;", '&'}, {"&quot;", '"'}, {"&apos;", '\''},
	{"&#60;", '<'}, {"&#62;", '>'}, {"&#38;", '&'}, {"&#34;", '"'}, {"&#39;", '\''}}

func decode(b []byte) []byte {
	var out []byte
	raw := false
outer:
	for i := 0; i < len(b); i++ {
		c := b[i]
		if raw {
			raw = c != stx
		} else if c == soh {
			raw = true
		} else if c == '&' {
			for _, e := range entities {
				if bytes.HasPrefix(b[i:], []byte(e.e)) {
					out = append(out, e.c)
					i += len(e.e) - 1
					continue outer
				}
			}
		}
		out = append(out, c)
	}
	return out
}

// find returns the position of sep at or after i, not inside raw bytes (-1 if there is none)
func find(b []byte, i int, sep string) int {
	raw := false
	for ; i < len(b); i++ {
		if raw {
			raw = b[i] != stx
		} else if b[i] == soh {
			raw = true
		} else if bytes.HasPrefix(b[i:], []byte(sep)) {
			return i
		}
	}
	return -1
}

func lex(b []byte) []OTok {
	toks := []OTok{}
	add := func(k string, n []byte, src []byte, as []OAttr) {
		if as == nil {
			as = []OAttr{}
		}
		toks = append(toks, OTok{K: k, N: l1(n), V: l1(decode(src)), Src: l1(src), As: as})
	}
	i := 0
	for i < len(b) {
		if b[i] != '<' {
			j := find(b, i, "<")
			if j < 0 {
				j = len(b)
			}
			add("text", nil, b[i:j], nil)
			i = j
			continue
		}
		rest := b[i:]
		switch {
		case bytes.HasPrefix(rest, []byte("</")):
			j := find(b, i, ">")
			if j < 0 {
				add("trunc", nil, rest, nil)
				return toks
			}
			add("close", b[i+2:j], nil, nil)
			i = j + 1
		case bytes.HasPrefix(rest, []byte("<!--")):
			j := find(b, i+4, "-->")
			if j < 0 {
				add("trunc", nil, rest, nil)
				return toks
			}
			add("comment", nil, b[i+4:j], nil)
			i = j + 3
		case bytes.HasPrefix(rest, []byte("<!")):
			j := find(b, i, ">\n")
			if j < 0 {
				add("trunc", nil, rest, nil)
				return toks
			}
			body := b[i+2 : j]
			name := body
			var val []byte
			if k := bytes.IndexByte(body, ' '); k >= 0 {
				name, val = body[:k], body[k+1:]
			}
			add("pi", name, val, nil)
			i = j + 2
		default:
			i++
			j := i
			for j < len(b) && b[j] != ' ' && b[j] != '>' && b[j] != '<' && b[j] != '"' {
				j++
			}
			name := b[i:j]
			as := []OAttr{}
			i = j
			ok := false
			for i < len(b) {
				if b[i] == '>' {
					ok = true
					i++
					break
				}
				if b[i] != ' ' {
					break
				}
				i++
				j = i
				for j < len(b) && b[j] != ' ' && b[j] != '>' && b[j] != '=' && b[j] != '"' && b[j] != '<' {
					j++
				}
				an := b[i:j]
				if len(an) == 0 {
					break
				}
				i = j
				if i < len(b) && b[i] == '=' {
					if i+1 >= len(b) || b[i+1] != '"' {
						break
					}
					j = find(b, i+2, `"`)
					if j < 0 {
						break
					}
					src := b[i+2 : j]
					as = append(as, OAttr{N: l1(an), V: l1(decode(src)), Src: l1(src)})
					i = j + 1
				} else {
					as = append(as, OAttr{N: l1(an), B: true})
				}
			}
			if !ok {
				add("junk", name, b[i:], as)
				return toks
			}
			add("tag", name, nil, as)
		}
	}
	return toks
}
