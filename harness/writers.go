package main

import (
	"io"
	"net/http"
)

// Writers of different shapes which all hand on what they are given: code may look at more than Write.

// richWriter has the methods of buffers, files and responses
type richWriter struct{ w io.Writer }

func (r richWriter) Write(b []byte) (int, error)       { return r.w.Write(b) }
func (r richWriter) WriteString(s string) (int, error) { return r.w.Write([]byte(s)) }
func (r richWriter) WriteByte(c byte) error            { _, err := r.w.Write([]byte{c}); return err }
func (r richWriter) WriteRune(c rune) (int, error)     { return r.w.Write([]byte(string(c))) }
func (r richWriter) Header() http.Header               { return http.Header{} }
func (r richWriter) WriteHeader(int)                   {}
func (r richWriter) Flush()                            {}
func (r richWriter) Sync() error                       { return nil }
func (r richWriter) Close() error                      { return nil }
func (r richWriter) ReadFrom(from io.Reader) (int64, error) {
	b, err := io.ReadAll(from)
	if err != nil {
		return 0, err
	}
	n, err := r.w.Write(b)
	return int64(n), err
}

// heldWriter cannot be compared, nor be a key
type heldWriter struct {
	w    io.Writer
	kept []int
}

func (h heldWriter) Write(b []byte) (int, error) { return h.w.Write(b) }

// funcWriter is a function
type funcWriter func(b []byte) (int, error)

func (f funcWriter) Write(b []byte) (int, error) { return f(b) }

func shaped(w io.Writer, k int) io.Writer {
	switch k % 4 {
	case 1:
		return richWriter{w}
	case 2:
		return heldWriter{w, nil}
	case 3:
		return funcWriter(w.Write)
	}
	return w
}

// loggedWriter, richLogged, heldLogged: the same for writers which keep the log of a rendering
type loggedWriter struct {
	w   io.Writer
	log *Log
}

func (s *loggedWriter) Write(b []byte) (int, error) { return s.w.Write(b) }
func (s *loggedWriter) Log() *Log                   { return s.log }
func (s *loggedWriter) Gate()                       {}

type richLogged struct {
	richWriter
	log *Log
}

func (s richLogged) Log() *Log { return s.log }
func (s richLogged) Gate()     {}

type heldLogged struct {
	heldWriter
	log *Log
}

func (s heldLogged) Log() *Log { return s.log }
func (s heldLogged) Gate()     {}

func logged(w io.Writer, log *Log, k int) io.Writer {
	switch k % 3 {
	case 1:
		return richLogged{richWriter{w}, log}
	case 2:
		return heldLogged{heldWriter{w, nil}, log}
	}
	return &loggedWriter{w, log}
}
