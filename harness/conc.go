package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// gateWriter stops before every write and every callback until the controller lets it go on
type gateWriter struct {
	bytes.Buffer
	log   *Log
	at    chan struct{} // tells the controller that the gate is reached
	pass  chan struct{} // the controller lets it pass
	free  chan struct{} // closed: no more stops
	count int
}

func (w *gateWriter) Log() *Log { return w.log }

func (w *gateWriter) Gate() {
	w.count++
	if w.at == nil {
		return
	}
	select {
	case <-w.free:
		return
	default:
	}
	select {
	case w.at <- struct{}{}:
	case <-w.free:
		return
	}
	select {
	case <-w.pass:
	case <-w.free:
	}
}

func (w *gateWriter) Write(b []byte) (int, error) {
	w.Gate()
	return w.Buffer.Write(b)
}

// freeWriter gives way now and then
type freeWriter struct {
	bytes.Buffer
	log *Log
	rnd uint32
}

func (w *freeWriter) Log() *Log { return w.log }
func (w *freeWriter) Gate() {
	w.rnd = w.rnd*1664525 + 1013904223
	if w.rnd>>29 == 0 {
		runtime.Gosched()
	}
}
func (w *freeWriter) Write(b []byte) (int, error) {
	w.Gate()
	return w.Buffer.Write(b)
}

// blocked counts how often a thread did not come to a gate in time: code under test that has its renderings wait for
// each other gets less and less time for it
var blocked atomic.Int64

func patience() time.Duration {
	switch b := blocked.Load(); {
	case b < 20:
		return 100 * time.Millisecond
	case b < 200:
		return 10 * time.Millisecond
	}
	return time.Millisecond
}

// the schedules are pieces [thread, number of gates]; what is left at the end runs in turn
func gated(n int, sched []any, run func(i int, w io.Writer, res []any)) (outs [][]byte, logs []*Log, res []any) {
	res = make([]any, n)
	ws := make([]*gateWriter, n)
	done := make([]chan struct{}, n)
	free := make(chan struct{})
	var mu sync.Mutex
	for i := 0; i < n; i++ {
		ws[i] = &gateWriter{log: &Log{}, at: make(chan struct{}), pass: make(chan struct{}), free: free}
		done[i] = make(chan struct{})
	}
	started := make([]bool, n)
	// wait until thread i is at a gate (true) or has ended (false); a thread waiting for another one is passed over
	atGate := make([]bool, n)
	ended := make([]bool, n)
	settle := func(i int) {
		if ended[i] || atGate[i] {
			return
		}
		t := time.NewTimer(patience())
		defer t.Stop()
		select {
		case <-ws[i].at:
			atGate[i] = true
		case <-done[i]:
			ended[i] = true
		case <-t.C:
			blocked.Add(1)
		}
	}
	begin := func(i int) {
		if started[i] {
			return
		}
		started[i] = true
		go func() {
			defer close(done[i])
			mine := make([]any, n)
			run(i, ws[i], mine)
			mu.Lock()
			res[i] = mine[i]
			mu.Unlock()
		}()
	}
	advance := func(i, steps int) {
		begin(i)
		for s := 0; s < steps; s++ {
			settle(i)
			if ended[i] || !atGate[i] {
				return
			}
			atGate[i] = false
			ws[i].pass <- struct{}{}
		}
		settle(i)
	}
	for _, x := range sched {
		p := x.([]any)
		advance(int(p[0].(float64)), int(p[1].(float64)))
	}
	for i := 0; i < n; i++ {
		begin(i)
	}
	close(free)
	end := time.NewTimer(20 * time.Second)
	defer end.Stop()
	for i := 0; i < n; i++ {
		select {
		case <-done[i]:
		case <-end.C:
			i = n
		}
	}
	mu.Lock()
	defer mu.Unlock()
	got := append([]any{}, res...)
	for i := 0; i < n; i++ {
		if got[i] == nil {
			outs, logs = append(outs, nil), append(logs, &Log{})
			continue
		}
		outs, logs = append(outs, ws[i].Bytes()), append(logs, ws[i].log)
	}
	return outs, logs, got
}

func raceLog() (int64, string) {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return 0, ""
	}
	p = fmt.Sprintf("%s.%d", p, os.Getpid())
	st, err := os.Stat(p)
	if err != nil {
		return 0, p
	}
	return st.Size(), p
}

// concurrently runs n activities together: under the schedules of c (sched), and rounds times without control.
// It answers the distinct observations.
func concurrently(n int, c M, run func(i int, w io.Writer, res []any), observe func(outs [][]byte, logs []*Log, res []any, race string) any) any {
	distinct := []any{}
	seen := map[string]bool{}
	add := func(o any) {
		data, err := json.Marshal(o)
		check(err)
		if !seen[string(data)] && len(distinct) < 20 {
			seen[string(data)] = true
			distinct = append(distinct, o)
		}
	}
	if flag(c, "count") {
		// how many gates each activity passes
		gates := make([]int, n)
		for i := 0; i < n; i++ {
			w := &gateWriter{log: &Log{}}
			res := make([]any, n)
			run(i, w, res)
			gates[i] = w.count
		}
		return gates
	}
	for _, s := range list(c, "scheds") {
		outs, logs, res := gated(n, s.([]any), run)
		add(observe(outs, logs, res, ""))
	}
	churning.Store(true)
	defer churning.Store(false)
	rounds := 0
	if r, ok := c["free"].(float64); ok {
		rounds = int(r)
	}
	for round := 0; round < rounds; round++ {
		before, path := raceLog()
		res := make([]any, n)
		ws := make([]*freeWriter, n)
		for i := range ws {
			ws[i] = &freeWriter{log: &Log{}, rnd: uint32(round*7919 + i*104729)}
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				run(i, ws[i], res)
			}()
		}
		close(start)
		wg.Wait()
		race := ""
		if after, _ := raceLog(); after > before {
			race = raceText(path, before)
		}
		outs, logs := make([][]byte, n), make([]*Log, n)
		for i, w := range ws {
			outs[i], logs[i] = w.Bytes(), w.log
		}
		add(observe(outs, logs, res, race))
	}
	return distinct
}

// raceText is where the race was seen, without addresses
func raceText(path string, from int64) string {
	data, err := os.ReadFile(path)
	if err != nil || int64(len(data)) <= from {
		return "data race"
	}
	var fns []string
	for _, l := range strings.Split(string(data[from:]), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/go-andiamo/aitch") && len(fns) < 4 {
			fns = append(fns, strings.TrimSuffix(l, "()"))
		}
	}
	return "data race: " + strings.Join(fns, ", ")
}
