// Package harness steps the goroutines of the program under test in lockstep:
// every frame (function body, mock, handler) that user code can run in is an
// interpreter loop which executes one command at a time and answers each with
// one observation. It belongs to a module of its own so xgo leaves it alone.
package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type Cmd struct {
	Op string `json:"op"`
	G  int    `json:"g"`
	F  string `json:"f"`
	B  string `json:"b"`
	X  int    `json:"x"`
	ID int    `json:"id"`
	O  string `json:"o"`
}

type Step struct {
	Cmd Cmd           `json:"cmd"`
	Obs []interface{} `json:"obs"`
}

type Scenario struct {
	ID    int    `json:"id"`
	Steps []Step `json:"steps"`
}

type Gor struct {
	id       int
	cmds     chan Cmd
	replies  chan string
	events   []int // handlers told about the variable being read
	begun    []int
	finished string // the trace completed since the last answer, if any
}

func newGor(id int) *Gor {
	return &Gor{id: id, cmds: make(chan Cmd), replies: make(chan string)}
}

var mu sync.Mutex // guards goroutines and cancels
var goroutines map[int]*Gor

// In lockstep one goroutine executes commands at a time, cur. Running free,
// every goroutine works through its own commands at its own pace.
var free bool
var cur *Gor
var byGoid sync.Map

func self() *Gor {
	if !free {
		return cur
	}
	g, ok := byGoid.Load(goid())
	if !ok {
		panic("not a goroutine of the scenario")
	}
	return g.(*Gor)
}

func goid() string {
	var buf [64]byte
	return strings.Fields(string(buf[:runtime.Stack(buf[:], false)]))[1]
}

// Ops performs the xgo API calls; provided by the instrumented program.
type Ops struct {
	Call      func(f, inst string, x int) int
	Install   func(c Cmd) (cancel func())
	ReadVar   func(v string) int
	ReadPtr   func(v string) int
	WriteVar  func(v string, x int)
	TlsSet    func(k string, x int)
	TlsGet    func(k string) int
	Trace     func(c Cmd)
	ResetVars func()
}

var O Ops
var cancels map[int]func()
var GlobalCancels = map[int]func(){}

// Note tells that a handler was told about a variable read.
func Note(id int) {
	g := self()
	g.events = append(g.events, id)
}

// Begin and End are for handlers told both before and after the read.
func Begin(id int) { g := self(); g.begun = append(g.begun, id) }
func End(id int) {
	g := self()
	for i, b := range g.begun {
		if b == id {
			g.begun = append(g.begun[:i:i], g.begun[i+1:]...)
			Note(id)
			return
		}
	}
	Note(-id)
}

// Finished hands in a completed trace.
func Finished(trace string) { self().finished = trace }

func reply(format string, args ...interface{}) {
	g := self()
	s := fmt.Sprintf(format, args...)
	if g.finished != "" {
		s += " trace " + g.finished
		g.finished = ""
	}
	g.replies <- s
}

type Result struct {
	X int
	O string
}

// Frame reports that user code runs in the described frame and executes
// commands there until told to return.
func Frame(desc string) Result {
	me := self()
	reply("%s", desc)
	for {
		c := <-me.cmds
		switch c.Op {
		case "return":
			return Result{c.X, c.O}
		case "panic":
			panic(Panic(c.X))
		case "goexit":
			runtime.Goexit()
		default:
			exec(c)
		}
	}
}

// Body is the body of every function of the program under test.
func Body(inst, f string, x int) int {
	return Frame(fmt.Sprintf("body %s %s %d", inst, f, x)).X
}

func Deferred(f string) { Frame("defer " + f) }

type Panic int

func exec(c Cmd) {
	switch c.Op {
	case "call":
		if c.O == "recover" {
			callRecover(c)
		} else {
			v := O.Call(c.F, c.B, c.X)
			reply("ret %s %d", c.F, v)
		}
	case "mock", "record", "intercept", "mockvar", "mockvarptr", "recordvar":
		cancel := O.Install(c)
		mu.Lock()
		cancels[c.ID] = cancel
		mu.Unlock()
		reply("ok")
	case "cancel":
		mu.Lock()
		cancel := cancels[c.ID]
		mu.Unlock()
		cancel()
		reply("ok")
	case "cancelglobal":
		func() {
			defer func() {
				if e := recover(); e != nil {
					reply("refused")
				} else {
					reply("ok")
				}
			}()
			GlobalCancels[c.ID]()
		}()
	case "go":
		g := newGor(c.X)
		mu.Lock()
		goroutines[c.X] = g
		mu.Unlock()
		ready := make(chan struct{})
		go root(g, ready)
		<-ready
		reply("ok")
	case "tlsset":
		O.TlsSet(c.F, c.X)
		reply("ok")
	case "tlsget":
		reply("val %d", O.TlsGet(c.F))
	case "readvar":
		self().events, self().begun = nil, nil
		v := O.ReadVar(c.F)
		reply("val %d %s", v, events())
	case "readptr":
		self().events, self().begun = nil, nil
		v := O.ReadPtr(c.F)
		reply("val %d %s", v, events())
	case "writevar":
		O.WriteVar(c.F, c.X)
		reply("ok")
	case "trace":
		if c.O == "recover" {
			traceRecover(c)
		} else {
			O.Trace(c)
			reply("traced")
		}
	default:
		panic("unknown op " + c.Op)
	}
}

func traceRecover(c Cmd) {
	normal := false
	defer func() {
		if normal {
			return
		}
		if e := recover(); e != nil {
			if p, ok := e.(Panic); ok {
				reply("recovered %d", int(p))
				return
			}
			reply("foreign panic: %v", e)
		}
	}()
	O.Trace(c)
	normal = true
	reply("traced")
}

func events() string {
	ids := self().events
	for _, b := range self().begun {
		ids = append(ids, 100000+b)
	}
	sort.Ints(ids)
	parts := []string{}
	for _, e := range ids {
		parts = append(parts, fmt.Sprint(e))
	}
	return "{" + strings.Join(parts, ",") + "}"
}

func callRecover(c Cmd) {
	normal := false
	defer func() {
		if normal {
			return
		}
		if e := recover(); e != nil {
			if p, ok := e.(Panic); ok {
				reply("recovered %d", int(p))
				return
			}
			reply("foreign panic: %v", e)
		}
		// Goexit: keep unwinding
	}()
	v := O.Call(c.F, c.B, c.X)
	normal = true
	reply("ret %s %d", c.F, v)
}

func root(g *Gor, ready chan struct{}) {
	if free {
		byGoid.Store(goid(), g)
		defer byGoid.Delete(goid())
	}
	defer func() {
		if e := recover(); e != nil {
			reply("died: %v", e)
			return
		}
		reply("exit")
	}()
	close(ready)
	for {
		c := <-g.cmds
		switch c.Op {
		case "return":
			return
		case "goexit":
			runtime.Goexit()
		case "abandon":
			return
		default:
			exec(c)
		}
	}
}

func send(g *Gor, c Cmd) (string, bool) {
	select {
	case g.cmds <- c:
	case <-time.After(20 * time.Second):
		return "goroutine does not accept commands", false
	}
	select {
	case r := <-g.replies:
		return r, true
	case <-time.After(20 * time.Second):
		return "no answer", false
	}
}

func gone(r string) bool { return strings.HasPrefix(r, "exit") || strings.HasPrefix(r, "died") }

// unwind ends a goroutine wherever it is
func unwind(g *Gor) bool {
	for k := 0; k < 2000; k++ {
		if !free {
			cur = g
		}
		r, ok := send(g, Cmd{Op: "goexit", G: g.id})
		if !ok {
			return false
		}
		if gone(r) {
			return true
		}
	}
	return false
}

func want(o []interface{}) string {
	parts := []string{}
	for _, x := range o {
		switch v := x.(type) {
		case float64:
			parts = append(parts, fmt.Sprint(int(v)))
		case []interface{}:
			ids := []int{}
			for _, e := range v {
				ids = append(ids, int(e.(float64)))
			}
			sort.Ints(ids)
			ss := []string{}
			for _, e := range ids {
				ss = append(ss, fmt.Sprint(e))
			}
			parts = append(parts, "{"+strings.Join(ss, ",")+"}")
		default:
			parts = append(parts, fmt.Sprint(v))
		}
	}
	return strings.Join(parts, " ")
}

type deviation struct {
	Scenario int    `json:"scenario"`
	Step     int    `json:"step"`
	Cmd      Cmd    `json:"cmd"`
	Want     string `json:"want"`
	Got      string `json:"got"`
}

// lockstep executes the steps one after another
func lockstep(s Scenario, bad func(deviation)) (steps int, ok bool) {
	live := map[int]bool{1: true}
	for i, st := range s.Steps {
		steps++
		cur = goroutines[st.Cmd.G]
		got, ok := send(cur, st.Cmd)
		if st.Cmd.Op == "go" {
			live[st.Cmd.X] = true
		}
		if gone(got) {
			delete(live, st.Cmd.G)
		}
		if exp := want(st.Obs); got != exp {
			bad(deviation{s.ID, i, st.Cmd, exp, got})
			if !ok {
				return steps, false
			}
			break
		}
	}
	for g := range live {
		if !unwind(goroutines[g]) {
			return steps, false
		}
	}
	return steps, true
}

// together lets every goroutine go through its own steps independently of the
// others
func together(s Scenario, bad func(deviation)) (steps int, ok bool) {
	var wg sync.WaitGroup
	var l sync.Mutex
	ok = true
	var feed func(id int)
	feed = func(id int) {
		defer wg.Done()
		mu.Lock()
		g := goroutines[id]
		mu.Unlock()
		n, alive, fine := 0, true, true
		for i, st := range s.Steps {
			if st.Cmd.G != id {
				continue
			}
			n++
			got, answered := send(g, st.Cmd)
			if st.Cmd.Op == "go" && answered {
				wg.Add(1)
				go feed(st.Cmd.X)
			}
			alive = !gone(got)
			if exp := want(st.Obs); got != exp {
				l.Lock()
				bad(deviation{s.ID, i, st.Cmd, exp, got})
				l.Unlock()
				fine = answered
				break
			}
		}
		if fine && alive {
			fine = unwind(g)
		}
		l.Lock()
		steps += n
		ok = ok && fine
		l.Unlock()
	}
	wg.Add(1)
	feed(1)
	wg.Wait()
	return steps, ok
}

// Run executes the scenarios of a file, printing one JSON line per scenario
// that deviates. Free: its goroutines are let run concurrently.
func Run(file string, freely bool) {
	free = freely
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	// which scenario is running, should the process die
	var progress *os.File
	if p := os.Getenv("XGO_VERIF_PROGRESS"); p != "" {
		progress, _ = os.Create(p)
	}
	nsteps, nscen, nbad := 0, 0, 0
	enc := json.NewEncoder(os.Stdout)
	bad := func(d deviation) {
		nbad++
		enc.Encode(d)
	}
	stuck := false
	for sc.Scan() && !stuck && nbad < 20 {
		var s Scenario
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		nscen++
		if progress != nil {
			progress.WriteAt([]byte(fmt.Sprintf("%10d", s.ID)), 0)
		}
		cancels = map[int]func(){}
		goroutines = map[int]*Gor{1: newGor(1)}
		O.ResetVars()
		ready := make(chan struct{})
		go root(goroutines[1], ready)
		<-ready
		run := lockstep
		if free {
			run = together
		}
		n, ok := run(s, bad)
		nsteps += n
		stuck = !ok
	}
	fmt.Printf("{\"done\":true,\"scenarios\":%d,\"steps\":%d,\"bad\":%d,\"stuck\":%v}\n", nscen, nsteps, nbad, stuck)
}
