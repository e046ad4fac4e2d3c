// Drives the xgo runtime through its public API, one command at a time.
package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync/atomic"

	"rtdriver/t"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/tls"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"
	harness "verifharness"
)

const pkg = "rtdriver/t"

var keys = map[string]tls.TLSKey{"K": tls.Declare("K"), "KI": tls.DeclareInherit("KI"), "KJ": tls.DeclareInherit("KJ")}

func call(f, inst string, x int) int {
	switch f + "/" + inst {
	case "F0/-":
		return t.F0(x)
	case "F1/-":
		return t.F1(x)
	case "D0/-":
		return t.D0(x)
	case "TM/a":
		return t.Ta.TM(x)
	case "TM/b":
		return t.Tb.TM(x)
	case "PN/a":
		return t.Pa.PN(x)
	case "PN/b":
		return t.Pb.PN(x)
	}
	panic("unknown function " + f + "/" + inst)
}

// target gives the func value handlers of (f, bind) are attached to
func target(f, b string) interface{} {
	switch f + "/" + b {
	case "F0/-":
		return t.F0
	case "F1/-":
		return t.F1
	case "D0/-":
		return t.D0
	case "TM/-":
		return t.T.TM
	case "TM/a":
		return t.Ta.TM
	case "TM/b":
		return t.Tb.TM
	case "PN/-":
		return (*t.P).PN
	case "PN/a":
		return t.Pa.PN
	case "PN/b":
		return t.Pb.PN
	}
	panic("unknown target " + f + "/" + b)
}

var identity = map[string]string{"F0": "F0", "F1": "F1", "D0": "D0", "TM": "T.TM", "PN": "(*P).PN"}
var fromIdentity = map[string]string{"F0": "F0", "F1": "F1", "D0": "D0", "T.TM": "TM", "(*P).PN": "PN"}

func instance(f, b string) interface{} {
	switch f + "/" + b {
	case "TM/a":
		return t.Ta
	case "TM/b":
		return t.Tb
	case "PN/a":
		return t.Pa
	case "PN/b":
		return t.Pb
	}
	panic("no instance " + f + "/" + b)
}

type handlers struct {
	id   int
	f    string
	data int
}

func (h *handlers) mock(x int) int {
	return harness.Frame(fmt.Sprintf("mock %d %s %d", h.id, h.f, x)).X
}
func (h *handlers) pre(x *int, r *int) {
	if res := harness.Frame(fmt.Sprintf("pre %d %s %d", h.id, h.f, *x)); res.O == "setarg" {
		*x = res.X
	}
}
func (h *handlers) post(x *int, r *int) {
	if res := harness.Frame(fmt.Sprintf("post %d %s %d", h.id, h.f, *r)); res.O == "setres" {
		*r = res.X
	}
}

func patcher(h *handlers, b string) interface{} {
	if b == "-" && h.f == "TM" {
		return func(_ t.T, x int) int { return h.mock(x) }
	}
	if b == "-" && h.f == "PN" {
		return func(_ *t.P, x int) int { return h.mock(x) }
	}
	return func(x int) int { return h.mock(x) }
}

func interceptMock(h *handlers) mock.Interceptor {
	return func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		results.GetFieldIndex(0).Set(h.mock(args.GetField("x").Value().(int)))
		return nil
	}
}

func recorder(h *handlers, b string, post bool) interface{} {
	do := h.pre
	if post {
		do = h.post
	}
	if b == "-" && h.f == "TM" {
		return func(_ t.T, x *int, r *int) { do(x, r) }
	}
	if b == "-" && h.f == "PN" {
		return func(_ *t.P, x *int, r *int) { do(x, r) }
	}
	return do
}

func interceptor(h *handlers, general bool) *trap.Interceptor {
	skip := func(fn *core.FuncInfo) (string, bool) {
		if !general {
			return h.f, false
		}
		if fn.Kind == core.Kind_Var || fn.Kind == core.Kind_VarPtr || fn.Kind == core.Kind_Const {
			return "", true
		}
		f := fromIdentity[fn.IdentityName]
		return f, fn.Pkg != pkg || f == ""
	}
	return &trap.Interceptor{
		Pre: func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
			f, no := skip(fn)
			if no {
				if fn.Pkg == pkg && fn.Kind != core.Kind_Func {
					harness.Note(h.id)
				}
				return nil, nil
			}
			x := args.GetField("x")
			res := harness.Frame(fmt.Sprintf("pre %d %s %d", h.id, f, x.Value().(int)))
			switch res.O {
			case "setarg":
				x.Set(res.X)
			case "stop":
				results.GetFieldIndex(0).Set(res.X)
				return nil, trap.ErrMocked
			}
			return 5000 + h.id, nil
		},
		Post: func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object, data interface{}) error {
			f, no := skip(fn)
			if no {
				return nil
			}
			r := results.GetFieldIndex(0)
			desc := fmt.Sprintf("post %d %s %d", h.id, f, r.Value().(int))
			if d, ok := data.(int); !ok || d != 5000+h.id {
				desc += fmt.Sprintf(" foreign data %v", data)
			}
			if res := harness.Frame(desc); res.O == "setres" {
				r.Set(res.X)
			}
			return nil
		},
	}
}

func varPtr(v string) *int {
	switch v {
	case "V0":
		return t.RawV0
	case "V1":
		return t.RawV1
	}
	panic("no such variable " + v)
}

const mockVal = 1000000

// install goes through the API function named by the command
func install(c harness.Cmd) func() {
	h := &handlers{id: c.ID, f: c.F}
	switch c.Op {
	case "mock":
		switch c.O {
		case "patch":
			return mock.Patch(target(c.F, c.B), patcher(h, c.B))
		case "mock":
			return mock.Mock(target(c.F, c.B), interceptMock(h))
		case "patchname":
			if c.B != "-" {
				return mock.PatchMethodByName(instance(c.F, c.B), c.F, patcher(h, c.B))
			}
			return mock.PatchByName(pkg, identity[c.F], patcher(h, c.B))
		case "mockname":
			if c.B != "-" {
				return mock.MockMethodByName(instance(c.F, c.B), c.F, interceptMock(h))
			}
			return mock.MockByName(pkg, identity[c.F], interceptMock(h))
		}
	case "record":
		switch c.O {
		case "record":
			return trace.Record(target(c.F, c.B), recorder(h, c.B, false), recorder(h, c.B, true))
		case "call":
			return trace.RecordCall(target(c.F, c.B), recorder(h, c.B, false))
		case "result":
			return trace.RecordResult(target(c.F, c.B), recorder(h, c.B, true))
		case "intercept":
			return trap.AddFuncInterceptor(target(c.F, c.B), interceptor(h, false))
		}
	case "intercept":
		return trap.AddInterceptor(interceptor(h, true))
	case "mockvar":
		val := mockVal + c.ID
		setter := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
			results.GetFieldIndex(0).Set(val)
			return nil
		}
		switch c.O {
		case "patch":
			return mock.Patch(varPtr(c.F), func() int { return val })
		case "mock":
			return mock.Mock(varPtr(c.F), setter)
		case "patchname":
			return mock.PatchByName(pkg, c.F, func() int { return val })
		case "mockname":
			return mock.MockByName(pkg, c.F, setter)
		}
	case "mockvarptr":
		val := mockVal + c.ID
		switch c.O {
		case "patch":
			return mock.Patch(varPtr(c.F), func() *int { return &val })
		case "patchname":
			return mock.PatchByName(pkg, "*"+c.F, func() *int { return &val })
		case "mockname":
			return mock.MockByName(pkg, "*"+c.F, func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
				results.GetFieldIndex(0).Set(&val)
				return nil
			})
		}
	case "recordvar":
		note := func(int) { harness.Note(h.id) }
		noteP := func(**int) { harness.Note(h.id) }
		switch c.O {
		case "record":
			return trace.Record(varPtr(c.F),
				func(int) { harness.Begin(h.id) },
				func(int) { harness.End(h.id) })
		case "call":
			return trace.RecordCall(varPtr(c.F), note)
		case "result":
			return trace.RecordResult(varPtr(c.F), note)
		case "callptr":
			return trace.RecordCall(varPtr(c.F), noteP)
		case "resultptr":
			return trace.RecordResult(varPtr(c.F), noteP)
		}
	}
	panic(fmt.Sprintf("unknown install command %+v", c))
}

// globals are installed while the package initialises: "op:f:b:o,..." numbered
// from 901
var globals = installGlobals(os.Getenv("XGO_VERIF_GLOBALS"))

func installGlobals(spec string) int {
	if spec == "" {
		return 0
	}
	id := 900
	for _, s := range strings.Split(spec, ",") {
		p := strings.Split(s, ":")
		id++
		harness.GlobalCancels[id] = install(harness.Cmd{Op: p[0], F: p[1], B: p[2], ID: id, O: p[3]})
	}
	return id - 900
}

func main() {
	harness.O = harness.Ops{
		Call:    call,
		Install: install,
		ReadVar: func(v string) int {
			switch v {
			case "V0":
				return t.ReadV0()
			}
			return t.ReadV1()
		},
		ReadPtr: func(v string) int {
			if v == "V0" {
				return *t.PtrV0()
			}
			return *t.PtrV1()
		},
		WriteVar: func(v string, x int) {
			if v == "V0" {
				t.WriteV0(x)
			} else {
				t.WriteV1(x)
			}
		},
		TlsSet: func(k string, x int) { keys[k].Set(x) },
		TlsGet: func(k string) int {
			v, ok := keys[k].GetOK()
			if g := keys[k].Get(); g != v {
				return -1
			}
			if !ok {
				return 0
			}
			return v.(int)
		},
		Trace:     traceCmd,
		ResetVars: func() { t.WriteV0(7); t.WriteV1(7) },
	}
	harness.Run(os.Args[1], os.Getenv("XGO_VERIF_FREE") != "")
}

var traceFiles int32

// traceCmd runs a frame inside trace.Trace
func traceCmd(c harness.Cmd) {
	cfg := trace.Config{}
	onFinish := func(stk stack_model.IStack) { harness.Finished(render(stk.Data().Children)) }
	switch c.F {
	case "":
		cfg.OnFinish = onFinish
	case "filter":
		cfg.OnFinish = onFinish
		cfg.FilterTrace = func(fn *core.FuncInfo) bool { return !(fn.Pkg == pkg && fn.IdentityName == "F1") }
	case "file":
		cfg.OutputFile = fmt.Sprintf("trace-%d-%d.json", os.Getpid(), atomic.AddInt32(&traceFiles, 1))
		os.Remove(cfg.OutputFile)
		defer func() {
			data, err := os.ReadFile(cfg.OutputFile)
			if err != nil {
				return // part of an ongoing trace
			}
			os.Remove(cfg.OutputFile)
			var stk stack_model.Stack
			if err := json.Unmarshal(data, &stk); err != nil {
				harness.Finished("unreadable: " + err.Error())
				return
			}
			harness.Finished(render(stk.Children))
		}()
	}
	trace.Trace(cfg, nil, func() (interface{}, error) {
		harness.Frame("body - Trace 0")
		return nil, nil
	})
}

// render prints the entries of the functions and variables under test; the
// driver's own functions are left out, their callees take their place
func render(entries []*stack_model.StackEntry) string {
	if len(entries) == 0 {
		return ""
	}
	var b strings.Builder
	// within: some function under test is open on the goroutine at this point;
	// goroutines created outside of any are not part of what is specified
	var walk func(list []*stack_model.StackEntry, within bool)
	walk = func(list []*stack_model.StackEntry, within bool) {
		for _, e := range list {
			name := strings.TrimSuffix(e.FuncInfo.Name, " (running)")
			running := name != e.FuncInfo.Name
			f, ours := fromIdentity[name]
			switch {
			case name == "go" && e.FuncInfo.Kind == "":
				if within {
					b.WriteString("go{")
					walk(e.Children, false)
					b.WriteString("};")
				}
				continue
			case name == "Trace" && e.FuncInfo.Pkg == "github.com/xhd2015/xgo/runtime/trace":
				f = "Trace"
			case e.FuncInfo.Pkg == pkg && (name == "V0" || name == "V1"):
				fmt.Fprintf(&b, "%s(0)=%s{};", name, value(e.Results, ""))
				continue
			case e.FuncInfo.Pkg == pkg && ours:
			default:
				walk(e.Children, within)
				continue
			}
			fmt.Fprintf(&b, "%s(", f)
			if f == "Trace" {
				b.WriteString("0)=0")
			} else {
				fmt.Fprintf(&b, "%s)=%s", value(e.Args, "x"), value(e.Results, e.FuncInfo.ResNames[0]))
			}
			if e.Panic {
				b.WriteString("!" + e.Error)
			} else if e.Error != "" {
				b.WriteString("error " + e.Error)
			}
			if running {
				b.WriteString("~")
			}
			b.WriteString("{")
			walk(e.Children, true)
			b.WriteString("};")
		}
	}
	walk(entries, false)
	return strings.TrimSuffix(b.String(), ";")
}

// value extracts a field of a recorded argument or result
func value(v interface{}, field string) string {
	data, err := json.Marshal(v)
	if err != nil {
		return err.Error()
	}
	if field == "" && !strings.HasPrefix(string(data), "{") {
		return string(data)
	}
	if string(data) == "null" {
		return "0" // not finished
	}
	var m map[string]json.RawMessage
	if err := json.Unmarshal(data, &m); err != nil {
		return string(data)
	}
	if field == "" {
		for k := range m {
			field = k
		}
	}
	if len(m[field]) == 0 {
		return string(data)
	}
	return string(m[field])
}
