// Package hh numbers the values of every type and keeps the log of what is
// observed. It is a module of its own, so that it is not instrumented.
package hh

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sync"
	"time"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
)

var _ = time.Now

type E struct{ N int }

func (e *E) Error() string { return fmt.Sprintf("e%d", e.N) }

type I interface{ Num() int }
type Impl int

func (i Impl) Num() int { return int(i) }

// C is a context too
type C interface {
	context.Context
	More() int
}
type ctxImpl struct{ context.Context }

func (ctxImpl) More() int { return 1 }

type Boxed struct{ N int }
type S struct {
	A int
	B string
}
type G[T any] struct{ V T }
type key struct{}

var reg = map[string]reflect.Value{}
var back = map[string]int{}
var mu sync.Mutex

func bkey(v reflect.Value) string { return fmt.Sprintf("%s/%x", v.Type(), v.Pointer()) }

// Mk is value n of type T; 0 is the zero value
func Mk[T any](n int) T {
	mu.Lock()
	defer mu.Unlock()
	var t T
	rt := reflect.TypeOf(&t).Elem()
	reflect.ValueOf(&t).Elem().Set(mk(rt, n))
	return t
}

var errT = reflect.TypeOf((*error)(nil)).Elem()
var ctxT = reflect.TypeOf((*context.Context)(nil)).Elem()
var cT = reflect.TypeOf((*C)(nil)).Elem()
var iT = reflect.TypeOf((*I)(nil)).Elem()

func mk(t reflect.Type, n int) reflect.Value {
	if n == 0 {
		return reflect.Zero(t)
	}
	k := fmt.Sprintf("%s/%s/%d", t.PkgPath(), t, n)
	if v, ok := reg[k]; ok {
		return v
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(n))
	case reflect.String:
		v.SetString(fmt.Sprint("s", n))
	case reflect.Bool:
		v.SetBool(n%2 == 1)
	case reflect.Ptr:
		v = reflect.New(t.Elem())
		v.Elem().Set(mk(t.Elem(), n))
		if v.Type() != t {
			v = v.Convert(t)
		}
		back[bkey(v)] = n
	case reflect.Slice:
		v.Set(reflect.MakeSlice(t, n, n))
		back[bkey(v)] = n
	case reflect.Map:
		v.Set(reflect.MakeMap(t))
		back[bkey(v)] = n
	case reflect.Chan:
		v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), n).Convert(t))
		back[bkey(v)] = n
	case reflect.Func:
		outs := make([]reflect.Value, t.NumOut())
		for i := range outs {
			outs[i] = mk(t.Out(i), n)
		}
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return outs }))
	case reflect.Struct:
		v.Field(0).Set(mk(t.Field(0).Type, n))
	case reflect.Array:
		v.Index(0).Set(mk(t.Elem(), n))
	case reflect.Interface:
		switch t {
		case errT:
			v.Set(mk(reflect.TypeOf((*E)(nil)), n))
		case ctxT:
			v.Set(reflect.ValueOf(context.WithValue(context.Background(), key{}, n)))
		case cT:
			v.Set(reflect.ValueOf(ctxImpl{context.WithValue(context.Background(), key{}, n)}))
		case iT:
			v.Set(reflect.ValueOf(Impl(n)))
		default:
			v.Set(reflect.ValueOf(Boxed{n}))
		}
	default:
		panic("no values of " + t.String())
	}
	reg[k] = v
	return v
}

// Rd is the number of a value, -9 if it is none of the values of its type
func Rd(x any) int {
	if x == nil {
		return 0
	}
	mu.Lock()
	defer mu.Unlock()
	switch y := x.(type) {
	case Impl:
		return int(y)
	case Boxed:
		return y.N
	case context.Context:
		n, _ := y.Value(key{}).(int)
		return n
	}
	return rd(reflect.ValueOf(x))
}

func rd(v reflect.Value) int {
	switch v.Kind() {
	case reflect.Int, reflect.Int64, reflect.Int32:
		return int(v.Int())
	case reflect.String:
		n := 0
		if v.Len() > 0 {
			if _, err := fmt.Sscanf(v.String(), "s%d", &n); err != nil {
				return -9
			}
		}
		return n
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Chan:
		if v.IsNil() {
			return 0
		}
		if n, ok := back[bkey(v)]; ok {
			if v.Kind() == reflect.Slice && v.Len() != n {
				return -9
			}
			return n
		}
		return -9
	case reflect.Func:
		if v.IsNil() {
			return 0
		}
		in := make([]reflect.Value, v.Type().NumIn())
		for i := range in {
			in[i] = reflect.Zero(v.Type().In(i))
		}
		var out []reflect.Value
		if v.Type().IsVariadic() {
			out = v.CallSlice(in)
		} else {
			out = v.Call(in)
		}
		return rd(out[0])
	case reflect.Struct:
		return rd(v.Field(0))
	case reflect.Array:
		return rd(v.Index(0))
	case reflect.Interface:
		if v.IsNil() {
			return 0
		}
		mu.Unlock()
		defer mu.Lock()
		return Rd(v.Interface())
	}
	return -9
}

// ------------------------------------------------------------------ the log

type Ev struct {
	Ev    string   `json:"ev"`
	Recv  int      `json:"recv"`
	Args  []int    `json:"args"`
	Res   []int    `json:"res"`
	Ctx   int      `json:"ctx"`
	Names []string `json:"names"`
	RNms  []string `json:"rnames"`
	Id    string   `json:"id"`
}

var evs []Ev
var ops []any

func Rds(xs []any) []int {
	r := make([]int, len(xs))
	for i, x := range xs {
		if x == Skip {
			r[i] = -1
		} else {
			r[i] = Rd(deref(x))
		}
	}
	return r
}

type skip struct{}

// Skip stands for a value that the place cannot name
var Skip any = skip{}

// arguments are passed by address: an interface parameter would lose its type
func deref(x any) any { return reflect.ValueOf(x).Elem().Interface() }

func RdAt(x any) int {
	if x == Skip {
		return -1
	}
	return Rd(deref(x))
}

func Log(ev string, recv any, args []any, res []any) {
	a, r, rc := Rds(args), Rds(res), RdAt(recv)
	mu.Lock()
	defer mu.Unlock()
	evs = append(evs, Ev{Ev: ev, Recv: rc, Args: a, Res: r, Ctx: -1})
}

// Cur is what the next call is to do
var Cur struct {
	Ret            []int
	E              int
	SetI           int
	SetArg, SetRes int
	Stop           bool
}

func R[T any](i int) T { return Mk[T](Cur.Ret[i]) }

// SetPtr overwrites *p if it is the field to be overwritten
func SetPtr[T any](i int, arg bool, p *T) {
	if Cur.SetI != i+1 {
		return
	}
	if arg {
		*p = Mk[T](Cur.SetArg)
	} else {
		*p = Mk[T](Cur.SetRes)
	}
}

// LogI is what an interceptor is given
func LogI(ev string, hasRecv bool, ctx context.Context, f *core.FuncInfo, args, res core.Object) {
	e := Ev{Ev: ev, Recv: -1, Ctx: Rd(ctx), Id: f.IdentityName, Args: []int{}, Res: []int{}}
	for i := 0; i < args.NumField(); i++ {
		x := args.GetFieldIndex(i)
		e.Names = append(e.Names, x.Name())
		if i == 0 && hasRecv {
			e.Recv = Rd(x.Value())
			continue
		}
		e.Args = append(e.Args, Rd(x.Value()))
	}
	for i := 0; i < res.NumField(); i++ {
		x := res.GetFieldIndex(i)
		e.RNms = append(e.RNms, x.Name())
		e.Res = append(e.Res, Rd(x.Value()))
	}
	mu.Lock()
	defer mu.Unlock()
	evs = append(evs, e)
}

func val(f core.Field, n int) any {
	mu.Lock()
	defer mu.Unlock()
	v := mk(reflect.TypeOf(f.Ptr()).Elem(), n)
	return v.Interface()
}

// Give sets the results in an interceptor, by position or by name
func Give(res core.Object, byName bool) {
	for i := 0; i < res.NumField(); i++ {
		x := res.GetFieldIndex(i)
		if byName {
			x = res.GetField(x.Name())
		}
		x.Set(val(x, Cur.Ret[i]))
	}
}

// SetField overwrites the field that is to be overwritten
func SetField(o core.Object, off int, arg bool) {
	i := Cur.SetI - 1 + off
	if Cur.SetI == 0 || i >= o.NumField() {
		return
	}
	x := o.GetFieldIndex(i)
	if arg {
		x.Set(val(x, Cur.SetArg))
	} else {
		x.Set(val(x, Cur.SetRes))
	}
}

func Err() error {
	if Cur.E == 0 {
		return nil
	}
	return Mk[error](Cur.E)
}

func Take() []Ev {
	mu.Lock()
	defer mu.Unlock()
	r := evs
	evs = nil
	if r == nil {
		r = []Ev{}
	}
	return r
}

func Op(x any) { ops = append(ops, x) }

// Try runs one call; a panic is an observation
func Try(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if err, ok := e.(*E); ok {
				mu.Lock()
				evs = append(evs, Ev{Ev: "panic", Recv: -1, Args: []int{}, Res: []int{err.N}, Ctx: -1})
				mu.Unlock()
				return
			}
			mu.Lock()
			evs = append(evs, Ev{Ev: "crash", Id: fmt.Sprint(e)})
			mu.Unlock()
		}
	}()
	f()
}

type info struct {
	Err                                  string
	Kind, Pkg, Id, Name, RecvType, Recv  string
	Ptr, Generic, Ctx, LastErr, Intf, Sl bool
	Args, Res                            []string
	Line                                 int
	File                                 string
	Full                                 string
	Same                                 []bool
}

// Info is what the function table says: found by package and identity, and the
// other ways to find it, which must lead to the same entry
func Info(pkg, id, short, full string, fn any) any {
	r := info{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Err = fmt.Sprint(e)
			}
		}()
		f := functab.Info(pkg, id)
		if f == nil {
			r.Err = "not found"
			return
		}
		r = info{Kind: f.Kind.String(), Pkg: f.Pkg, Id: f.IdentityName, Name: f.Name, RecvType: f.RecvType, Recv: f.RecvName, Ptr: f.RecvPtr,
			Generic: f.Generic, Ctx: f.FirstArgCtx, LastErr: f.LastResultErr, Intf: f.Interface, Sl: f.Stdlib, Args: f.ArgNames, Res: f.ResNames,
			Line: f.Line, File: filepath.Base(f.File), Full: f.FullName}
		r.Same = append(r.Same, functab.GetFuncByPkg(pkg, id) == f, functab.GetFuncByPkg(pkg, short) == f)
		if fn != nil {
			r.Same = append(r.Same, functab.InfoFunc(fn) == f, functab.GetFuncByFullName(full) == f)
		}
		n := 0
		for _, g := range functab.GetFuncs() {
			if g == f {
				n++
			}
		}
		r.Same = append(r.Same, n == 1)
	}()
	return r
}

func Prog(id int, f func()) {
	ops = nil
	err := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Sprint(e)
			}
		}()
		f()
	}()
	b, _ := json.Marshal(map[string]any{"prog": id, "ops": ops, "err": err})
	fmt.Fprintf(os.Stdout, "%s\n", b)
}
