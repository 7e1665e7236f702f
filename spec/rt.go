// Package zz_verifspec holds the vocabulary of the contracts: intrinsics of the
// verifier (this file; their bodies are what they mean when a verification
// condition runs natively), and the specification functions.
package zz_verifspec

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"

	edtf "github.com/sfomuseum/go-edtf"
)

type assumeFailed struct{}
type checkFailed struct{ label, detail string }

// Assume restricts the inputs of a verification condition.
func Assume(ok bool) {
	if !ok {
		panic(assumeFailed{})
	}
}

// Check is an obligation.
func Check(label string, ok bool) {
	if !ok {
		panic(checkFailed{label, ""})
	}
}

// SomeInt is an integer in lo..hi that a contract leaves open; it depends on
// nothing but the name and the key. The function w tells what it is.
func SomeInt(name string, key string, lo int, hi int, w func() int) int {
	v := w()
	Check("range of "+name, lo <= v && v <= hi)
	return v
}

// SomeBool is a truth value that a contract leaves open.
func SomeBool(name string, key string, w func() bool) bool { return w() }

// SomeString is a text that a contract leaves open.
func SomeString(name string, key string, w func() string) string { return w() }

// SomePrec is a set of flags that a contract leaves open.
func SomePrec(name string, key string, w func() edtf.Precision) edtf.Precision { return w() }

// Given is an obligation on the function and a fact for its callers.
func Given(label string, ok bool) { Check(label, ok) }

// Holds is a condition; a proof takes it as one formula.
func Holds(f func() bool) bool { return f() }

// T collects values.
func T(xs ...interface{}) []interface{} { return xs }

// CheckSame is the obligation that two lists of values are equal.
func CheckSame(label string, got, want []interface{}) {
	if !Same(got, want) {
		panic(checkFailed{label, fmt.Sprintf("got %s, want %s", Show(got), Show(want))})
	}
}

var rxMu sync.Mutex
var rxs = map[string]*regexp.Regexp{}

// InLang tells whether s belongs to the language of a regular expression.
func InLang(s string, re string) bool {
	rxMu.Lock()
	defer rxMu.Unlock()
	r, ok := rxs[re]
	if !ok {
		r = regexp.MustCompile(re)
		rxs[re] = r
	}
	return r.MatchString(s)
}

// Kind classifies errors: 0 none, 1 not set, 2 not implemented, 3 invalid,
// 4 unsupported, 5 unrecognized, 6 any other.
func Kind(err error) int {
	if err == nil {
		return 0
	}
	switch err.(type) {
	case *edtf.NotSetError:
		return 1
	case *edtf.NotImplementedError:
		return 2
	case *edtf.InvalidError:
		return 3
	case *edtf.UnsupportedError:
		return 4
	case *edtf.UnrecognizedError:
		return 5
	}
	return 6
}

// Same compares values deeply. Errors are compared by their kind, times as
// instants.
func Same(a, b interface{}) bool {
	return same(reflect.ValueOf(a), reflect.ValueOf(b))
}

func errT() reflect.Type  { return reflect.TypeOf((*error)(nil)).Elem() }
func timeT() reflect.Type { return reflect.TypeOf(time.Time{}) }

func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Kind() == reflect.Interface || b.Kind() == reflect.Interface {
		if a.Kind() == reflect.Interface {
			a = a.Elem()
		}
		if b.Kind() == reflect.Interface {
			b = b.Elem()
		}
		return same(a, b)
	}
	if a.Type().Implements(errT()) && b.Type().Implements(errT()) {
		ea, ok1 := a.Interface().(error)
		eb, ok2 := b.Interface().(error)
		return ok1 && ok2 && Kind(ea) == Kind(eb)
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.Type() == timeT() {
		ta, tb := a.Interface().(time.Time), b.Interface().(time.Time)
		_, oa := ta.Zone()
		_, ob := tb.Zone()
		return ta.Equal(tb) && oa == ob
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return false
}

// Fresh tells whether two results share no memory with each other; the verifier
// also requires that nothing in them existed before the calls.
func Fresh(a, b interface{}) bool { return Disjoint(a, b) }

// Disjoint tells whether two results share no memory; the verifier compares the
// objects reachable from both.
func Disjoint(a, b interface{}) bool {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value, f func(p uintptr) bool) bool
	walk = func(v reflect.Value, f func(p uintptr) bool) bool {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return true
			}
			if v.Elem().Type().Size() > 0 && !f(v.Pointer()) {
				return false
			}
			return walk(v.Elem(), f)
		case reflect.Interface:
			return walk(v.Elem(), f)
		case reflect.Struct:
			if v.Type() == timeT() {
				return true
			}
			for i := 0; i < v.NumField(); i++ {
				if !walk(v.Field(i), f) {
					return false
				}
			}
		case reflect.Slice:
			if v.Len() > 0 && !f(v.Pointer()) {
				return false
			}
			for i := 0; i < v.Len(); i++ {
				if !walk(v.Index(i), f) {
					return false
				}
			}
		}
		return true
	}
	walk(reflect.ValueOf(a), func(p uintptr) bool { seen[p] = true; return true })
	return walk(reflect.ValueOf(b), func(p uintptr) bool { return !seen[p] })
}

// Freeze declares that the memory reachable from the values must not be
// written from here on. The verifier enforces it; a native run compares
// them with a copy at its end.
func Freeze(xs ...interface{}) {
	for _, x := range xs {
		frozen = append(frozen, frozenVal{x, snapshot(x)})
	}
}

type frozenVal struct {
	v    interface{}
	snap string
}

var frozen []frozenVal

// snapshot renders all that is reachable from a value, with the addresses.
func snapshot(x interface{}) string {
	var b strings.Builder
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		if !v.IsValid() {
			b.WriteString("nil;")
			return
		}
		fmt.Fprintf(&b, "%s:", v.Type())
		switch v.Kind() {
		case reflect.Ptr:
			fmt.Fprintf(&b, "%x;", v.Pointer())
			if !v.IsNil() && !seen[v.Pointer()] {
				seen[v.Pointer()] = true
				walk(v.Elem())
			}
		case reflect.Interface:
			walk(v.Elem())
		case reflect.Struct:
			if v.Type() == timeT() {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.String:
			fmt.Fprintf(&b, "%q;", v.String())
		case reflect.Bool:
			fmt.Fprintf(&b, "%v;", v.Bool())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%d;", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(&b, "%d;", v.Uint())
		}
	}
	walk(reflect.ValueOf(x))
	return b.String()
}

// Show renders values for messages.
func Show(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

type runReq struct {
	VC   string            `json:"vc"`
	Args []json.RawMessage `json:"args"`
}

type runRes struct {
	Status string `json:"status"` // ok, assume, fail, panic, hang, error
	Label  string `json:"label,omitempty"`
	Detail string `json:"detail,omitempty"`
}

func runOne(fn reflect.Value, req runReq) runRes {
	t := fn.Type()
	if len(req.Args) != t.NumIn() {
		return runRes{Status: "error", Detail: "wrong number of arguments"}
	}
	args := make([]reflect.Value, t.NumIn())
	for i := range args {
		p := reflect.New(t.In(i))
		if t.In(i).Kind() == reflect.String {
			// strings travel as byte arrays: they need not be valid UTF-8
			var bs []int
			if err := json.Unmarshal(req.Args[i], &bs); err != nil {
				return runRes{Status: "error", Detail: err.Error()}
			}
			raw := make([]byte, len(bs))
			for j, b := range bs {
				raw[j] = byte(b)
			}
			p.Elem().SetString(string(raw))
		} else if err := json.Unmarshal(req.Args[i], p.Interface()); err != nil {
			return runRes{Status: "error", Detail: err.Error()}
		}
		args[i] = p.Elem()
	}
	ch := make(chan runRes, 1)
	go func() {
		var res runRes
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case assumeFailed:
					res = runRes{Status: "assume"}
				case checkFailed:
					res = runRes{Status: "fail", Label: r.label, Detail: r.detail}
				default:
					res = runRes{Status: "panic", Detail: fmt.Sprint(r)}
				}
			}
			ch <- res
		}()
		frozen = nil
		fn.Call(args)
		res = runRes{Status: "ok"}
		for _, f := range frozen {
			if snapshot(f.v) != f.snap {
				res = runRes{Status: "fail", Label: "frame", Detail: "memory that must stay as it is was written to"}
			}
		}
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(10 * time.Second):
		return runRes{Status: "hang", Detail: "no result within 10 s"}
	}
}

// RunMain runs conditions natively: one JSON request per line.
func RunMain(fns map[string]reflect.Value) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var req runReq
			var res runRes
			if e := json.Unmarshal(line, &req); e != nil {
				res = runRes{Status: "error", Detail: e.Error()}
			} else if fn, ok := fns[req.VC]; !ok {
				res = runRes{Status: "error", Detail: "unknown condition"}
			} else {
				res = runOne(fn, req)
			}
			b, _ := json.Marshal(res)
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}
