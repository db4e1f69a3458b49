//sym:into ripsrc/verifsym

// Package verifsym is the interface between harnesses and the checker. Under
// the checker these functions are implemented by the interpreter; compiled
// natively they read the values of one run from a file.
package verifsym

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type input struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Vars    map[string]int64 `json:"vars"`
}

var (
	in    input
	out   *os.File
	names = map[string]int{}
	mu    sync.Mutex
)

func emit(s string) {
	mu.Lock()
	defer mu.Unlock()
	if out != nil {
		fmt.Fprintln(out, strings.Replace(s, "\n", "\\n", -1))
	}
}

// Main runs the harness named in the input.
func Main(hs map[string]func()) {
	b, err := ioutil.ReadFile(os.Getenv("SYM_REPLAY"))
	if err != nil {
		fmt.Println("no input:", err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &in); err != nil {
		fmt.Println("bad input:", err)
		os.Exit(9)
	}
	if filepath.Base(os.Args[0]) != "git" {
		out, err = os.Create(os.Getenv("SYM_OUT"))
		if err != nil {
			os.Exit(9)
		}
	} else {
		gitMode = true
		// the model must not speak on the command's output
		realStdout = os.Stdout
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	}
	f := hs[in.Harness]
	if f == nil {
		os.Exit(9)
	}
	f()
	if gitMode {
		os.Exit(97)
	}
	emit("OK")
}

var gitMode bool
var realStdout *os.File

func unique(name string) string {
	mu.Lock()
	defer mu.Unlock()
	n := names[name]
	names[name] = n + 1
	if n > 0 {
		return name + "#" + strconv.Itoa(n)
	}
	return name
}

func val(name string) int64 {
	return in.Vars[unique(name)]
}

// Symbolic tells whether the checker is running.
func Symbolic() bool { return false }

func Byte(name string) byte { return byte(val(name)) }
func Bool(name string) bool { return val(name) != 0 }

// Int is any value from lo to hi.
func Int(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	n, ok := in.Vars[unique(name)]
	if !ok {
		return lo
	}
	return int(n)
}

// RepoFile is the content of a file of the repository.
func RepoFile(name string) string {
	b, err := os.ReadFile(os.Getenv("SYM_REPO") + "/" + name)
	if err != nil {
		os.Exit(9)
	}
	return string(b)
}

// Zeros is a slice with any length from lo to hi. It can be measured and
// indexed, not copied or sliced.
func Zeros(name string, lo, hi int) []byte {
	return make([]byte, Int(name, lo, hi))
}

// Empties is a list of nil slices, of any length from lo to hi.
func Empties(name string, lo, hi int) [][]byte {
	return make([][]byte, Int(name, lo, hi))
}

// Choose is any value below n, decided at once.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(val(name))
}

// Bytes is n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name + "[" + strconv.Itoa(i) + "]")
	}
	return b
}

// String is n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Uint64 is an arbitrary number.
func Uint64(name string) uint64 {
	r := uint64(0)
	for _, c := range Bytes(name, 8) {
		r = r<<8 | uint64(c)
	}
	return r
}

func Assume(b bool) {
	if !b {
		if gitMode {
			os.Exit(98)
		}
		emit("ASSUME")
		os.Exit(3)
	}
}

func Assert(b bool, msg string) {
	if gitMode {
		return
	}
	if !b {
		emit("ASSERT " + msg)
		os.Exit(4)
	}
}

func Fail(msg string) { Assert(false, msg) }

func Reach(label string) {}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func EqBytes(a, b []byte) bool { return string(a) == string(b) }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// IsConcrete tells whether the checker knows every byte.
func IsConcrete(b []byte) bool { return true }

func ConcInt(v int) int       { return v }
func ConcStr(s string) string { return s }

func Param(name string, def int) int {
	if v, ok := in.Params[name]; ok {
		return int(v)
	}
	return def
}

// SchedFork makes the checker explore schedules with up to n preemptions.
func SchedFork(n int) {}

// SchedDelays bounds the schedules explored from now on: whenever a goroutine
// stops, the first in line goes on, but for at most n goroutines passed over.
func SchedDelays(n int) {}

// MapOrder makes the checker explore iteration orders of maps with up to n entries.
func MapOrder(n int) {}

func Yield()            { runtime.Gosched() }
func NumGoroutine() int { return runtime.NumGoroutine() }

// Unsupported ends the path as not explored.
func Unsupported(msg string) {}

var exitHook func(int)

// OnExit is called when the program exits by itself.
func OnExit(f func(int)) { exitHook = f }

// VExit takes the place of os.Exit natively.
func VExit(code int) {
	if exitHook != nil {
		exitHook(code)
	}
	if gitMode {
		os.Exit(97)
	}
	emit("OK")
	os.Exit(0)
}

// Catch runs f and returns what it panicked with, or nil.
func Catch(f func()) (r interface{}) {
	defer func() {
		r = recover()
	}()
	f()
	return nil
}

// In tells whether c is one of the bytes of set, without branching.
func In(c byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = Or(r, c == set[i])
	}
	return r
}

// Observe records a value for comparison between the checker and a native run.
func Observe(name string, v interface{}) {
	if gitMode {
		return
	}
	if v == nil {
		return
	}
	emit("OBS " + name + "=" + show(reflect.ValueOf(v), 0))
}

func show(v reflect.Value, d int) string {
	if d > 6 {
		return "…"
	}
	switch v.Kind() {
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return strconv.Quote(string(v.Bytes()))
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += show(v.Index(i), d+1)
		}
		return s + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "<nil>"
		}
		return show(v.Elem(), d+1)
	case reflect.Ptr:
		if v.IsNil() {
			return "<nil>"
		}
		return "&" + show(v.Elem(), d+1)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				s += " "
			}
			s += show(v.Field(i), d+1)
		}
		return s + "}"
	}
	return "<" + v.Kind().String() + ">"
}

var _ = sort.Strings
