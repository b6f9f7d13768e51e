package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"regexp"
	"strings"
	"syscall"

	. "github.com/steelseries/golisp"
)

// what the three loggers that are added to the interpreter have been given
var logA, logB, logC strings.Builder

// everything written to the standard output and error files while f runs
func captured(f func()) (string, error) {
	tmp, err := ioutil.TempFile(".", "vshow")
	if err != nil {
		return "", err
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	o1, err := syscall.Dup(1)
	if err != nil {
		return "", err
	}
	o2, err := syscall.Dup(2)
	if err != nil {
		return "", err
	}
	syscall.Dup3(int(tmp.Fd()), 1, 0)
	syscall.Dup3(int(tmp.Fd()), 2, 0)
	func() {
		defer func() {
			syscall.Dup3(o1, 1, 0)
			syscall.Dup3(o2, 2, 0)
			syscall.Close(o1)
			syscall.Close(o2)
		}()
		f()
	}()
	b, err := ioutil.ReadFile(tmp.Name())
	return string(b), err
}

var traceLine = regexp.MustCompile(`^ *(\d+): (<?)(-*)(>?) (.*)$`)

// (vshow form): (value output), or (error output) when form fails.
// (vlogged): what the three loggers got.
// (vtrace form): (value line ...) with one line for each line that lisp-trace prints while form is evaluated. Depths are left
// out, but every end of an evaluation has to have the depth of its beginning.
func registerShow() {
	AddLog(log.New(&logA, "", 0))
	AddLog(log.New(&logB, "> ", 0))
	AddLog(log.New(&logC, "", 0))
	MakeSpecialForm("vshow", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		var v *Data
		var err error
		out, e := captured(func() { v, err = Eval(Car(args), env) })
		if e != nil {
			return nil, e
		}
		if err != nil {
			v = Intern("error")
		}
		return ArrayToList([]*Data{v, StringWithValue(out)}), nil
	})
	MakePrimitiveFunction("vlogged", "0", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		r := ArrayToList([]*Data{StringWithValue(logA.String()), StringWithValue(logB.String()), StringWithValue(logC.String())})
		logA.Reset()
		logB.Reset()
		logC.Reset()
		return r, nil
	})
	MakeSpecialForm("vtrace", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		var v *Data
		var err error
		base := env.Depth()
		out, e := captured(func() {
			was := LispTrace
			LispTrace = true
			defer func() { LispTrace = was }()
			v, err = Eval(Car(args), env)
		})
		if e != nil {
			return nil, e
		}
		if err != nil {
			v = Intern("error")
		}
		r := []*Data{v}
		open := []int{}
		for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
			m := traceLine.FindStringSubmatch(l)
			if m == nil || (m[2] == "<") == (m[4] == ">") {
				r = append(r, StringWithValue("odd line "+l))
				continue
			}
			var d int
			fmt.Sscan(m[1], &d)
			if len(m[3]) != d || d < base {
				r = append(r, StringWithValue("odd depth "+l))
				continue
			}
			if m[4] == ">" {
				open = append(open, d)
			} else if len(open) == 0 || open[len(open)-1] != d {
				r = append(r, StringWithValue("odd nesting "+l))
				continue
			} else {
				open = open[:len(open)-1]
			}
			r = append(r, StringWithValue(m[2]+m[4]+m[5]))
		}
		return ArrayToList(r), nil
	})
}
