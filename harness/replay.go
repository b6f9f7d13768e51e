package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/steelseries/golisp"
)

// One behaviour of a specification: a sequence of steps, each a Lisp expression together with the
// outcome the specification gives it. A step is [source, expected] or [source, expected, where].
// expected is a value in canonical notation, "!E" (an error), "*" (value or error), "?V" (any value).
// where is "" (this behaviour's own scope), "g" (the global scope), "p" (source is read, not evaluated:
// the outcome is the list of all data in it), "a" (all data in source are read and evaluated, the outcome
// is the last value), "r" (the value of source is printed, read, evaluated again if it is a frame,
// and the outcome is what that gives), "s" (is what that gives the same as the value: #t) or "j" (the value
// is a list of two strings: are they the same JSON document).
type behaviour struct {
	Id    string     `json:"id"`
	Steps [][]string `json:"s"`
}

type mismatch struct {
	Line int    `json:"line"`
	Id   string `json:"id"`
	Step int    `json:"step"`
	Src  string `json:"src"`
	Exp  string `json:"exp"`
	Got  string `json:"got"`
	Kind string `json:"kind"`
}

var probeMu sync.Mutex
var probeLog []*Data

func registerProbes() {
	MakePrimitiveFunction("vprobe", "1|2", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		if parMode {
			parProbe(Car(args))
		} else {
			probeMu.Lock()
			probeLog = append(probeLog, Car(args))
			probeMu.Unlock()
		}
		if Length(args) == 2 {
			return Cadr(args), nil
		}
		return Car(args), nil
	})
	MakePrimitiveFunction("vlog", "0", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		if parMode {
			return ArrayToList(parTakeLog()), nil
		}
		probeMu.Lock()
		l := probeLog
		probeLog = nil
		probeMu.Unlock()
		return ArrayToList(l), nil
	})
	// (vid x): a number for the object x, the same number for the same object
	var idMu sync.Mutex
	ids := make(map[*Data]int)
	MakePrimitiveFunction("vid", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		idMu.Lock()
		defer idMu.Unlock()
		id, ok := ids[Car(args)]
		if !ok {
			id = len(ids) + 1
			ids[Car(args)] = id
		}
		return IntegerWithValue(int64(id)), nil
	})
	// (vfresh): a number that has not been given before
	fresh := 0
	MakePrimitiveFunction("vfresh", "0", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		idMu.Lock()
		defer idMu.Unlock()
		fresh++
		return IntegerWithValue(int64(fresh)), nil
	})
	// (vsame? a b): are a and b the very same object
	MakePrimitiveFunction("vsame?", "2", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return BooleanWithValue(Car(args) == Cadr(args)), nil
	})
	// files of this process in the working directory, which is the check's scratch directory: (vfn k) is the name
	// of file k, (vfile k) its contents, (vrm k) removes it, (vclear) removes them all
	fn := func(d *Data) string {
		if parMode {
			return fmt.Sprintf("vf-%d-%d-%s", os.Getpid(), goid(), strings.ReplaceAll(PrintString(d), "/", "_"))
		}
		return fmt.Sprintf("vf-%d-%s", os.Getpid(), strings.ReplaceAll(PrintString(d), "/", "_"))
	}
	MakePrimitiveFunction("vfn", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return StringWithValue(fn(Car(args))), nil
	})
	MakePrimitiveFunction("vfile", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		b, err := os.ReadFile(fn(Car(args)))
		return StringWithValue(string(b)), err
	})
	MakePrimitiveFunction("vrm", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return nil, os.Remove(fn(Car(args)))
	})
	var clears uint32
	MakePrimitiveFunction("vclear", "0", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		files, err := filepath.Glob(fn(StringWithValue("*")))
		for _, f := range files {
			os.Remove(f)
		}
		// ports that were dropped without being closed are closed by their finalizers
		if atomic.AddUint32(&clears, 1)%100 == 0 {
			runtime.GC()
		}
		return nil, err
	})
	installHostValues()
	installTexts()
	registerShow()
	installProfiles()
	installHostPrims()
	// the conversions of the Go API that make alists of objects
	MakePrimitiveFunction("vjson->alist", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return JsonStringToLisp(StringValue(Car(args))), nil
	})
	MakePrimitiveFunction("valist->json", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return StringWithValue(LispToJsonString(Car(args))), nil
	})
}

// The time something may take, in short sleeps, so that time in which this process could not run does not count.
func allowance(limit time.Duration) (stop chan bool, over chan bool) {
	stop, over = make(chan bool), make(chan bool)
	go func() {
		step := 50 * time.Millisecond
		for t := time.Duration(0); t < limit; t += step {
			select {
			case <-stop:
				return
			case <-time.After(step):
			}
		}
		close(over)
	}()
	return
}

func evalIn(src string, env *SymbolTableFrame) (out string, kind string) {
	defer func() {
		if r := recover(); r != nil {
			out, kind = "!PANIC "+fmt.Sprint(r), "panic"
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	v, err := ParseAndEvalInEnvironment(src, env)
	if err != nil {
		return "!E " + err.Error(), "error"
	}
	return canon(v), "value"
}

func evalMode(src string, env *SymbolTableFrame, mode string) (out string, kind string) {
	defer func() {
		if r := recover(); r != nil {
			out, kind = "!PANIC "+fmt.Sprint(r), "panic"
		}
	}()
	switch mode {
	case "p":
		l, err := ParseAll(src)
		if err != nil {
			return "!E " + err.Error(), "error"
		}
		return canon(ArrayToList(l)), "value"
	case "a":
		v, err := ParseAndEvalAllInEnvironment(src, env)
		if err != nil {
			return "!E " + err.Error(), "error"
		}
		return canon(v), "value"
	case "r", "s":
		v, err := ParseAndEvalInEnvironment(src, env)
		if err != nil {
			return "!E " + err.Error(), "error"
		}
		text := String(v)
		l, err := ParseAll(text)
		if err == nil && len(l) != 1 {
			return fmt.Sprintf("%d data in %s", len(l), text), "value"
		}
		var again *Data
		if err == nil {
			again = l[0]
			if TypeOf(v) == FrameType {
				again, err = Eval(again, env)
			}
		}
		if err != nil {
			return "!E printed as " + text + ": " + err.Error(), "error"
		}
		if mode == "r" {
			return canon(again), "value"
		}
		if canon(again) == canon(v) {
			return "#t", "value"
		}
		return canon(v) + " became " + canon(again) + " printed as " + text, "value"
	case "j":
		v, err := ParseAndEvalInEnvironment(src, env)
		if err != nil {
			return "!E " + err.Error(), "error"
		}
		var a, b interface{}
		if err := json.Unmarshal([]byte(StringValue(Car(v))), &a); err != nil {
			return "!E the expected text is not JSON: " + err.Error(), "error"
		}
		if err := json.Unmarshal([]byte(StringValue(Cadr(v))), &b); err != nil {
			return "!E not JSON: " + canon(Cadr(v)), "error"
		}
		if reflect.DeepEqual(a, b) {
			return "#t", "value"
		}
		return canon(v), "value"
	}
	return evalIn(src, env)
}

func matches(exp, got, kind string) bool {
	switch exp {
	case "*":
		return kind == "value" || kind == "error"
	case "!E":
		return kind == "error"
	case "?V":
		return kind == "value"
	}
	if strings.HasPrefix(exp, "?|") { // one of several outcomes
		for _, e := range strings.Split(exp[2:], "||") {
			if matches(e, got, kind) {
				return true
			}
		}
		return false
	}
	return kind == "value" && exp == got
}

func runBehaviour(b *behaviour, stepNow *int) *mismatch {
	env := NewSymbolTableFrameBelow(Global, "verif")
	probeMu.Lock()
	probeLog = nil
	probeMu.Unlock()
	for i, st := range b.Steps {
		*stepNow = i
		e := env
		if len(st) > 2 && st[2] == "g" {
			e = Global
		}
		mode := ""
		if len(st) > 2 {
			mode = st[2]
		}
		got, kind := evalMode(st[0], e, mode)
		if !matches(st[1], got, kind) {
			if kind == "value" || kind == "error" {
				kind = "mismatch"
			}
			return &mismatch{Id: b.Id, Step: i, Src: st[0], Exp: st[1], Got: got, Kind: kind}
		}
	}
	return nil
}

func replayMain(argv []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	in := fs.String("in", "", "ndjson file of behaviours")
	out := fs.String("out", "", "result file")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	only := fs.Int("only", -1, "replay only this line")
	upto := fs.Int("upto", -1, "stop after this line")
	prog := fs.String("progress", "", "file that always holds the line being replayed")
	limit := fs.Duration("limit", 20*time.Second, "time allowed to one behaviour")
	max := fs.Int("max", 20, "stop after this many mismatches")
	stack := fs.Int("stack", 256, "goroutine stack limit in MB")
	fs.Parse(argv)
	debug.SetMaxStack(*stack << 20)

	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	o, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	enc := json.NewEncoder(o)
	var pf *os.File
	if *prog != "" {
		pf, _ = os.Create(*prog)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	line, behaviours, steps, bad := -1, 0, 0, 0
	for sc.Scan() {
		line++
		if *upto >= 0 && line > *upto {
			break
		}
		if *only >= 0 && line != *only {
			continue
		}
		if *only < 0 && line%*shards != *shard {
			continue
		}
		var b behaviour
		if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
			fmt.Fprintln(os.Stderr, "bad behaviour on line", line, err)
			os.Exit(3)
		}
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%12d", line)), 0)
		}
		behaviours++
		steps += len(b.Steps)
		var stepNow int
		done := make(chan *mismatch, 1)
		go func() { done <- runBehaviour(&b, &stepNow) }()
		var m *mismatch
		stop, over := allowance(*limit)
		select {
		case m = <-done:
			close(stop)
		case <-over:
			i := stepNow
			m = &mismatch{Id: b.Id, Step: i, Src: b.Steps[i][0], Exp: b.Steps[i][1], Got: "!HANG", Kind: "hang"}
		}
		if m != nil {
			m.Line = line
			enc.Encode(m)
			bad++
			if m.Kind == "hang" || bad >= *max {
				break
			}
		}
	}
	enc.Encode(map[string]interface{}{"done": true, "behaviours": behaviours, "steps": steps, "mismatches": bad})
	o.Close()
	os.Exit(0)
}
