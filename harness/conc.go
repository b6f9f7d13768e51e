package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/steelseries/golisp"
)

// A concurrent script: several processes each evaluate a sequence of expressions in scopes below one
// shared scope. The history of calls and returns is recorded in the order of a lock held for each event:
// a call event is logged before the evaluation starts, a return event after it has ended.
type cop struct {
	Src   string          `json:"src"`
	Delay int             `json:"d"` // microseconds to wait before the call
	Meta  json.RawMessage `json:"m"`
}
type cscript struct {
	Id     string          `json:"id"`
	Setup  []string        `json:"setup"`
	Procs  [][]cop         `json:"procs"`
	Quiet  int             `json:"quiet"`  // run finish once nothing has happened for so many microseconds
	Finish []cop           `json:"finish"` // by the main process: after Quiet if given, else after all processes ended
	Final  []cop           `json:"final"`  // by the main process, after everything has ended
	Args   json.RawMessage `json:"args"`
}
type cevent struct {
	K string          `json:"k"`
	P int             `json:"p"`
	M json.RawMessage `json:"m,omitempty"`
	R string          `json:"r,omitempty"`
	T int64           `json:"t"`
}
type chistory struct {
	Id   string          `json:"id"`
	Line int             `json:"line"`
	Args json.RawMessage `json:"args,omitempty"`
	Ev   []cevent        `json:"ev"`
	Hang bool            `json:"hang"`
	Bad  string          `json:"bad,omitempty"`
}

type recorder struct {
	mu    sync.Mutex
	ev    []cevent
	start time.Time
	last  int64
	over  bool
}

func (r *recorder) add(e cevent) {
	r.mu.Lock()
	if !r.over {
		e.T = time.Since(r.start).Microseconds()
		r.ev = append(r.ev, e)
		atomic.StoreInt64(&r.last, e.T)
	}
	r.mu.Unlock()
}

var curRec *recorder

func registerConcProbes() {
	// (vevent p 'tag value): an event from inside Lisp code
	MakePrimitiveFunction("vevent", "3", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		r := curRec
		if r != nil {
			r.add(cevent{K: "in", P: int(IntegerValue(Car(args))), M: json.RawMessage(fmt.Sprintf("%q", canon(Cadr(args)))), R: canon(Caddr(args))})
		}
		return Caddr(args), nil
	})
	MakePrimitiveFunction("vpanic", "0", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		panic("vpanic")
	})
	MakePrimitiveFunction("vsleep", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		time.Sleep(time.Duration(IntegerValue(Car(args))) * time.Microsecond)
		return nil, nil
	})
	start := time.Now()
	MakePrimitiveFunction("vclock", "0", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		return IntegerWithValue(time.Since(start).Microseconds()), nil
	})
	// keep the processor busy
	MakePrimitiveFunction("vspin", "1", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		for until := time.Now().Add(time.Duration(IntegerValue(Car(args))) * time.Microsecond); time.Now().Before(until); {
		}
		return nil, nil
	})
	MakePrimitiveFunction("vyield", "0", func(args *Data, env *SymbolTableFrame) (*Data, error) {
		runtime.Gosched()
		return nil, nil
	})
}

func shape(out, kind string) string {
	if kind == "error" {
		return "!E"
	}
	if kind == "panic" {
		return "!PANIC"
	}
	return out
}

func runScript(s *cscript, limit time.Duration) chistory {
	h := chistory{Id: s.Id, Args: s.Args}
	env := NewSymbolTableFrameBelow(Global, "verif")
	for _, src := range s.Setup {
		out, kind := evalIn(src, env)
		if kind != "value" {
			h.Bad = "setup: " + src + " => " + out
			return h
		}
	}
	rec := &recorder{start: time.Now()}
	curRec = rec
	do := func(p int, o *cop, e *SymbolTableFrame) {
		if o.Delay > 0 {
			time.Sleep(time.Duration(o.Delay) * time.Microsecond)
		} else if o.Delay < 0 {
			runtime.Gosched()
		}
		rec.add(cevent{K: "call", P: p, M: o.Meta})
		out, kind := evalIn(o.Src, e)
		rec.add(cevent{K: "ret", P: p, R: shape(out, kind)})
	}
	var wg sync.WaitGroup
	gate := make(chan bool)
	for i := range s.Procs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			e := NewSymbolTableFrameBelow(env, "p")
			<-gate
			for j := range s.Procs[i] {
				do(i+1, &s.Procs[i][j], e)
			}
		}(i)
	}
	done := make(chan bool)
	close(gate)
	go func() { wg.Wait(); close(done) }()
	stop, deadline := allowance(limit)
	defer func() { close(stop) }()
	finish := func() {
		for i := range s.Finish {
			do(0, &s.Finish[i], env)
		}
	}
	hang := func() chistory {
		rec.mu.Lock()
		rec.over = true
		h.Ev = append([]cevent{}, rec.ev...)
		rec.mu.Unlock()
		h.Hang = true
		return h
	}
	fin := make(chan bool)
	if s.Quiet > 0 {
		tick := time.NewTicker(time.Duration(s.Quiet) * time.Microsecond / 2)
	wait:
		for {
			select {
			case <-done:
				break wait
			case <-tick.C:
				if time.Since(rec.start).Microseconds()-atomic.LoadInt64(&rec.last) > int64(s.Quiet) {
					break wait
				}
			}
		}
		tick.Stop()
		go func() { finish(); close(fin) }()
	} else {
		go func() { <-done; finish(); close(fin) }()
	}
	for _, c := range []chan bool{fin, done} {
		select {
		case <-c:
		case <-deadline:
			return hang()
		}
	}
	fd := make(chan bool)
	go func() {
		for i := range s.Final {
			do(0, &s.Final[i], env)
		}
		close(fd)
	}()
	select {
	case <-fd:
	case <-deadline:
		return hang()
	}
	rec.mu.Lock()
	rec.over = true
	h.Ev = rec.ev
	rec.mu.Unlock()
	return h
}

func scriptMain(argv []string) {
	fs := flag.NewFlagSet("script", flag.ExitOnError)
	in := fs.String("in", "", "ndjson file of scripts")
	out := fs.String("out", "", "ndjson file of histories")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	only := fs.Int("only", -1, "")
	repeat := fs.Int("repeat", 1, "")
	procs := fs.Int("procs", 4, "GOMAXPROCS")
	limit := fs.Duration("limit", 20*time.Second, "")
	prog := fs.String("progress", "", "")
	fs.Parse(argv)
	runtime.GOMAXPROCS(*procs)
	debug.SetMaxStack(256 << 20)
	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	o, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var pf *os.File
	if *prog != "" {
		pf, _ = os.Create(*prog)
	}
	w := bufio.NewWriter(o)
	enc := json.NewEncoder(w)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	line := -1
	for sc.Scan() {
		line++
		if *only >= 0 && line != *only || *only < 0 && line%*shards != *shard {
			continue
		}
		var s cscript
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, "bad script on line", line, err)
			os.Exit(3)
		}
		if pf != nil {
			w.Flush()
			pf.WriteAt([]byte(fmt.Sprintf("%12d", line)), 0)
		}
		for r := 0; r < *repeat; r++ {
			h := runScript(&s, *limit)
			h.Line = line
			enc.Encode(h)
			if h.Hang {
				w.Flush()
				enc.Encode(map[string]bool{"done": true})
				w.Flush()
				os.Exit(0)
			}
		}
	}
	enc.Encode(map[string]bool{"done": true})
	w.Flush()
	os.Exit(0)
}
