package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/steelseries/golisp"
)

// A group of behaviours that do not interfere: the steps s are taken in a shared scope, then each of the sessions g,
// all at once and repeatedly, each time in a fresh scope below it; the steps a are taken in the shared scope at the end.
// A line without g is an independent behaviour: -k of them at a time make a group without a shared scope.
type group struct {
	Id    string       `json:"id"`
	Steps [][]string   `json:"s"`
	G     [][][]string `json:"g"`
	After [][]string   `json:"a"`
	alone []string     // the names of the behaviours, if independent
}

func goid() int {
	var buf [64]byte
	n := runtime.Stack(buf[:], false)
	f := bytes.Fields(buf[:n])
	id, _ := strconv.Atoi(string(f[1]))
	return id
}

var parMode bool
var parLogs sync.Map // goroutine -> *[]*Data
var parTick uint32

func parProbe(v *Data) {
	k := goid()
	l, _ := parLogs.LoadOrStore(k, new([]*Data))
	lp := l.(*[]*Data)
	*lp = append(*lp, v)
	// let others run in the middle of an evaluation
	switch t := atomic.AddUint32(&parTick, 1); {
	case t%64 == 0:
		time.Sleep(20 * time.Microsecond)
	case t%2 == 0:
		runtime.Gosched()
	}
}

func parTakeLog() []*Data {
	l, ok := parLogs.Load(goid())
	if !ok {
		return nil
	}
	lp := l.(*[]*Data)
	r := *lp
	*lp = nil
	return r
}

func runSteps(id string, steps [][]string, env *SymbolTableFrame, now *int32) *mismatch {
	for i, st := range steps {
		atomic.StoreInt32(now, int32(i))
		mode := ""
		if len(st) > 2 {
			mode = st[2]
		}
		got, kind := evalMode(st[0], env, mode)
		if !matches(st[1], got, kind) {
			if kind == "value" || kind == "error" {
				kind = "mismatch"
			}
			return &mismatch{Id: id, Step: i, Src: st[0], Exp: st[1], Got: got, Kind: kind}
		}
	}
	return nil
}

// Each session alone first (alone: these differ from the specification without any concurrency), then all at once.
func runGroup(g *group, repeat int, limit time.Duration) (m *mismatch) {
	shared := NewSymbolTableFrameBelow(Global, "verif")
	var now int32
	below := func() *SymbolTableFrame {
		if g.alone != nil {
			return NewSymbolTableFrameBelow(Global, "verif")
		}
		return NewSymbolTableFrameBelow(shared, "session")
	}
	name := func(k int) string {
		if g.alone != nil {
			return g.alone[k]
		}
		return fmt.Sprintf("%s session %d", g.Id, k+1)
	}
	nows := make([]int32, len(g.G))
	at := int32(-1) // the session being run alone, or len(g.G) when all run
	done := make(chan *mismatch, 1)
	go func() {
		parTakeLog()
		if m := runSteps(g.Id, g.Steps, shared, &now); m != nil {
			m.Kind = "alone " + m.Kind
			done <- m
			return
		}
		for k := range g.G {
			atomic.StoreInt32(&at, int32(k))
			parTakeLog()
			if m := runSteps(name(k), g.G[k], below(), &nows[k]); m != nil {
				m.Kind = "alone " + m.Kind
				done <- m
				return
			}
		}
		parLogs.Delete(goid())
		atomic.StoreInt32(&at, int32(len(g.G)))
		res := make([]*mismatch, len(g.G))
		var wg sync.WaitGroup
		var stop int32
		gate := make(chan bool)
		for k := range g.G {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				defer func() { parLogs.Delete(goid()) }()
				<-gate
				for r := 0; r < repeat && atomic.LoadInt32(&stop) == 0; r++ {
					parTakeLog()
					if res[k] = runSteps(name(k), g.G[k], below(), &nows[k]); res[k] != nil {
						atomic.StoreInt32(&stop, 1)
						return
					}
				}
				atomic.StoreInt32(&nows[k], -1)
			}(k)
		}
		close(gate)
		wg.Wait()
		for _, m := range res {
			if m != nil {
				done <- m
				return
			}
		}
		m := runSteps(g.Id, g.After, shared, &now)
		if m != nil {
			m.Kind = "after " + m.Kind
		}
		done <- m
	}()
	stop, over := allowance(limit)
	defer close(stop)
	select {
	case m = <-done:
		return m
	case <-over:
		k := int(atomic.LoadInt32(&at))
		pre := "alone "
		if k == len(g.G) {
			pre = ""
			for k = 0; k < len(g.G)-1 && atomic.LoadInt32(&nows[k]) == -1; k++ {
			}
		}
		src := ""
		if k >= 0 && k < len(g.G) {
			if i := atomic.LoadInt32(&nows[k]); i >= 0 {
				src = g.G[k][i][0]
			}
		}
		return &mismatch{Id: g.Id, Src: src, Got: "!HANG", Kind: pre + "hang"}
	}
}

func parMain(argv []string) {
	fs := flag.NewFlagSet("par", flag.ExitOnError)
	in := fs.String("in", "", "ndjson file of groups or behaviours")
	out := fs.String("out", "", "result file")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	only := fs.Int("only", -1, "only the group that starts at this line")
	k := fs.Int("k", 8, "behaviours to a group")
	repeat := fs.Int("repeat", 20, "")
	prog := fs.String("progress", "", "")
	limit := fs.Duration("limit", 30*time.Second, "")
	fs.Parse(argv)
	parMode = true
	debug.SetMaxStack(256 << 20)
	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	o, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	enc := json.NewEncoder(o)
	var pf *os.File
	if *prog != "" {
		pf, _ = os.Create(*prog)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	line, groups, steps, bad := -1, 0, 0, 0
	var cur *group
	start, n := 0, 0
	flush := func() bool {
		g := cur
		cur = nil
		if g == nil || *only >= 0 && start != *only || *only < 0 && n%*shards != *shard {
			n++
			return true
		}
		n++
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%12d", start)), 0)
		}
		groups++
		for _, s := range g.G {
			steps += len(s) * *repeat
		}
		if m := runGroup(g, *repeat, *limit); m != nil {
			m.Line = start
			enc.Encode(m)
			bad++
			if m.Got == "!HANG" || bad >= 20 {
				return false
			}
		}
		return true
	}
	for sc.Scan() {
		line++
		var b group
		if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
			fmt.Fprintln(os.Stderr, "bad group on line", line, err)
			os.Exit(3)
		}
		if b.G != nil {
			cur, start = &b, line
		} else {
			if cur == nil {
				cur, start = &group{alone: []string{}}, line
			}
			cur.G = append(cur.G, b.Steps)
			cur.alone = append(cur.alone, b.Id)
			if len(cur.G) < *k {
				continue
			}
		}
		if !flush() {
			break
		}
	}
	if cur != nil {
		flush()
	}
	enc.Encode(map[string]interface{}{"done": true, "behaviours": groups, "steps": steps, "mismatches": bad})
	o.Close()
	os.Exit(0)
}
