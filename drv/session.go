package main

// Histories of one program: parse, restore, read and overwrite results.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

type SOp struct {
	A string `json:"a"`
	K int    `json:"k"`
}
type SStep struct {
	A   string `json:"a"`
	K   int    `json:"k"`
	New string `json:"new"`
	Chg []int  `json:"chg"`
}
type SFresh struct {
	Parsed   string `json:"parsed"`
	Restored string `json:"restored"`
}
type SText struct {
	T     []Tok `json:"T"`
	Style int   `json:"style"`
}
type SReq struct {
	Texts   []string `json:"texts"`
	Threads [][]SOp  `json:"threads"`
	Procs   int      `json:"procs"`
}
type SObs struct {
	Id      int       `json:"id"`
	Text    string    `json:"text"`
	Texts   []string  `json:"texts"`
	Out     string    `json:"out"`
	Err     string    `json:"err"`
	Race    bool      `json:"race"`
	Fresh   []SFresh  `json:"fresh"`
	Threads [][]SStep `json:"threads"`
}

// ------------------------------------------------------------------ contents

// digest of everything reachable from v, but for the time of the call
type digester struct {
	w    io.Writer
	seen map[uintptr]int
	open map[slice]bool
}
type slice struct {
	p uintptr
	n int
	t reflect.Type
}

func (d *digester) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			fmt.Fprint(d.w, "nil;")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			fmt.Fprint(d.w, "@", n, ";")
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		fmt.Fprint(d.w, "&")
		d.walk(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			fmt.Fprint(d.w, "nil;")
			return
		}
		fmt.Fprint(d.w, v.Elem().Type().String(), ":")
		d.walk(v.Elem())
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			fmt.Fprint(d.w, t.Format(time.RFC3339Nano), ";")
			return
		}
		meta := v.Type() == reflect.TypeOf(types.SoqlQueryMeta{})
		fmt.Fprint(d.w, "{")
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i)
			if n.PkgPath != "" || meta && (n.Name == "Date" || n.Name == "ElapsedTime") {
				continue
			}
			fmt.Fprint(d.w, n.Name, "=")
			d.walk(v.Field(i))
		}
		fmt.Fprint(d.w, "}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Len() > 0 {
			k := slice{v.Pointer(), v.Len(), v.Type()}
			if d.open[k] {
				fmt.Fprint(d.w, "cycle;")
				return
			}
			d.open[k] = true
			defer delete(d.open, k)
		}
		fmt.Fprint(d.w, "[", v.Len(), ":")
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
		}
		fmt.Fprint(d.w, "]")
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		fmt.Fprint(d.w, "map[", v.Len(), ":")
		for _, k := range ks {
			fmt.Fprintf(d.w, "%v=", k)
			d.walk(v.MapIndex(k))
		}
		fmt.Fprint(d.w, "]")
	case reflect.String:
		fmt.Fprintf(d.w, "%q;", v.String())
	default:
		fmt.Fprintf(d.w, "%v;", v)
	}
}

func digest(r interface{}) string {
	h := fnv.New64a()
	w := bufio.NewWriterSize(h, 1<<14)
	d := digester{w, map[uintptr]int{}, map[slice]bool{}}
	d.walk(reflect.ValueOf(&r).Elem())
	w.Flush()
	return strconv.FormatUint(h.Sum64(), 16)
}

var marks int64

// mark gives v a value that nothing else has
func mark(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				mark(v.Field(i))
			}
		}
	case reflect.String:
		v.SetString("mark " + strconv.FormatInt(atomic.AddInt64(&marks, 1), 10))
	case reflect.Int, reflect.Int64:
		v.SetInt(1000000 + atomic.AddInt64(&marks, 1))
	}
}

// scramble overwrites everything reachable from v, and appends to it
func scramble(v reflect.Value, seen map[slice]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		k := slice{v.Pointer(), -1, v.Type()}
		if v.IsNil() || seen[k] {
			return
		}
		seen[k] = true
		scramble(v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		scramble(v.Elem(), seen)
		if v.CanSet() && v.NumMethod() == 0 && v.Elem().Kind() != reflect.Ptr {
			v.Set(reflect.ValueOf("scrambled"))
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			if v.CanSet() {
				v.Set(reflect.ValueOf(time.Unix(1, 1)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scramble(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		// what a program that appends would overwrite is included
		full := v.Slice(0, v.Cap())
		if k := (slice{v.Pointer(), v.Cap(), v.Type()}); v.Cap() > 0 {
			if seen[k] {
				return
			}
			seen[k] = true
		}
		for i := 0; i < full.Len(); i++ {
			scramble(full.Index(i), seen)
		}
		if v.CanSet() {
			e := reflect.New(v.Type().Elem()).Elem()
			mark(e)
			v.Set(reflect.Append(v, e))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			scramble(e, seen)
			v.SetMapIndex(k, e)
		}
		k := reflect.New(v.Type().Key()).Elem()
		scramble(k, seen)
		if !v.IsNil() {
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "~")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x55)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(-77.5)
		}
	}
}

// ------------------------------------------------------------------- sessions

type handle struct{ r interface{} } // *SoqlQuery, or a message

func doParse(text string) *handle {
	q, err := parser.Parse(text)
	if err != nil {
		return &handle{err.Error()}
	}
	return &handle{q}
}

func doRestore(h *handle) *handle {
	q, ok := h.r.(*types.SoqlQuery)
	if !ok {
		return &handle{"none"}
	}
	b, err := json.Marshal(q)
	if err != nil {
		return &handle{err.Error()}
	}
	var z types.SoqlQuery
	if err := json.Unmarshal(b, &z); err != nil {
		return &handle{err.Error()}
	}
	return &handle{&z}
}

func doRead(h *handle) {
	if q, ok := h.r.(*types.SoqlQuery); ok {
		b, err := json.Marshal(q)
		if err == nil {
			fmt.Fprint(io.Discard, string(b))
		}
		for _, f := range q.Fields {
			fmt.Fprint(io.Discard, f.Type.String())
		}
	}
}

func session(texts []string, ops []SOp) []SStep {
	var hs []*handle
	var ds []string
	steps := []SStep{}
	for _, op := range ops {
		st := SStep{A: op.A, K: op.K, Chg: []int{}}
		var n *handle
		switch op.A {
		case "parse":
			n = doParse(texts[op.K-1])
		case "restore":
			n = doRestore(hs[op.K-1])
		case "read":
			doRead(hs[op.K-1])
		case "scramble":
			scramble(reflect.ValueOf(&hs[op.K-1].r).Elem(), map[slice]bool{})
		}
		for i, h := range hs {
			if d := digest(h.r); d != ds[i] {
				st.Chg = append(st.Chg, i+1)
				ds[i] = d
			}
		}
		if n != nil {
			hs = append(hs, n)
			st.New = digest(n.r)
			ds = append(ds, st.New)
		}
		steps = append(steps, st)
	}
	return steps
}

// session1: one process, one program; request on stdin
func cmdSession1() {
	go func() {
		<-overflow
		fmt.Fprintln(os.Stderr, "the heap has grown too big")
		os.Exit(2)
	}()
	var req SReq
	die(json.NewDecoder(os.Stdin).Decode(&req))
	if req.Procs > 0 {
		runtime.GOMAXPROCS(req.Procs)
	}
	res := make([][]SStep, len(req.Threads))
	if len(res) == 1 {
		res[0] = session(req.Texts, req.Threads[0])
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range req.Threads {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				res[i] = session(req.Texts, req.Threads[i])
			}(i)
		}
		close(start)
		wg.Wait()
	}
	die(json.NewEncoder(os.Stdout).Encode(res))
}

func child(req SReq) (steps [][]SStep, out string, msg string) {
	b, err := json.Marshal(req)
	die(err)
	c := exec.Command(os.Args[0], "session1")
	c.Stdin = bytes.NewReader(b)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	c.Env = append(os.Environ(), "V_JOURNAL=", "V_HEAP=2048", "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=50")
	die(c.Start())
	t := time.AfterFunc(120*time.Second, func() { c.Process.Kill() })
	err = c.Wait()
	if !t.Stop() {
		return nil, "timeout", ""
	}
	msg = e.String()
	if len(msg) > 4000 {
		msg = msg[:4000]
	}
	if err != nil && c.ProcessState.ExitCode() != 66 {
		if c.ProcessState.ExitCode() == 2 {
			return nil, "panic", msg
		}
		die(fmt.Errorf("session1: %v\n%s", err, msg))
	}
	if err := json.Unmarshal(o.Bytes(), &steps); err != nil {
		return nil, "panic", "no answer: " + msg
	}
	if strings.Contains(e.String(), "DATA RACE") {
		return steps, "race", msg
	}
	return steps, "ok", ""
}

// session TEXTS PROGRAMS OUT BATCH: every program in a process of its own
func cmdSession(args []string) {
	batch, err := strconv.Atoi(args[3])
	die(err)
	r := rand.New(rand.NewSource(1))
	var groups [][]string
	readLines(args[0], func(b []byte) {
		var g struct {
			Texts []SText `json:"texts"`
		}
		die(json.Unmarshal(b, &g))
		var ts []string
		for _, t := range g.Texts {
			s, _ := render(t.T, r, Style{Case: t.Style})
			ts = append(ts, s)
		}
		groups = append(groups, ts)
	})
	var progs [][][]SOp
	readLines(args[1], func(b []byte) {
		var p struct {
			Ops     []SOp   `json:"ops"`
			Threads [][]SOp `json:"threads"`
		}
		die(json.Unmarshal(b, &p))
		if p.Ops != nil {
			p.Threads = [][]SOp{p.Ops}
		}
		progs = append(progs, p.Threads)
	})
	// what a program that does nothing else gets
	fresh := map[string]SFresh{}
	var mu sync.Mutex
	var all []string
	for _, g := range groups {
		all = append(all, g...)
	}
	parallel(len(all), func(i int) {
		st, out, msg := child(SReq{Texts: []string{all[i]}, Threads: [][]SOp{{{"parse", 1}, {"restore", 1}}}})
		f := SFresh{Parsed: out + msg, Restored: out}
		if out == "ok" {
			f = SFresh{Parsed: st[0][0].New, Restored: st[0][1].New}
		}
		mu.Lock()
		fresh[all[i]] = f
		mu.Unlock()
	})
	obs := make([]SObs, len(progs))
	parallel(len(progs), func(i int) {
		max := 0
		for _, t := range progs[i] {
			for _, op := range t {
				if op.A == "parse" && op.K > max {
					max = op.K
				}
			}
		}
		o := SObs{Id: i + 1, Texts: []string{}, Fresh: []SFresh{}, Threads: [][]SStep{}}
		for g := i; len(o.Texts) < max; g++ {
			o.Texts = append(o.Texts, groups[g%len(groups)]...)
		}
		for _, t := range o.Texts {
			o.Fresh = append(o.Fresh, fresh[t])
		}
		st, out, msg := child(SReq{Texts: o.Texts, Threads: progs[i], Procs: []int{0, 2, 4, 1}[i%4]})
		o.Text = strings.Join(o.Texts, " ;; ")
		o.Out, o.Err = out, msg
		if out == "race" {
			o.Out, o.Race = "ok", true
		}
		if st != nil {
			o.Threads = st
		}
		obs[i] = o
	})
	writeObs(args[2], len(obs), batch, func(i int) interface{} { return obs[i] })
}

// footprint IN OUT SEED PHASES: what is left when the results are dropped
func cmdFootprint(args []string) {
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	phases, err := strconv.Atoi(args[3])
	die(err)
	r := rand.New(rand.NewSource(seed))
	type form struct {
		toks  []Tok
		style Style
		seed  int64
	}
	var texts []form
	readLines(args[0], func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		texts = append(texts, form{c.T, styleFor(r), r.Int63()})
	})
	const variants = 16
	names := map[string]bool{"id": true, "name": true, "amt": true, "city": true, "owner": true, "parent": true, "acc": true,
		"contact": true, "opp": true, "cases": true, "upper": true, "lower": true, "tolabel": true, "f1": true, "p": true, "p1": true, "f9": true}
	// the same query about other names
	vary := func(f form, n int) string {
		toks := append([]Tok{}, f.toks...)
		for i, t := range toks {
			if (t.K == "id" || t.K == "par") && names[t.L] {
				toks[i].T = fmt.Sprintf("%s_%d", t.T, n)
			}
			if t.K == "lit" && t.C == "String" {
				toks[i].T = fmt.Sprintf("%s_%d'", strings.TrimSuffix(t.T, "'"), n)
			}
			if t.K == "lit" && t.T == "42" {
				toks[i].T = fmt.Sprint(42 + n)
			}
		}
		text, _ := render(toks, rand.New(rand.NewSource(f.seed)), f.style)
		return fmt.Sprintf("%s -- %d", text, n)
	}
	type phase struct {
		N          int `json:"n"`
		Heap       int `json:"heap"`
		Goroutines int `json:"goroutines"`
	}
	o := struct {
		Id     int     `json:"id"`
		Text   string  `json:"text"`
		Out    string  `json:"out"`
		Err    string  `json:"err"`
		Phases []phase `json:"phases"`
	}{Id: 1, Text: "a sequence of texts", Out: "ok", Phases: []phase{}}
	// each phase has texts of its own
	for p := 0; p < phases; p++ {
		lo, hi := len(texts)*p/phases, len(texts)*(p+1)/phases
		next := make(chan int)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for t := range next {
					for v := 0; v < variants; v++ {
						text := vary(texts[t], t*variants+v)
						if v >= variants-6 {
							// a text that is no query
							at := len(text) * (v - variants + 7) / 8
							text = strings.ToValidUTF8(text[:at], "") + [...]string{"", "!", "\n)", " from from"}[(t+v)%4]
							text = fmt.Sprintf("%s -- %d", text, t*variants+v)
						}
						h := doParse(text)
						doRestore(h)
					}
				}
			}()
		}
		for t := lo; t < hi; t++ {
			next <- t
		}
		close(next)
		wg.Wait()
		var m runtime.MemStats
		for i := 0; i < 4; i++ {
			runtime.GC()
			time.Sleep(20 * time.Millisecond)
		}
		runtime.ReadMemStats(&m)
		o.Phases = append(o.Phases, phase{hi - lo, int(m.HeapAlloc / 1024), runtime.NumGoroutine()})
	}
	runtime.KeepAlive(texts)
	writeObs(args[1], 1, 1, func(int) interface{} { return o })
}
