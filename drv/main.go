package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Case struct {
	Id int   `json:"id"`
	T  []Tok `json:"T"`
	// query text; when set, T is not rendered
	Text string `json:"text,omitempty"`
}

type Obs struct {
	Id    int         `json:"id"`
	T     []Tok       `json:"T"`
	Text  string      `json:"text"`
	Out   string      `json:"out"` // ok | syntax | error | panic | timeout
	Err   string      `json:"err"`
	Line  int         `json:"line"`
	Col   int         `json:"col"`
	Lines []int       `json:"lines"` // length of each source line in runes
	Q     []*Q        `json:"q"`
	M     []M         `json:"m"`
	J     string      `json:"j"` // outcome of the JSON round trip: same | ...
	JQ    []*Q        `json:"jq"`
	JM    []M         `json:"jm"`
	NQ    []*Q        `json:"nq"` // q, m without what the JSON form leaves out
	NM    []M         `json:"nm"`
	Tm    Tm          `json:"tm"`
	Jl    [][2]string `json:"jl,omitempty"`
}

// Tm: the times of a result, in microseconds from the start of the call
type Tm struct {
	Start   int  `json:"start"`
	Elapsed int  `json:"elapsed"`
	Total   int  `json:"total"` // of the call
	Utc     bool `json:"utc"`
	Steady  bool `json:"steady"`
}

func micros(d time.Duration) int {
	const most = 2000 * time.Second
	if d > most {
		d = most
	}
	if d < -most {
		d = -most
	}
	return int(d.Microseconds())
}

func observe(id int, toks []Tok, text string, how string) (o Obs) {
	o = Obs{Id: id, T: toks, Text: text, Q: []*Q{}, M: []M{}, JQ: []*Q{}, JM: []M{}, NQ: []*Q{}, NM: []M{}, Lines: []int{}}
	t0 := time.Now()
	q, out, msg := parseGuard(text, parseLimit)
	t1 := time.Now()
	// all by the clock on the wall, which the result shows
	wall := t1.Round(0).Sub(t0.Round(0))
	o.Tm.Total = micros(wall)
	o.Tm.Steady = wall-t1.Sub(t0) < 100*time.Microsecond && t1.Sub(t0)-wall < 100*time.Microsecond
	o.Out, o.Err = out, msg
	defer func() {
		if p := recover(); p != nil {
			// a result that cannot be read (nil pointers, values of another type)
			o.Out, o.Err = "panic", fmt.Sprint("reading the result: ", p)
		}
	}()
	if m := posRe.FindStringSubmatch(msg); out == "syntax" && m != nil {
		o.Line, _ = strconv.Atoi(m[1])
		o.Col, _ = strconv.Atoi(m[2])
	}
	if out == "ok" {
		o.Q = append(o.Q, projQ(q))
		o.M = append(o.M, projM(q, text))
		o.Tm.Start = micros(q.Meta.Date.Round(0).Sub(t0.Round(0)))
		o.Tm.Elapsed = micros(q.Meta.ElapsedTime)
		o.Tm.Utc = q.Meta.Date.Location() == time.UTC
		switch how {
		case "rt":
			roundTrip(&o, q, text)
		case "json":
			jsonForm(&o, q, text)
		}
	}
	return o
}

func readLines(path string, fn func([]byte)) {
	f, err := os.Open(path)
	die(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(strings.TrimSpace(sc.Text())) > 0 {
			fn(append([]byte(nil), sc.Bytes()...))
		}
	}
	die(sc.Err())
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

func parallel(n int, fn func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				fn(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// writeObs writes the observations in files of `batch` lines: path.0, path.1, ...
func writeObs(path string, n, batch int, get func(i int) interface{}) {
	k := (n + batch - 1) / batch
	parallel(k, func(b int) {
		f, err := os.Create(path + "." + strconv.Itoa(b))
		die(err)
		w := bufio.NewWriterSize(f, 1<<20)
		for i := b * batch; i < n && i < (b+1)*batch; i++ {
			var l bytes.Buffer
			enc := json.NewEncoder(&l)
			enc.SetEscapeHTML(false)
			die(enc.Encode(get(i)))
			_, err := w.Write(encode(l.Bytes()))
			die(err)
		}
		die(w.Flush())
		die(f.Close())
	})
	fmt.Println("batches", k)
}

// pipe IN OUT SEED BATCH [rt|json]: render, parse and project every case
func cmdPipe(args []string) {
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	batch, err := strconv.Atoi(args[3])
	die(err)
	how := ""
	if len(args) > 4 {
		how = args[4]
	}
	if how == "json" {
		written, whole = true, true
	}
	var cases []Case
	readLines(args[0], func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	obs := make([]Obs, len(cases))
	parallel(len(cases), func(i int) {
		c := cases[i]
		r := rand.New(rand.NewSource(seed*1000003 + int64(c.Id)))
		text, toks := c.Text, c.T
		if text == "" {
			text, toks = render(c.T, r, styleFor(r))
		}
		obs[i] = observe(c.Id, toks, text, how)
	})
	writeObs(args[1], len(obs), batch, func(i int) interface{} { return obs[i] })
}

func main() {
	// Nothing may depend on where the program runs.
	time.Local = time.FixedZone("LOCAL", 5*3600+1800)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv pipe ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "pipe":
		cmdPipe(os.Args[2:])
	case "place":
		cmdPlace(os.Args[2:])
	case "total":
		cmdTotal(os.Args[2:])
	case "entrytexts":
		cmdEntryTexts(os.Args[2:])
	case "entryrun":
		cmdEntryRun(os.Args[2:])
	case "entryobs":
		cmdEntryObs(os.Args[2:])
	case "audit":
		cmdAudit(os.Args[2:])
	case "text":
		cmdText(os.Args[2:])
	case "variants":
		cmdVariants(os.Args[2:])
	case "lits":
		cmdLits(os.Args[2:])
	case "session":
		cmdSession(os.Args[2:])
	case "session1":
		cmdSession1()
	case "footprint":
		cmdFootprint(os.Args[2:])
	default:
		os.Exit(3)
	}
}
