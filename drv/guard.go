package main

// Containment of calls that do not come back, or take the process with them.

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

const parseLimit = 20 * time.Second

var (
	posRe    = regexp.MustCompile(`\n --> Line (-?\d+), Col (-?\d+)\n`)
	overflow = make(chan struct{}) // closed when the heap has grown too big
	late     int32                 // calls that have not come back
	slots    = make(chan int, 16)
	journal  = os.Getenv("V_JOURNAL")

	heapLimit = uint64(6 << 30)
)

func init() {
	debug.SetMaxStack(512 << 20)
	if n, err := strconv.ParseUint(os.Getenv("V_HEAP"), 10, 32); err == nil {
		heapLimit = n << 20
	}
	for i := 0; i < cap(slots); i++ {
		slots <- i
	}
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > heapLimit {
				close(overflow)
				return
			}
		}
	}()
}

// parseGuard calls the parser: ok | syntax | error | panic | timeout | skipped
func parseGuard(text string, limit time.Duration) (q *types.SoqlQuery, out string, msg string) {
	type res struct {
		q   *types.SoqlQuery
		out string
		msg string
	}
	select {
	case <-overflow:
		return nil, "skipped", ""
	default:
	}
	if atomic.LoadInt32(&late) >= 3 {
		return nil, "skipped", ""
	}
	slot := <-slots
	defer func() { slots <- slot }()
	if journal != "" {
		// what was going on, should the process die
		os.WriteFile(journal+"."+strconv.Itoa(slot), []byte(text), 0o600)
		defer os.WriteFile(journal+"."+strconv.Itoa(slot), nil, 0o600)
	}
	ch := make(chan res, 1)
	t0 := time.Now()
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- res{nil, "panic", fmt.Sprint(p)}
			}
		}()
		q, err := parser.Parse(text)
		switch {
		case err != nil && q != nil:
			ch <- res{nil, "panic", "query and error returned: " + err.Error()}
		case err != nil && posRe.MatchString(err.Error()):
			ch <- res{nil, "syntax", err.Error()}
		case err != nil:
			ch <- res{nil, "error", err.Error()}
		case q == nil:
			ch <- res{nil, "panic", "nil query without an error"}
		default:
			ch <- res{q, "ok", ""}
		}
	}()
	select {
	case r := <-ch:
		return r.q, r.out, r.msg
	case <-overflow:
		if time.Since(t0) > 2*time.Second {
			return nil, "timeout", "the heap has grown too big"
		}
		return nil, "skipped", ""
	case <-time.After(limit):
		atomic.AddInt32(&late, 1)
		return nil, "timeout", ""
	}
}
