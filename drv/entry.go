package main

// Entry points and platforms (P25): the same texts through the library built
// for this machine, for a 32-bit one, and through the JavaScript function of the
// WebAssembly module.

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

type EntryObs struct {
	Id   int      `json:"id"`
	T    []Tok    `json:"T"`
	Text string   `json:"text"`
	Out  string   `json:"out"`
	Err  string   `json:"err"`
	Outs []string `json:"outs"`
	Qs   []string `json:"qs"`
}

func readCases(path string) []Case {
	var cases []Case
	readLines(path, func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	return cases
}

// entrytexts IN OUT SEED N: every case as it is and N times spoilt
func cmdEntryTexts(args []string) {
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	n, err := strconv.Atoi(args[3])
	die(err)
	buf := bytes.NewBufferString("null\n\"\"\n")
	for i, c := range readCases(args[0]) {
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		text, _ := render(c.T, r, styleFor(r))
		for k := 0; k <= n; k++ {
			if !utf8.ValidString(text) {
				continue
			}
			b, err := json.Marshal(text)
			die(err)
			buf.Write(append(b, '\n'))
			text = mutateText(r, text)
		}
	}
	die(os.WriteFile(args[1], buf.Bytes(), 0o644))
}

func readTexts(path string) []string {
	z := []string{}
	readLines(path, func(b []byte) {
		var s string
		die(json.Unmarshal(b, &s))
		z = append(z, s)
	})
	return z
}

type entryResult struct {
	Out string `json:"out"`
	R   string `json:"r"`
}

// timeless leaves out the lines of the time of the call
func timeless(s string) string {
	for _, k := range []string{"\n    \"date\": \"", "\n    \"elapsedTime\": "} {
		if i := strings.LastIndex(s, k); i >= 0 {
			if n := strings.IndexByte(s[i+1:], '\n'); n >= 0 {
				s = s[:i] + s[i+1+n:]
			}
		}
	}
	return s
}

// entryrun TEXTS OUT
func cmdEntryRun(args []string) {
	texts := readTexts(args[0])
	res := make([][]byte, len(texts))
	parallel(len(texts), func(i int) {
		r := entryResult{Out: "error"}
		if q, out, msg := parseGuard(texts[i], parseLimit); out == "panic" || out == "timeout" || out == "skipped" {
			r = entryResult{Out: out, R: msg}
		} else if q == nil {
			r.R = msg
		} else if b, err := json.Marshal(q); err != nil {
			r.R = err.Error()
		} else {
			var buf bytes.Buffer
			die(json.Indent(&buf, b, "", "  "))
			r = entryResult{Out: "ok", R: timeless(buf.String())}
		}
		b, err := json.Marshal(r)
		die(err)
		res[i] = b
	})
	die(os.WriteFile(args[1], append(bytes.Join(res, []byte("\n")), '\n'), 0o644))
}

var (
	numbered = regexp.MustCompile(`(?i)_n_[a-z]+`)
	manyDigs = regexp.MustCompile(`(?i)[0-9][0-9a-fx_]{8,}`)
)

// wideNumber: the text may have a date literal with a number that only a 64-bit
// machine takes
func wideNumber(s string) bool { return numbered.MatchString(s) && manyDigs.MatchString(s) }

// entryobs TEXTS BATCH OUT WASM,WASM... NATIVE... (WASM may be -)
func cmdEntryObs(args []string) {
	texts := readTexts(args[0])
	batch, err := strconv.Atoi(args[1])
	die(err)
	obs := make([]EntryObs, len(texts))
	for i := range obs {
		obs[i] = EntryObs{Id: i + 1, T: []Tok{}, Text: texts[i]}
	}
	for k, path := range args[4:] {
		i := 0
		readLines(path, func(b []byte) {
			var r entryResult
			die(json.Unmarshal(b, &r))
			o := &obs[i]
			i++
			if k > 0 && wideNumber(o.Text) {
				return
			}
			o.Outs, o.Qs = append(o.Outs, r.Out), append(o.Qs, r.R)
			if o.Out == "" || r.Out == "panic" || r.Out == "timeout" {
				o.Out = r.Out
			}
			if r.Out != "ok" && o.Err == "" {
				o.Err = r.R
			}
		})
	}
	wasm := strings.Split(args[3], ",")
	files := make([][]string, len(wasm))
	for k, path := range wasm {
		if path == "-" {
			continue
		}
		readLines(path, func(b []byte) { files[k] = append(files[k], string(b)) })
	}
	for i := range obs {
		if args[3] == "-" {
			break
		}
		b := []byte(files[i%len(wasm)][i/len(wasm)])
		var r struct{ S, E string }
		die(json.Unmarshal(b, &r))
		o := &obs[i]
		switch {
		case r.E != "":
			o.Outs, o.Qs = append(o.Outs, "exception"), append(o.Qs, r.E)
		case json.Valid([]byte(r.S)) && len(r.S) > 0 && r.S[0] == '{':
			o.Outs, o.Qs = append(o.Outs, "ok"), append(o.Qs, timeless(r.S))
		default:
			o.Outs, o.Qs = append(o.Outs, "error"), append(o.Qs, r.S)
		}
	}
	writeObs(args[2], len(obs), batch, func(i int) interface{} { return obs[i] })
}
