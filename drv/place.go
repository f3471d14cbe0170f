package main

import (
	"encoding/json"
	"math/rand"
	"strconv"
	"strings"
)

// A query spoilt at one place, and what is said about it (P28).
type PlaceObs struct {
	Id    int      `json:"id"`
	Text  string   `json:"text"` // quoted
	Out   string   `json:"out"`
	Err   string   `json:"err"`
	T     []Tok    `json:"T"`
	St    []int    `json:"st"` // where the tokens start and end, in bytes from 0
	En    []int    `json:"en"`
	At    int      `json:"at"`   // first byte that no query can have there
	Cut   bool     `json:"cut"`  // the text just ends there
	Ls    []int    `json:"ls"`   // where the lines start
	Outs  []string `json:"outs"` // with several continuations
	Lines []int    `json:"lines"`
	Cols  []int    `json:"cols"`
	Quote bool     `json:"quote"` // the message shows the line
}

var foreign = []string{"?", ";", "@", "#", "]", "%", "~", "&", "^", "\\", "`", "{", "é", "漢", "\x00", "\x7f", "\xff"}

// what follows must not matter, as nothing can lie across the foreign character
var endings = []string{"", " FROM Contact", ") = 1", "\n\r\n'", ",\r(SELECT"}

func lineStarts(s string) []int {
	z := []int{0}
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
			continue
		}
		if s[i] == '\r' || s[i] == '\n' {
			z = append(z, i+1)
		}
	}
	return z
}

func quotes(o Obs, s string, ls []int) bool {
	if o.Line < 1 || o.Line > len(ls) {
		return false
	}
	l := s[ls[o.Line-1]:]
	if k := strings.IndexAny(l, "\r\n"); k >= 0 {
		l = l[:k]
	}
	return strings.Contains(o.Err, " > | "+strings.ReplaceAll(l, "\t", "    "))
}

func observePlace(id int, toks []Tok, r *rand.Rand) PlaceObs {
	text, out, st := renderAt(toks, r, styleFor(r))
	p := PlaceObs{Id: id, T: out, St: st, Cut: r.Intn(5) == 0}
	for i := range out {
		p.En = append(p.En, st[i]+out[i].width)
	}
	k := r.Intn(len(out))
	switch t := out[k]; r.Intn(4) {
	case 0:
		p.At = p.St[k]
	case 1:
		p.At = p.En[k]
	default:
		p.At = p.En[k]
		// inside a word, number or operator
		if t.width > 1 && (t.K == "id" || t.K == "dtn" || t.K == "op" || t.K == "lit" && t.R != "" && !strings.ContainsAny(t.R[:1], "'\"")) {
			p.At = p.St[k] + 1 + r.Intn(t.width-1)
			for p.At > 0 && text[p.At]&0xc0 == 0x80 {
				p.At--
			}
		}
	}
	var texts []string
	if p.Cut {
		texts = []string{text[:p.At]}
	} else {
		f := foreign[r.Intn(len(foreign))]
		texts = []string{text[:p.At] + f + text[p.At:], text[:p.At] + f, text[:p.At] + f + endings[r.Intn(len(endings))]}
	}
	p.Text, p.Ls = strconv.Quote(texts[0]), lineStarts(texts[0])
	for i, s := range texts {
		o := observe(id, nil, s, "")
		p.Outs, p.Lines, p.Cols = append(p.Outs, o.Out), append(p.Lines, o.Line), append(p.Cols, o.Col)
		if i == 0 {
			p.Quote = quotes(o, s, p.Ls)
		}
		if i == 0 || o.Out == "panic" || o.Out == "timeout" || o.Out == "skipped" {
			p.Out, p.Err = o.Out, o.Err
		}
	}
	return p
}

// place IN OUT SEED BATCH N: every case N times spoilt at one place
func cmdPlace(args []string) {
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	batch, err := strconv.Atoi(args[3])
	die(err)
	n, err := strconv.Atoi(args[4])
	die(err)
	var cases []Case
	readLines(args[0], func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	obs := make([]PlaceObs, len(cases)*n)
	parallel(len(obs), func(i int) {
		obs[i] = observePlace(i+1, cases[i/n].T, rand.New(rand.NewSource(seed*1000003+int64(i))))
	})
	writeObs(args[1], len(obs), batch, func(i int) interface{} { return obs[i] })
}
