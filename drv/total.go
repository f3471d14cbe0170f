package main

import (
	"encoding/json"
	"math/rand"
	"strconv"
	"strings"
)

type TotObs struct {
	Id    int    `json:"id"`
	Text  string `json:"text"` // quoted
	Out   string `json:"out"`
	Err   string `json:"err"`
	Msg   bool   `json:"msg"` // there is an error message
	Line  int    `json:"line"`
	Col   int    `json:"col"`
	Lines []int  `json:"lines"`
	Nf    int    `json:"nf"` // select items, objects of an accepted query
	No    int    `json:"no"`
}

var snippets = []string{"'", "\"", "\\", "`", "\x00", "\xff", "\xc3", "\xf0\x9f\x98", "é", "漢字", "😀", "\u00a0", "\u0085", "\u2028",
	"\ufeff", "\r", "\n", "\r\n", "\t", "\v", "--", "/*", "*/", "/**/", "-", "+", "(", ")", "((((((((", "))))", ",", ",,", ".", "..", ":",
	"::", ";", "=", "!=", "<>", "<", "! =", "*", "%", "_", "$", "0", "00", "0x", "0b2", "1e", "1e999", "-1e-999", "99999999999999999999",
	"1_", "2020-02-30", "2020-02-30T25:00:00Z", "0000-01-01", "9999-12-31T23:59:59-23:59", "12:60", "24:00", "-0001-01-01", "10000-01-01",
	"null", "NaN", "-Infinity", "not ", "not not ", "and", "or", " in ", "like", "includes", "select", "from", "where", "(select", "group by ",
	"having ", "order by ", "limit ", "limit -1 ", "offset ", "for ", "for view", "for update", "count()", "count(", "fields(all)", "fields(",
	"last_n_days:", "last_n_days:5", "today", ":p", ": p", ":1", "\"a.b\"", "\"\"", "'\\u{110000}'", "'\\uD800'", "'\\400'", "\"\\n\"", "'\\",
	"typeof", "using scope", "with security_enforced", "all rows", "acc.", ".id", "a.b.c.d.e.f", "expr0", "𝕊elect", "ſelect", "İ"}

func mutateText(r *rand.Rand, s string) string {
	b := []byte(s)
	n := 1 + r.Intn(3)
	at := func() int { return r.Intn(len(b) + 1) }
	for k := 0; k < n; k++ {
		i, j := at(), at()
		if i > j {
			i, j = j, i
		}
		switch r.Intn(9) {
		case 0, 1, 2:
			b = []byte(string(b[:i]) + snippets[r.Intn(len(snippets))] + string(b[i:]))
		case 3:
			if j > i+12 {
				j = i + 1 + r.Intn(12)
			}
			b = []byte(string(b[:i]) + string(b[j:]))
		case 4:
			if j > i+40 {
				j = i + 40
			}
			b = []byte(string(b[:j]) + string(b[i:]))
		case 5:
			if len(b) > 0 {
				b[r.Intn(len(b))] = byte(r.Intn(256))
			}
		case 6:
			if len(b) > 0 {
				b[r.Intn(len(b))] = " '\"\\()=.,:-_a0\n"[r.Intn(15)]
			}
		case 7:
			b = b[:i]
		case 8:
			w := snippets[r.Intn(len(snippets))]
			b = []byte(string(b[:i]) + w + string(b[j:]))
		}
	}
	return string(b)
}

func lineLens(s string) []int {
	s = strings.NewReplacer("\r\n", "\n", "\r", "\n").Replace(s)
	z := []int{}
	for _, l := range strings.Split(s, "\n") {
		z = append(z, len(l))
	}
	return z
}

func observeTotal(id int, text string) TotObs {
	t := TotObs{Id: id, Text: strconv.Quote(text)}
	o := observe(id, nil, text, "")
	t.Out, t.Err, t.Line, t.Col, t.Lines = o.Out, "", o.Line, o.Col, []int{}
	t.Msg = o.Err != ""
	switch o.Out {
	case "ok":
		t.Nf, t.No = len(o.Q[0].Fields), len(o.Q[0].From)
	case "syntax":
		t.Lines = lineLens(text)
	case "panic":
		t.Err = o.Err
	}
	return t
}

// total IN OUT SEED BATCH N: every case as it is and N times spoilt
func cmdTotal(args []string) {
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	batch, err := strconv.Atoi(args[3])
	die(err)
	n, err := strconv.Atoi(args[4])
	die(err)
	var cases []Case
	readLines(args[0], func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	m := n + 1
	obs := make([]TotObs, len(cases)*m)
	parallel(len(obs), func(i int) {
		c := cases[i/m]
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		text, _ := render(c.T, r, styleFor(r))
		if i%m != 0 {
			text = mutateText(r, text)
		}
		obs[i] = observeTotal(i+1, text)
	})
	writeObs(args[1], len(obs), batch, func(i int) interface{} { return obs[i] })
}
