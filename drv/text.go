package main

// Texts that are judged character by character (SoqlScan.tla): renderings of
// token sequences, whole and spoilt.

import (
	"encoding/json"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

type TextObs struct {
	Obs
	Cs []int `json:"cs"`
}

var bits = []string{" ", " ", "\t", "\n", "\r\n", "\u00a0", "\u0085", "\f", "--", "-- x\n", "/*", "*/", "/**/", "/* ' */", "-", "+", "(", ")", "()", ",", ".",
	":", ";", "=", "!=", "<", ">", "<=", ">=", "!", "<>", "==", "*", "%", "_", "$", "'", "''", "'a'", "\"", "\"x\"", "\"a b\"", "\\", "\\n", "\\u0041", "`",
	"0", "1", "00", "12", "0x1f", "0b1", "0o7", "1.5", "1.", ".5", "1e3", "-1", "+2", "1_0", "9223372036854775807", "9223372036854775808", "2020-01-01",
	"2020-02-30", "2020-01-01T00:00:00Z", "2020-01-01T10:20:30.5+09:00", "12:30", "12:30:59", "24:00", "null", "true", "nan", "infinity", "-infinity", "+infinity",
	"and", " and ", "or", " or ", "not", " not ", "not(", "in", " in ", "not in", "like", " like ", "not like ", "includes", "excludes", "select", "select ", "from", " from ",
	"where", " where ", "group by ", "group", "by", "having ", "having", "order by ", "order", "asc", " desc", "nulls last", "nulls ", "first", "limit", " limit 1", "limit ",
	"offset", " offset 2", "for", " for view", "for reference", " for update tracking", "view", "update", "viewstat,", "today", "last_n_days:5", "last_n_days", "last_n_days:+5",
	"next_n_weeks:0", ":p", ": p", ":1", "é", "漢", "😀", "a", "acc", "acc.", "x.y", ".id", "count()", "fields(all)", "f(", "(select id from x)", " x", "A", "Id"}

// spoilToks drops, repeats, swaps or inserts tokens
func spoilToks(r *rand.Rand, ts []Tok) []Tok {
	z := append([]Tok(nil), ts...)
	for n := []int{0, 0, 0, 1, 1, 2}[r.Intn(6)]; n > 0 && len(z) > 3; n-- {
		i, j := r.Intn(len(z)), r.Intn(len(z))
		switch r.Intn(5) {
		case 0:
			z = append(z[:i], z[i+1:]...)
		case 1:
			z = append(z[:i+1], z[i:]...)
		case 2:
			z[i], z[j] = z[j], z[i]
		case 3:
			z[i] = z[j]
		case 4:
			z = append(z[:i], append([]Tok{z[j]}, z[i:]...)...)
		}
	}
	return z
}

func spoil(r *rand.Rand, s string) string {
	b := []rune(s)
	for n := []int{0, 1, 1, 1, 2, 3}[r.Intn(6)]; n > 0; n-- {
		i := r.Intn(len(b) + 1)
		w := []rune(bits[r.Intn(len(bits))])
		switch r.Intn(8) {
		case 0, 1, 2:
			b = append(b[:i:i], append(w, b[i:]...)...)
		case 3:
			j := i + 1 + r.Intn(2)
			if j <= len(b) {
				b = append(b[:i:i], b[j:]...)
			}
		case 4:
			j := i + r.Intn(8)
			if j <= len(b) {
				b = append(b[:i:i], append(w, b[j:]...)...)
			}
		case 5:
			if i+1 < len(b) {
				b[i], b[i+1] = b[i+1], b[i]
			}
		case 6:
			j := i + 1 + r.Intn(12)
			if j <= len(b) {
				b = append(b[:j:j], b[i:]...)
			}
		case 7:
			if i < len(b) {
				x := []rune(" '\"()=.,:-_a0\n\\")
				b[i] = x[r.Intn(len(x))]
			}
		}
	}
	return string(b)
}

// judgeable: control characters in names and what drv/codec.go writes
// differently are left out
var oddEsc = regexp.MustCompile(`\\[^\\'"_%]`)

func judgeable(s string) bool {
	return !(strings.Contains(s, "\"") && oddEsc.MatchString(s)) && !strings.Contains(s, "u{") && len(s) < 4000
}

// text IN OUT SEED BATCH N: every case as it is and N times spoilt
func cmdText(args []string) {
	plainValues = true
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	batch, err := strconv.Atoi(args[3])
	die(err)
	n, err := strconv.Atoi(args[4])
	die(err)
	var cases []Case
	readLines(args[0], func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	m := n + 1
	obs := make([]TextObs, len(cases)*m)
	parallel(len(obs), func(i int) {
		c := cases[i/m]
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		text := ""
		for try := 0; ; try++ {
			ts := c.T
			if i%m != 0 && try < 20 {
				ts = spoilToks(r, ts)
			}
			text, _ = render(ts, r, styleFor(r))
			if i%m != 0 && try < 20 {
				text = spoil(r, text)
			}
			if judgeable(text) {
				break
			}
			if try == 20 {
				text = ""
				break
			}
		}
		o := TextObs{Obs: observe(i+1, []Tok{}, text, ""), Cs: []int{}}
		for _, x := range text {
			o.Cs = append(o.Cs, int(x))
		}
		obs[i] = o
	})
	writeObs(args[1], len(obs), batch, func(i int) interface{} { return obs[i] })
}
