package main

import (
	"encoding/json"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

type LitCase struct {
	Id  int   `json:"id"`
	Cs  []int `json:"cs"`
	Tpl int   `json:"tpl"`
}
type LitObs struct {
	Id   int    `json:"id"`
	Cs   []int  `json:"cs"`
	Tpl  int    `json:"tpl"`
	Text string `json:"text"`
	Out  string `json:"out"`
	Err  string `json:"err"`
	Ty   string `json:"ty"`
	V    []int  `json:"v"`
}

var litTpl = [][2]string{
	{"select id from acc where f = ", ""},
	{"select id from acc where f in ( 1 ,", ",null) "},
	{"select id from acc where f(x,", ")>=1"},
	{"select id from acc where (f <= ", ") and g = 1"},
	{"select g(", ") gx from acc"},
	{"select id from acc where id in (select id from opp where f not in (", " ) ) limit 1"},
}

func litNum(ty types.SoqlFieldInfoType, v interface{}) []int {
	digits := func(z []int, s string) []int {
		for _, c := range s {
			z = append(z, int(c-'0'))
		}
		return z
	}
	switch ty {
	case types.SoqlFieldInfo_Literal_Int:
		x := v.(int64)
		s := strconv.FormatInt(x, 10)
		z := []int{1}
		if x < 0 {
			z[0], s = -1, s[1:]
		}
		if x == 0 {
			return z
		}
		return digits(z, s)
	case types.SoqlFieldInfo_Literal_Float:
		x := v.(float64)
		sign := 1
		if math.Signbit(x) {
			sign = -1
		}
		switch {
		case math.IsNaN(x):
			return []int{}
		case math.IsInf(x, 0):
			return []int{sign}
		case x == 0:
			return []int{sign, 0}
		}
		s := strconv.FormatFloat(math.Abs(x), 'e', -1, 64)
		k := strings.IndexByte(s, 'e')
		e, err := strconv.Atoi(s[k+1:])
		die(err)
		return digits([]int{sign, e + 1}, strings.TrimRight(strings.Replace(s[:k], ".", "", 1), "0"))
	case types.SoqlFieldInfo_Literal_Bool:
		if v.(bool) {
			return []int{1}
		}
		return []int{0}
	case types.SoqlFieldInfo_Literal_String:
		z := []int{}
		for _, r := range v.(string) {
			z = append(z, int(r))
		}
		return z
	case types.SoqlFieldInfo_Literal_Date, types.SoqlFieldInfo_Literal_DateTime, types.SoqlFieldInfo_Literal_Time:
		t := v.(time.Time)
		d := []int{t.Year(), int(t.Month()), t.Day()}
		c := []int{t.Hour(), t.Minute(), t.Second(), t.Nanosecond()}
		if _, off := t.Zone(); off != 0 {
			return append(append(d, c...), off)
		}
		switch ty {
		case types.SoqlFieldInfo_Literal_Date:
			if c[0]|c[1]|c[2]|c[3] == 0 {
				return d
			}
		case types.SoqlFieldInfo_Literal_Time:
			if d[0] == 1970 && d[1] == 1 && d[2] == 1 {
				return c
			}
		}
		return append(d, c...)
	}
	return []int{}
}

func observeLit(c LitCase) (o LitObs) {
	rs := make([]rune, len(c.Cs))
	for i := range rs {
		rs[i] = rune(c.Cs[i])
	}
	t := litTpl[c.Tpl%len(litTpl)]
	text := t[0] + string(rs) + t[1]
	o = LitObs{Id: c.Id, Cs: c.Cs, Tpl: c.Tpl, Text: text, V: []int{}}
	q, out, msg := parseGuard(text, parseLimit)
	o.Out, o.Err = out, msg
	if out != "ok" {
		return
	}
	defer func() {
		// a value that is not of the declared type
		if p := recover(); p != nil {
			o.Ty, o.V = "?", []int{}
		}
	}()
	var ty types.SoqlFieldInfoType
	var v interface{}
	list := func(l []types.SoqlListItem, i int) {
		ty, v = l[i].Type, l[i].Value
	}
	set := func(f types.SoqlFieldInfo) { ty, v = f.Type, f.Value }
	switch c.Tpl % len(litTpl) {
	case 0, 3:
		set(q.Where[1].Value)
	case 1:
		list(q.Where[1].Value.Value.([]types.SoqlListItem), 1)
	case 2:
		set(q.Where[0].Value.Parameters[1])
	case 4:
		set(q.Fields[0].Parameters[0])
	case 5:
		list(q.Where[1].Value.SubQuery.Where[1].Value.Value.([]types.SoqlListItem), 0)
	}
	o.Ty = ty.String()
	if strings.HasPrefix(o.Ty, "Literal_") {
		o.Ty = o.Ty[len("Literal_"):]
	}
	o.V = litNum(ty, v)
	return
}

// lits IN OUT SEED BATCH
func cmdLits(args []string) {
	batch, err := strconv.Atoi(args[3])
	die(err)
	var cases []LitCase
	readLines(args[0], func(b []byte) {
		var c LitCase
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	obs := make([]LitObs, len(cases))
	parallel(len(cases), func(i int) { obs[i] = observeLit(cases[i]) })
	writeObs(args[1], len(obs), batch, func(i int) interface{} { return obs[i] })
}
