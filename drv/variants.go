package main

import (
	"encoding/json"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

type VarObs struct {
	Id    int      `json:"id"`
	T     []Tok    `json:"T"`
	Text  string   `json:"text"`
	Texts []string `json:"texts"`
	Out   string   `json:"out"`
	Err   string   `json:"err"`
	Outs  []string `json:"outs"`
	Qs    []string `json:"qs"` // folded results
}

// foldQ removes what is kept as written
func foldF(f *F) {
	f.O, f.At = "", ""
	for i := range f.Ps {
		foldF(&f.Ps[i])
	}
	for i := range f.Its {
		foldF(&f.Its[i])
	}
	for _, q := range f.Sub {
		foldQ(q)
	}
}
func foldQ(q *Q) {
	fs := func(l []F) {
		for i := range l {
			foldF(&l[i])
		}
	}
	cs := func(l []C) {
		for i := range l {
			fs(l[i].F)
		}
	}
	os := func(l []Od) {
		for i := range l {
			foldF(&l[i].F)
		}
	}
	fs(q.Fields)
	cs(q.Where)
	fs(q.Group)
	cs(q.Having)
	os(q.Order)
	cs(q.Ppw)
	q.Lim.P, q.Off.P = strings.ToLower(q.Lim.P), strings.ToLower(q.Off.P)
	for i := range q.From {
		o := &q.From[i]
		o.L, o.At, o.Pat = "", "", ""
		fs(o.Pf)
		cs(o.Pw)
		os(o.Po)
		o.Plim.P, o.Poff.P = strings.ToLower(o.Plim.P), strings.ToLower(o.Poff.P)
	}
}
func foldSet(l []string) []string {
	seen, z := map[string]bool{}, []string{}
	for _, s := range l {
		s = strings.ToLower(s)
		if !seen[s] {
			seen[s] = true
			z = append(z, s)
		}
	}
	sort.Strings(z)
	return z
}
func folded(q *Q, m M) string {
	foldQ(q)
	m.Par, m.Dtl, m.Fn = foldSet(m.Par), foldSet(m.Dtl), foldSet(m.Fn)
	b, err := json.Marshal([]interface{}{q, m})
	die(err)
	return string(b)
}

// variants IN OUT SEED BATCH: several layouts of every case
func cmdVariants(args []string) {
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	batch, err := strconv.Atoi(args[3])
	die(err)
	var cases []Case
	readLines(args[0], func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	styles := []Style{{}, {Case: 1, Layout: 1}, {Case: 3, Layout: 2, Comments: true}, {Case: 2, Layout: 0, Comments: true}, {Case: 2, Layout: 2}}
	obs := make([]VarObs, len(cases))
	parallel(len(cases), func(i int) {
		c := cases[i]
		r := rand.New(rand.NewSource(seed*1000003 + int64(c.Id)))
		v := VarObs{Id: c.Id, T: []Tok{}}
		for _, st := range styles {
			text, _ := render(c.T, r, st)
			o := observe(c.Id, nil, text, "")
			v.Texts = append(v.Texts, text)
			v.Outs = append(v.Outs, o.Out)
			if o.Out == "ok" {
				v.Qs = append(v.Qs, folded(o.Q[0], o.M[0]))
			} else {
				v.Qs = append(v.Qs, "")
			}
			if v.Out == "" || o.Out == "panic" || o.Out == "timeout" || o.Out == "skipped" && v.Out != "panic" && v.Out != "timeout" {
				v.Out, v.Err, v.Text = o.Out, o.Err, text
			}
		}
		obs[i] = v
	})
	writeObs(args[1], len(obs), batch, func(i int) interface{} { return obs[i] })
}
