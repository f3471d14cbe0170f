package main

import (
	"bytes"
	"encoding/json"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// the pointers between queries (and into them) are not part of the JSON form
func stripQ(q *Q) *Q {
	q.Par = 0
	fs := func(l []F) {
		for i := range l {
			for _, s := range l[i].Sub {
				stripQ(s)
			}
		}
	}
	fs(q.Fields)
	for _, l := range [][]C{q.Where, q.Having} {
		for i := range l {
			fs(l[i].F)
		}
	}
	return q
}
func stripM(m M) M {
	for i := range m.Qg {
		m.Qg[i].Qid = 0
	}
	for i := range m.Vg {
		m.Vg[i].Ovid, m.Vg[i].Oqid = 0, 0
	}
	return m
}

// roundTrip marshals q, unmarshals it and marshals it again.
func roundTrip(o *Obs, q *types.SoqlQuery, text string) {
	o.NQ = []*Q{stripQ(projQ(q))}
	o.NM = []M{stripM(projM(q, text))}
	b1, err := json.Marshal(q)
	if err != nil {
		o.J = "marshal: " + err.Error()
		return
	}
	var q2 types.SoqlQuery
	if err := json.Unmarshal(b1, &q2); err != nil {
		o.J = "unmarshal: " + err.Error()
		return
	}
	b2, err := json.Marshal(&q2)
	if err != nil {
		o.J = "marshal again: " + err.Error()
		return
	}
	o.J = "same"
	if !bytes.Equal(b1, b2) {
		o.J = "different"
	}
	if q2.Meta == nil {
		o.J = "no meta"
		return
	}
	// the same JSON value, indented, and with its members in another order
	var ind bytes.Buffer
	if err := json.Indent(&ind, b1, " ", "\t"); err != nil {
		o.J = "indent: " + err.Error()
		return
	}
	d := json.NewDecoder(bytes.NewReader(b1))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		o.J = "not JSON: " + err.Error()
		return
	}
	sorted, err := json.Marshal(v)
	if err != nil {
		o.J = "sort: " + err.Error()
		return
	}
	for how, b := range map[string][]byte{"indented": ind.Bytes(), "sorted": sorted} {
		var q3 types.SoqlQuery
		if err := json.Unmarshal(b, &q3); err != nil {
			o.J = how + ": " + err.Error()
			return
		}
		if b3, err := json.Marshal(&q3); err != nil || !bytes.Equal(b3, b2) {
			o.J = "different when " + how
		}
	}
	o.JQ = []*Q{stripQ(projQ(&q2))}
	o.JM = []M{stripM(projM(&q2, text))}
}
