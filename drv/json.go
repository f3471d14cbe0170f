package main

// The JSON form of a result, as a list of its leaves: path and value.

import (
	"bytes"
	"encoding/json"
	"strconv"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

var sets = map[string]bool{"functions": true, "parameters": true, "dateTimeLiterals": true}

// leaves: strings are marked by a quote, numbers by #. Left out are members that
// say nothing (false, 0, "", null, [] and {}), but not in the value of a literal.
func leaves(v interface{}, path []string, add func(path []string, v string)) {
	key := path[len(path)-1]
	inValue := false
	for _, k := range path {
		inValue = inValue || k == "value"
	}
	at := func(k string) []string { return append(append([]string{}, path...), k) }
	switch x := v.(type) {
	case map[string]interface{}:
		for k, w := range x {
			if f, ok := w.(json.Number); ok && k == "value" && x["type"] == "Float" {
				if n, err := f.Float64(); err == nil {
					add(at(k), "#"+strconv.FormatFloat(n, 'g', -1, 64))
					continue
				}
			}
			leaves(w, at(k), add)
		}
		if len(x) == 0 && len(path) > 1 && sets[path[len(path)-2]] {
			add(path, "{}")
		}
	case []interface{}:
		for i, w := range x {
			leaves(w, at(strconv.Itoa(i+1)), add)
		}
		if len(x) == 0 && inValue {
			add(path, "[]")
		}
	case json.Number:
		if x != "0" || key == "value" {
			add(path, "#"+string(x))
		}
	case string:
		if x != "" || key == "value" {
			add(path, "\""+x)
		}
	case bool:
		if x || key == "value" {
			add(path, strconv.FormatBool(x))
		}
	case nil:
		if key == "value" {
			add(path, "null")
		}
	}
}

// jsonForm fills in the JSON form of q. The times of the call stand for themselves (=),
// and so does the text.
func jsonForm(o *Obs, q *types.SoqlQuery, text string) {
	b, err := json.Marshal(q)
	if err != nil {
		o.J = "marshal: " + err.Error()
		return
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		o.J = "not JSON: " + err.Error()
		return
	}
	o.J = "ok"
	leaves(v, []string{"$"}, func(path []string, s string) {
		p := strings.Join(path, "/")
		switch {
		case p == "$/meta/date" && s == "\""+q.Meta.Date.Format(time.RFC3339Nano),
			p == "$/meta/elapsedTime" && s == "#"+strconv.FormatInt(int64(q.Meta.ElapsedTime), 10),
			p == "$/meta/source" && s == "\""+text:
			s = "="
		}
		o.Jl = append(o.Jl, [2]string{p, s})
	})
}
