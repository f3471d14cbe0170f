package main

// Which parts of a result does no property look at?  Alters one place of each
// result before it is judged (a measure of the specification, not a check).

import (
	"encoding/json"
	"math/rand"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"time"
)

type place struct {
	path string
	do   func()
}

func places(v reflect.Value, path string, out *[]place) {
	add := func(s string, f func()) { *out = append(*out, place{path + s, f}) }
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		add("=nil", func() { v.Set(reflect.Zero(v.Type())) })
		places(v.Elem(), path, out)
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			add("+1s", func() { v.Set(reflect.ValueOf(v.Interface().(time.Time).Add(time.Second))) })
			return
		}
		for i := 0; i < v.NumField(); i++ {
			n := v.Type().Field(i).Name
			f := v.Field(i)
			if n == "Parent" || n == "Object" || n == "Query" {
				if !f.IsNil() {
					*out = append(*out, place{path + "." + n + "=nil", func() { f.Set(reflect.Zero(f.Type())) }})
				}
				continue
			}
			if n == "Hints" || n == "ClassName" || n == "Date" || n == "ElapsedTime" {
				continue
			}
			places(f, path+"."+n, out)
		}
	case reflect.Slice:
		if v.Len() > 0 {
			add("-last", func() { v.Set(v.Slice(0, v.Len()-1)) })
			add("+dup", func() { v.Set(reflect.Append(v.Slice3(0, v.Len(), v.Len()), v.Index(v.Len()-1))) })
			add("-first", func() { v.Set(v.Slice(1, v.Len())) })
		} else {
			add("+zero", func() { v.Set(reflect.Append(v, reflect.Zero(v.Type().Elem()))) })
		}
		if v.Len() > 1 {
			add("~swap", func() { x := reflect.ValueOf(v.Index(0).Interface()); v.Index(0).Set(v.Index(1)); v.Index(1).Set(x) })
		}
		for i := 0; i < v.Len(); i++ {
			places(v.Index(i), path+"[]", out)
		}
	case reflect.Map:
		add("+key", func() {
			if v.IsNil() {
				v.Set(reflect.MakeMap(v.Type()))
			}
			k := reflect.New(v.Type().Key()).Elem()
			if k.Kind() == reflect.String {
				k.SetString("zz")
			} else {
				k.SetInt(77)
			}
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		})
		for _, k := range v.MapKeys() {
			k := k
			add("-key", func() { v.SetMapIndex(k, reflect.Value{}) })
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			n := len(*out)
			places(e, path+"{}", out)
			for j := n; j < len(*out); j++ {
				f := (*out)[j].do
				(*out)[j].do = func() { f(); v.SetMapIndex(k, e) }
			}
		}
	case reflect.Interface:
		if v.IsNil() {
			add("=x", func() { v.Set(reflect.ValueOf("x")) })
			return
		}
		add("=nil", func() { v.Set(reflect.Zero(v.Type())) })
		e := reflect.New(v.Elem().Type()).Elem()
		e.Set(v.Elem())
		n := len(*out)
		places(e, path+"("+e.Type().Name()+")", out)
		for j := n; j < len(*out); j++ {
			f := (*out)[j].do
			(*out)[j].do = func() { f(); v.Set(e) }
		}
	case reflect.Bool:
		add("!", func() { v.SetBool(!v.Bool()) })
	case reflect.Int, reflect.Int64:
		add("+1", func() { v.SetInt(v.Int() + 1) })
		if v.Int() != 0 {
			add("=0", func() { v.SetInt(0) })
		}
	case reflect.Float64:
		add("+1", func() { v.SetFloat(v.Float() + 1) })
	case reflect.String:
		add("+x", func() { v.SetString(v.String() + "x") })
		if v.String() != "" {
			add("=empty", func() { v.SetString("") })
		}
	}
}

// audit IN OUT SEED BATCH K PATHS
func cmdAudit(args []string) {
	seed, err := strconv.ParseInt(args[2], 10, 64)
	die(err)
	batch, err := strconv.Atoi(args[3])
	die(err)
	n, err := strconv.Atoi(args[4])
	die(err)
	var cases []Case
	readLines(args[0], func(b []byte) {
		var c Case
		die(json.Unmarshal(b, &c))
		cases = append(cases, c)
	})
	obs := make([]Obs, len(cases)*n)
	paths := make([]string, len(obs))
	parallel(len(obs), func(i int) {
		c := cases[i/n]
		r := rand.New(rand.NewSource(seed*1000003 + int64(i)))
		text, toks := render(c.T, r, styleFor(r))
		o := Obs{Id: i + 1, T: toks, Text: text, Q: []*Q{}, M: []M{}, JQ: []*Q{}, JM: []M{}, NQ: []*Q{}, NM: []M{}, Lines: []int{}}
		q, out, msg := parseGuard(text, parseLimit)
		o.Out, o.Err = out, msg
		if out == "ok" {
			var ps []place
			places(reflect.ValueOf(q).Elem(), "", &ps)
			by := map[string][]place{}
			ks := []string{}
			for _, p := range ps {
				k := pathClass.ReplaceAllString(p.path, "$1")
				if by[k] == nil {
					ks = append(ks, k)
				}
				by[k] = append(by[k], p)
			}
			sort.Strings(ks)
			k := ks[r.Intn(len(ks))]
			by[k][r.Intn(len(by[k]))].do()
			paths[i] = k
			func() {
				defer func() {
					if recover() != nil {
						o.Out = "panic"
					}
				}()
				o.Q = append(o.Q, projQ(q))
				o.M = append(o.M, projM(q, text))
			}()
		}
		obs[i] = o
	})
	writeObs(args[1], len(obs), batch, func(i int) interface{} { return obs[i] })
	f, err := os.Create(args[5])
	die(err)
	defer f.Close()
	json.NewEncoder(f).Encode(paths)
}

// nested queries are like their enclosing ones
var pathClass = regexp.MustCompile(`^.*\.SubQuery(\.)`)
