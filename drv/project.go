package main

// Projection of parse results to the JSON shape that the trace
// specifications read (no nulls, no optional members).

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

type F struct {
	Ty  string   `json:"ty"`
	N   []string `json:"n"`
	O   string   `json:"o"`
	V   string   `json:"v"`
	Al  string   `json:"al"`
	At  string   `json:"at"`
	Ps  []F      `json:"ps"`
	Sub []*Q     `json:"sub"`
	Its []F      `json:"its"`
	Ag  bool     `json:"ag"`
	Ns  bool     `json:"ns"`
	Cid int      `json:"cid"`
	Ci  int      `json:"ci"`
	Vid int      `json:"vid"`
	Sq  int      `json:"sq"`
	Nl  int      `json:"nl"` // number of name components
	K   string   `json:"k"`  // key
}
type C struct {
	Op string `json:"op"`
	F  []F    `json:"f"`
}
type Od struct {
	F    F    `json:"f"`
	Desc bool `json:"desc"`
	Nl   bool `json:"nl"`
}
type Am struct {
	V string `json:"v"`
	P string `json:"p"`
}
type For struct {
	View bool `json:"view"`
	Ref  bool `json:"ref"`
	Upd  bool `json:"upd"`
	Trk  bool `json:"trk"`
	Vst  bool `json:"vst"`
}
type O struct {
	N    []string `json:"n"`
	L    string   `json:"l"`
	Al   string   `json:"al"`
	At   string   `json:"at"`
	Hc   bool     `json:"hc"`
	Ij   bool     `json:"ij"`
	Vid  int      `json:"vid"`
	Pvid int      `json:"pvid"`
	Pn   []string `json:"pn"` // name of PerObjectQuery.From[0]
	Pf   []F      `json:"pf"`
	Pw   []C      `json:"pw"`
	Po   []Od     `json:"po"`
	Poff Am       `json:"poff"`
	Plim Am       `json:"plim"`
	Pfor For      `json:"pfor"`
	Px   bool     `json:"px"` // anything else in the per-object query
	K    string   `json:"k"`  // key
	// of PerObjectQuery.From[0]
	Pat string `json:"pat"`
	Pv  int    `json:"pv"`
	Ppv int    `json:"ppv"`
	Pk  string `json:"pk"`
	Phc bool   `json:"phc"`
	Pij bool   `json:"pij"`
}
type Q struct {
	Fields []F  `json:"fields"`
	From   []O  `json:"from"`
	Where  []C  `json:"where"`
	Group  []F  `json:"group"`
	Having []C  `json:"having"`
	Order  []Od `json:"order"`
	Off    Am   `json:"off"`
	Lim    Am   `json:"lim"`
	For    For  `json:"for"`
	Agg    bool `json:"agg"`
	Cor    bool `json:"cor"`
	Ppw    []C  `json:"ppw"`
	Qid    int  `json:"qid"`
	Par    int  `json:"par"` // query id of Parent (0: none)
	Mt     bool `json:"mt"`  // has metadata
}
type QG struct {
	Id   int  `json:"id"`
	Par  int  `json:"par"`
	D    int  `json:"d"`
	Cond bool `json:"cond"`
	Qid  int  `json:"qid"` // id of the query the leaf points to
}
type VG struct {
	Id   int    `json:"id"`
	N    string `json:"n"`
	Par  int    `json:"par"`
	Qid  int    `json:"qid"`
	D    int    `json:"d"`
	Qd   int    `json:"qd"`
	Many bool   `json:"many"`
	Ij   bool   `json:"ij"`
	Nr   bool   `json:"nr"`
	Ovid int    `json:"ovid"` // view id of the object the leaf points to
	Oqid int    `json:"oqid"` // id of the query the leaf points to
}
type M struct {
	Mqd int      `json:"mqd"`
	Mvd int      `json:"mvd"`
	Nq  int      `json:"nq"`
	Nv  int      `json:"nv"`
	Nc  int      `json:"nc"`
	Qg  []QG     `json:"qg"`
	Vg  []VG     `json:"vg"`
	Fn  []string `json:"fn"`
	Par []string `json:"par"`
	Dtl []string `json:"dtl"`
	Src bool     `json:"src"` // Source is the query text
	Ver string   `json:"ver"`
}

// names as written (not case-folded), and subqueries wherever there are any: for the JSON form
var written, whole bool

func lower(s string) string {
	if written {
		return s
	}
	return strings.ToLower(s)
}
func lowers(n []string) []string {
	z := make([]string, len(n))
	for i := range n {
		z[i] = lower(n[i])
	}
	return z
}
func lastOf(n []string) string {
	if len(n) == 0 {
		return ""
	}
	return n[len(n)-1]
}

func fmtTime(ty types.SoqlFieldInfoType, t time.Time) string {
	if _, off := t.Zone(); off != 0 {
		return "not UTC: " + t.String()
	}
	switch ty {
	case types.SoqlFieldInfo_Literal_Date:
		if t.Hour()|t.Minute()|t.Second()|t.Nanosecond() != 0 {
			return "not a date: " + t.Format(time.RFC3339Nano)
		}
		return t.Format("2006-01-02")
	case types.SoqlFieldInfo_Literal_Time:
		if t.Year() != 1970 || t.YearDay() != 1 {
			return "not a time: " + t.Format(time.RFC3339Nano)
		}
		return t.Format("15:04:05.999999999")
	}
	return t.Format(time.RFC3339Nano)
}

// leave out what SoqlScan.tla does not write: floats, strings with control characters
var plainValues bool

func litValue(ty types.SoqlFieldInfoType, v interface{}) string {
	bad := func() string { return fmt.Sprintf("!%T", v) }
	switch ty {
	case types.SoqlFieldInfo_Literal_Int:
		if x, ok := v.(int64); ok {
			return strconv.FormatInt(x, 10)
		}
		return bad()
	case types.SoqlFieldInfo_Literal_Float:
		if x, ok := v.(float64); ok {
			if math.IsNaN(x) {
				return "NaN"
			}
			if plainValues && !math.IsInf(x, 0) {
				return ""
			}
			return strconv.FormatFloat(x, 'g', -1, 64)
		}
		return bad()
	case types.SoqlFieldInfo_Literal_Bool:
		if x, ok := v.(bool); ok {
			return strconv.FormatBool(x)
		}
		return bad()
	case types.SoqlFieldInfo_Literal_String:
		if x, ok := v.(string); ok {
			if plainValues && strings.ContainsFunc(x, func(r rune) bool { return r < 32 || r == 127 }) {
				return ""
			}
			return x
		}
		return bad()
	case types.SoqlFieldInfo_Literal_Date, types.SoqlFieldInfo_Literal_DateTime, types.SoqlFieldInfo_Literal_Time:
		if x, ok := v.(time.Time); ok {
			return fmtTime(ty, x)
		}
		return bad()
	case types.SoqlFieldInfo_DateTimeLiteralName:
		if x, ok := v.(types.SoqlDateTimeLiteralName); ok {
			return strconv.Itoa(x.N)
		}
		return bad()
	}
	if v != nil && ty != types.SoqlFieldInfo_Literal_List {
		return bad()
	}
	return ""
}

func projF(f *types.SoqlFieldInfo, deep bool) F {
	z := F{Ty: f.Type.String(), N: lowers(f.Name), O: lastOf(f.Name), Al: lower(f.AliasName), At: f.AliasName,
		Ag: f.Aggregated, Ns: f.NotSelected, Cid: f.ColumnId, Ci: f.ColIndex, Vid: f.ViewId,
		Ps: []F{}, Sub: []*Q{}, Its: []F{}, Nl: len(f.Name), K: f.Key}
	z.V = litValue(f.Type, f.Value)
	if f.Type == types.SoqlFieldInfo_DateTimeLiteralName {
		// the written case of a date literal name is not kept
		z.O = ""
		if v, ok := f.Value.(types.SoqlDateTimeLiteralName); ok && (len(f.Name) != 1 || v.Name != f.Name[0]) {
			z.V = "!" + v.Name
		}
	}
	for i := range f.Parameters {
		z.Ps = append(z.Ps, projF(&f.Parameters[i], deep))
	}
	if items, ok := f.Value.([]types.SoqlListItem); ok {
		for i := range items {
			it := F{Ty: items[i].Type.String(), N: []string{}, Ps: []F{}, Sub: []*Q{}, Its: []F{}}
			switch v := items[i].Value.(type) {
			case types.SoqlDateTimeLiteralName:
				it.N = []string{lower(v.Name)}
				it.V = strconv.Itoa(v.N)
			default:
				if s, ok := v.(string); ok && items[i].Type == types.SoqlFieldInfo_ParameterizedValue {
					it.N = []string{lower(s)}
					it.O = s
				} else {
					it.V = litValue(items[i].Type, v)
				}
			}
			it.Nl = len(it.N)
			z.Its = append(z.Its, it)
		}
	}
	if f.SubQuery != nil {
		z.Sq = f.SubQuery.QueryId
		if deep || whole {
			z.Sub = append(z.Sub, projQ(f.SubQuery))
		}
	}
	return z
}
func projFs(fs []types.SoqlFieldInfo, deep bool) []F {
	z := []F{}
	for i := range fs {
		z = append(z, projF(&fs[i], deep))
	}
	return z
}

var opNames = map[types.SoqlConditionOpcode]string{
	types.SoqlConditionOpcode_Noop: "noop", types.SoqlConditionOpcode_Unknown: "unknown",
	types.SoqlConditionOpcode_FieldInfo: "operand", types.SoqlConditionOpcode_Not: "not",
	types.SoqlConditionOpcode_And: "and", types.SoqlConditionOpcode_Or: "or",
	types.SoqlConditionOpcode_Eq: "=", types.SoqlConditionOpcode_NotEq: "!=",
	types.SoqlConditionOpcode_Lt: "<", types.SoqlConditionOpcode_Le: "<=",
	types.SoqlConditionOpcode_Gt: ">", types.SoqlConditionOpcode_Ge: ">=",
	types.SoqlConditionOpcode_Like: "like", types.SoqlConditionOpcode_NotLike: "not like",
	types.SoqlConditionOpcode_In: "in", types.SoqlConditionOpcode_NotIn: "not in",
	types.SoqlConditionOpcode_Includes: "includes", types.SoqlConditionOpcode_Excludes: "excludes",
}

func projC(cs []types.SoqlCondition, deep bool) []C {
	z := []C{}
	for i := range cs {
		c := C{Op: opNames[cs[i].Opcode], F: []F{}}
		if cs[i].Opcode == types.SoqlConditionOpcode_FieldInfo {
			c.F = append(c.F, projF(&cs[i].Value, deep))
		}
		z = append(z, c)
	}
	return z
}
func projO(os []types.SoqlOrderByInfo) []Od {
	z := []Od{}
	for i := range os {
		z = append(z, Od{F: projF(&os[i].Field, false), Desc: os[i].Desc, Nl: os[i].NullsLast})
	}
	return z
}
func projFor(f types.SoqlForClause) For {
	return For{f.View, f.Reference, f.Update, f.UpdateTracking, f.UpdateViewstat}
}

func projQ(q *types.SoqlQuery) *Q {
	z := &Q{From: []O{}}
	z.Fields = projFs(q.Fields, true)
	for i := range q.From {
		o := &q.From[i]
		zo := O{N: lowers(o.Name), L: lastOf(o.Name), Al: lower(o.AliasName), At: o.AliasName,
			Hc: o.HasConditions, Ij: o.InnerJoin, Vid: o.ViewId, Pvid: o.ParentViewId,
			K: o.Key, Pn: []string{}, Pf: []F{}, Pw: []C{}, Po: []Od{}}
		if p := o.PerObjectQuery; p != nil {
			if len(p.From) == 1 {
				f := &p.From[0]
				zo.Pn, zo.Pat, zo.Pv, zo.Ppv, zo.Pk = lowers(f.Name), f.AliasName, f.ViewId, f.ParentViewId, f.Key
				zo.Px = f.PerObjectQuery != nil
				zo.Phc, zo.Pij = f.HasConditions, f.InnerJoin
			}
			zo.Pf = projFs(p.Fields, false)
			zo.Pw = projC(p.Where, false)
			zo.Po = projO(p.OrderBy)
			zo.Poff = Am{strconv.FormatInt(p.OffsetAndLimit.Offset, 10), p.OffsetAndLimit.OffsetParamName}
			zo.Plim = Am{strconv.FormatInt(p.OffsetAndLimit.Limit, 10), p.OffsetAndLimit.LimitParamName}
			zo.Pfor = projFor(p.For)
			zo.Px = zo.Px || len(p.GroupBy) != 0 || len(p.Having) != 0 || len(p.PostProcessWhere) != 0 || p.Meta != nil ||
				len(p.From) != 1 || p.Parent != nil || p.IsAggregation || p.IsCorelated || p.QueryId != 0
		}
		z.From = append(z.From, zo)
	}
	z.Where = projC(q.Where, true)
	z.Group = projFs(q.GroupBy, false)
	z.Having = projC(q.Having, true)
	z.Order = projO(q.OrderBy)
	z.Off = Am{strconv.FormatInt(q.OffsetAndLimit.Offset, 10), q.OffsetAndLimit.OffsetParamName}
	z.Lim = Am{strconv.FormatInt(q.OffsetAndLimit.Limit, 10), q.OffsetAndLimit.LimitParamName}
	z.For = projFor(q.For)
	z.Agg = q.IsAggregation
	z.Cor = q.IsCorelated
	z.Ppw = projC(q.PostProcessWhere, false)
	z.Qid = q.QueryId
	z.Mt = q.Meta != nil
	if q.Parent != nil {
		z.Par = q.Parent.QueryId
	}
	return z
}

func keys(m map[string]struct{}) []string {
	z := []string{}
	for k := range m {
		z = append(z, k)
	}
	sort.Strings(z)
	return z
}

func projM(q *types.SoqlQuery, text string) M {
	m := q.Meta
	z := M{Mqd: m.MaxQueryDepth, Mvd: m.MaxViewDepth, Nq: m.NextQueryId, Nv: m.NextViewId, Nc: m.NextColumnId,
		Fn: keys(m.Functions), Par: keys(m.Parameters), Dtl: keys(m.DateTimeLiterals), Qg: []QG{}, Vg: []VG{},
		Src: m.Source == text, Ver: m.Version}
	for k, l := range m.QueryGraph {
		g := QG{Id: k, Par: l.ParentQueryId, D: l.Depth, Cond: l.IsConditional}
		if l.Query != nil {
			g.Qid = l.Query.QueryId
		}
		z.Qg = append(z.Qg, g)
	}
	sort.Slice(z.Qg, func(i, j int) bool { return z.Qg[i].Id < z.Qg[j].Id })
	for k, l := range m.ViewGraph {
		g := VG{Id: k, N: lower(l.Name), Par: l.ParentViewId, Qid: l.QueryId, D: l.Depth, Qd: l.QueryDepth,
			Many: l.Many, Ij: l.InnerJoin, Nr: l.NonResult}
		if l.Object != nil {
			g.Ovid = l.Object.ViewId
		}
		if l.Query != nil {
			g.Oqid = l.Query.QueryId
		}
		z.Vg = append(z.Vg, g)
	}
	sort.Slice(z.Vg, func(i, j int) bool { return z.Vg[i].Id < z.Vg[j].Id })
	return z
}
