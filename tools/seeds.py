"""Planted bugs: one edit of /repo each, with a program that shows it."""
PP = 'soql/parser/postprocess/'
CO = 'soql/parser/core/'
TY = 'soql/parser/types/'
PA = 'soql/parser/parser.go'
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

WASM = '''#!/bin/bash
# Run with cwd = the repository, built. Exit 0: it behaves; nonzero: it does not.
here="$(cd "$(dirname "$0")" && pwd)"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=0
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:$PATH"
tmp="$(mktemp -d)"
js="$(go env GOROOT)/lib/wasm/wasm_exec.js"
[ -f "$js" ] || js="$(go env GOROOT)/misc/wasm/wasm_exec.js"
GOOS=js GOARCH=wasm timeout 250 go build -o "$tmp/go.wasm" ./wasm && timeout 120 node "$here/demo.js" "$js" "$tmp/go.wasm"
rc=$?
rm -r "$tmp"
exit $rc
'''


seed('b01-postprocess-subquery', 'P09', [(PP + 'normalize1.go',
     '''		if err := ctx.normalizeQuery(qPlace, field.SubQuery, q, queryDepth+1, objNameMap); err != nil {''',
     '''		subQuery := *field.SubQuery
		field.SubQuery = &subQuery
		if err := ctx.normalizeQuery(qPlace, field.SubQuery, q, queryDepth+1, objNameMap); err != nil {''')],
     'a subquery in WHERE, looked at in the remaining condition',
     'The remaining condition holds the subquery as parsed, not as normalized',
     '''
	q := parse("SELECT Id FROM Contact WHERE Id IN (SELECT x FROM Task)")
	check(q.PostProcessWhere[1].Value.SubQuery.QueryId == 2, q.PostProcessWhere[1].Value.SubQuery.QueryId)
''')

seed('b02-function-filter', 'P08', [(PP + 'normalizeperobj.go',
     '''				case SoqlFieldInfo_Function, SoqlFieldInfo_SubQuery:
					// NOTE: Function always replace with Unknown.
''', '''				case SoqlFieldInfo_Function:
					if len(cond.Value.Parameters) == 0 {
						// It does not depend on a record.
						break
					}
					fallthrough
				case SoqlFieldInfo_SubQuery:
					// NOTE: Function always replace with Unknown.
''')],
     'a comparison with a function without parameters',
     'The object query applies a comparison with a function',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = now()")
	check(len(q.From[0].PerObjectQuery.Where) == 0, show(q.From[0].PerObjectQuery.Where))
''')

seed('b03-not-ge', 'P07', [(PP + 'normalize2.go',
     '''				case SoqlConditionOpcode_Ge:
					conditions[j].Opcode = SoqlConditionOpcode_Lt''',
     '''				case SoqlConditionOpcode_Ge:
					conditions[j].Opcode = SoqlConditionOpcode_Le''')],
     'NOT over >=', 'NOT a >= 1 becomes a <= 1',
     '''
	q := parse("SELECT Id FROM Contact WHERE NOT (x = 1 OR a >= 2)")
	check(strings.HasSuffix(show(q.Where), "2 Lt And"), show(q.Where))
''')

seed('b04-comment-keyword', 'P19', [(CO + 'elements.go',
     'FlatGroup(SeqI("order"), sp1(), SeqI("by"), WordBoundary()),',
     'FlatGroup(SeqI("order"), erase(OneOrMoreTimes(Whitespace())), SeqI("by"), WordBoundary()),')],
     'a comment between ORDER and BY right where an alias may stand',
     'ORDER/**/BY is taken for an alias and the query is rejected',
     '''
	parse("SELECT Id FROM Contact ORDER /* newest */ BY Name")
''')

seed('b05-nonresult-depth', 'P15', [(PP + 'normalize.go',
     '''						l2.NonResult = true
						ctx.viewGraph[w] = l2
						applyNonResult(w)''',
     '''						l2.NonResult = true
						ctx.viewGraph[w] = l2''')],
     'objects two levels below the first object of a conditional subquery (graph links, not name prefixes)',
     'Deep objects of a condition operand are left as part of the result',
     '''
	for i := 0; i < 20; i++ {
		q := parse("SELECT Id FROM Contact WHERE Id IN (SELECT Id, (SELECT Id, (SELECT Id, (SELECT x.y.Id FROM Us) FROM Ts) FROM Cs) FROM Account)")
		for k, v := range q.Meta.ViewGraph {
			check(v.NonResult == (v.Query != q), k, v.Name)
		}
	}
''')

seed('b06-innerjoin-up', 'P15', [(PP + 'normalize.go',
     '''				next = l2.ParentViewId
''', '''				next = 0
				if !l2.NonResult {
					next = l2.ParentViewId
				}
''')],
     'a filtered object three levels below the first object of a conditional subquery',
     'Objects above it are not marked as inner-joined, depending on the order the object graph is walked in',
     '''
	for i := 0; i < 50; i++ {
		q := parse("SELECT Id FROM T WHERE Id IN (SELECT Id FROM Contact WHERE Account.Owner.Manager.Boss.Name = 'a')")
		for _, v := range q.Meta.ViewGraph {
			check(v.InnerJoin == (v.Name != "T" && v.Name != "Contact"), v.Name, v.InnerJoin)
		}
	}
''')

seed('b07-count-nested', 'P16', [(PP + 'normalize1.go',
     '''			case "count", "count_distinct":
				q.IsAggregation = true
			}

			for i := 0; i < len(field.Parameters); i++ {
				preScanFunctionFields(&field.Parameters[i], q)
			}''',
     '''			case "count", "count_distinct":
				q.IsAggregation = true
			default:
				if len(field.Parameters) > 0 {
					preScanFunctionFields(&field.Parameters[0], q)
				}
			}''')],
     'a counting function as a later parameter of a function behind a plain field',
     'A field outside the aggregate is accepted, depending on item order',
     '''
	rejected("SELECT Name, f(1, Count(Id)) FROM Contact")
''')

seed('b08-params-case', 'P17', [(PP + 'normalize1.go',
     '''	case SoqlFieldInfo_DateTimeLiteralName:
		ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
''',
     '''	case SoqlFieldInfo_DateTimeLiteralName:
		if !conf.isHavingClause {
			ctx.dateTimeLiterals[strings.ToLower(field.Name[0])] = struct{}{}
		}
''')],
     'a named date literal as an operand in HAVING only',
     'The metadata misses the date literal',
     '''
	q := parse("SELECT MAX(CreatedDate) FROM Contact GROUP BY Name HAVING MAX(CreatedDate) = LAST_N_DAYS:3")
	_, ok := q.Meta.DateTimeLiterals["last_n_days"]
	check(ok, q.Meta.DateTimeLiterals)
''')

seed('b09-json-colindex', 'P18', [(TY + 'marshaller.go',
     '''	t.ColIndex = t2.ColIndex
''', '''	if t2.ColIndex > 0 {
		t.ColIndex = t2.ColIndex
	}
''')],
     'a field reference without column (an order item that is a select alias)',
     'The column index -1 becomes 0 in the JSON round trip',
     '''
	q := parse("SELECT f(x) total FROM Contact ORDER BY total")
	b, _ := json.Marshal(q)
	var r SoqlQuery
	check(json.Unmarshal(b, &r) == nil)
	check(r.OrderBy[0].Field.ColIndex == q.OrderBy[0].Field.ColIndex, r.OrderBy[0].Field.ColIndex)
''')

seed('b10-hex-surrogate', 'P20', [(CO + 'elements.go',
     '''								erase(CharClass("u{")),
								Repeat(Times{Min: 1, Max: 6}, HexNumber()),''',
     '''								erase(CharClass("u{")),
								Repeat(Times{Min: 1, Max: 5}, HexNumber()),''')],
     'a code point escape of six digits', 'An escape of the grammar is rejected',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = 'x\\\\u{10FFFF}y'")
	check(q.Where[1].Value.Value == "x\\U0010FFFFy", q.Where[1].Value.Value)
''')

seed('b11-time-fraction', 'P20', [(CO + 'elements.go',
     '''				ClassName: class.Time,
				Type:      AstType_Any,
				Value:     t.UTC(),''',
     '''				ClassName: class.Time,
				Type:      AstType_Any,
				Value:     t.UTC().Round(time.Microsecond),''')],
     'a time with nanoseconds', 'Fractions of a second below a microsecond are rounded',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = 03:04:05.123456789")
	check(q.Where[1].Value.Value.(time.Time).Nanosecond() == 123456789)
''')

seed('b12-limit-first', 'P05', [(CO + 'expressions3.go',
     '''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.OffsetParamName = asts[1].Value.(string)''',
     '''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.OffsetParamName = strings.ToLower(asts[1].Value.(string))''')],
     'LIMIT written before an OFFSET that is a parameter with capitals',
     'The name of the parameter is not kept as written',
     '''
	q := parse("SELECT Id FROM Contact LIMIT 10 OFFSET :startAt")
	check(q.OffsetAndLimit.OffsetParamName == "startAt", q.OffsetAndLimit)
''')

seed('b13-nulls-desc', 'P05', [(CO + 'expressions3.go',
     '''					Desc:      asts[i*3+1].Value.(bool),
					NullsLast: asts[i*3+2].Value.(bool),''',
     '''					Desc:      asts[i*3+1].Value.(bool),
					NullsLast: asts[i*3+2].Value.(bool) || (i > 0 && asts[i*3-1].Value.(bool) && asts[i*3+1].Value.(bool)),''')],
     'a descending order item behind one with NULLS LAST',
     'Nulls placement of one order item leaks into the next',
     '''
	q := parse("SELECT Id FROM Contact ORDER BY a NULLS LAST, b DESC, c")
	check(q.OrderBy[0].NullsLast && !q.OrderBy[1].NullsLast && !q.OrderBy[2].NullsLast)
''')

seed('b14-order-alias-case', 'P10', [(PP + 'normalize.go',
     'if p, ok := fieldAliasMap[strings.ToLower(field.Name[0])]; ok {',
     'if p, ok := fieldAliasMap[field.Name[0]]; ok {')],
     'ORDER BY naming a select alias with capitals',
     'The alias is taken for a field of the primary object',
     '''
	q := parse("SELECT Name Nm, MAX(x) Total FROM Contact GROUP BY Name ORDER BY Total")
	check(q.OrderBy[0].Field.Type == SoqlFieldInfo_Function, q.OrderBy[0].Field.Name)
''')

seed('b15-alias-key', 'P10', [(PP + 'normalize1.go',
     '''			s := make([]string, 0, len(currentName))
			s = append(s, currentName...)
			s[len(currentName)-1] = object.AliasName
''',
     '''			s := make([]string, 0, len(currentName))
			s = append(s, currentName...)
			s[0] = object.AliasName
''')],
     'an object below another, named by the path that ends in its alias',
     'Contact.acc.Name no longer means the aliased relationship',
     '''
	q := parse("SELECT Id, Contact.acc.Name FROM Contact, Contact.Account acc")
	check(strings.Join(q.Fields[1].Name, ".") == "Contact.Account.Name", q.Fields[1].Name)
	check(len(q.From) == 2)
''')

seed('b16-max-viewdepth', 'P14', [(PP + 'normalize.go',
     '		if ctx.maxViewDepth < objDepth {', '		if ctx.maxViewDepth < nameLen {')],
     'an object of a conditional subquery deeper than all others although its own path is shorter',
     'The recorded maximal depth is too small',
     '''
	q := parse("SELECT Account.Name FROM Contact WHERE Id IN (SELECT a.b FROM Task)")
	check(q.Meta.MaxViewDepth == 3, q.Meta.MaxViewDepth)
''')

seed('b17-colindex-params', 'P13', [(PP + 'normalize3.go',
     '''			case SoqlFieldInfo_Function:
				if err := ctx.applyColIndexToFields(q, conditions[i].Value.Parameters); err != nil {''',
     '''			case SoqlFieldInfo_Function:
				if len(conditions[i].Value.Parameters) < 2 {
					break
				}
				if err := ctx.applyColIndexToFields(q, conditions[i].Value.Parameters); err != nil {''')],
     'a one-parameter function over a later column in a condition',
     'The column index of the parameter stays 0',
     '''
	q := parse("SELECT Id, Name FROM Contact WHERE f(Name) = 1")
	check(q.Where[0].Value.Parameters[0].ColIndex == 1, q.Where[0].Value.Parameters[0].ColIndex)
''')

seed('b18-subquery-id', 'P12', [(PP + 'normalize2.go',
     '''		case SoqlFieldInfo_FieldSet, SoqlFieldInfo_SubQuery:
			field.ColumnId = ctx.columnId
			ctx.columnId++
''', '''		case SoqlFieldInfo_FieldSet, SoqlFieldInfo_SubQuery:
			field.ColumnId = ctx.columnId
			if field.Type == SoqlFieldInfo_SubQuery || field.AliasName != "" {
				ctx.columnId++
			}
''')],
     'FIELDS() followed by another select item',
     'The field set shares its column id with the next new column',
     '''
	q := parse("SELECT FIELDS(all), Id FROM Contact")
	check(q.Fields[0].ColumnId != q.Fields[1].ColumnId)
''')

seed('b19-expr-twice', 'P22', [(PP + 'normalize2.go',
     '''				for {
					exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
					exprCount++

					if _, ok := fieldAliasMap[exprName]; !ok {
						field.AliasName = exprName
						break
					}
				}
''', '''				exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
				exprCount++

				if _, ok := fieldAliasMap[exprName]; ok {
					exprName = "expr" + strconv.Itoa(exprCount)
					exprCount++
				}
				field.AliasName = exprName
''')],
     'explicit aliases that take two numbers in a row',
     'A generated alias collides with an explicit one',
     '''
	q := parse("SELECT f(a) expr0, f(b) expr1, f(c) FROM Contact")
	check(q.Fields[2].AliasName == "expr2", q.Fields[2].AliasName)
''')

seed('b20-empty-params', 'P02', [(CO + 'expressions1.go',
     '''			astsLen := len(asts)
			z := make([]SoqlFieldInfo, astsLen-1, astsLen-1)
			for i := 1; i < astsLen; i++ {
				switch asts[i].ClassName {''',
     '''			astsLen := len(asts)
			z := noParameters
			if astsLen > 1 {
				z = make([]SoqlFieldInfo, astsLen-1, astsLen-1)
			}
			for i := 1; i < astsLen; i++ {
				switch asts[i].ClassName {'''),
     (CO + 'expressions1.go', 'func selectFieldFunctionCall() ParserFn {',
      '// The parameters of a function call without parameters\nvar noParameters = make([]SoqlFieldInfo, 0, 4)\n\nfunc selectFieldFunctionCall() ParserFn {')],
     'two calls of functions without parameters, the caller appending to both parameter lists',
     'The parameter lists of different results share their spare capacity',
     '''
	a, b := parse("SELECT f() FROM Contact"), parse("SELECT g() FROM Contact")
	a.Fields[0].Parameters = append(a.Fields[0].Parameters, SoqlFieldInfo{Name: []string{"x"}})
	b.Fields[0].Parameters = append(b.Fields[0].Parameters, SoqlFieldInfo{Name: []string{"y"}})
	check(a.Fields[0].Parameters[0].Name[0] == "x", a.Fields[0].Parameters[0].Name)
''')

seed('b21-memo', 'P02', [(PA, '''	out, err := queryParser(*NewStringParserContext(s))
''', '''	if last, ok := parsed.Load().(*types.SoqlQuery); ok && last.Meta.Source == s {
		q := *last
		m := *last.Meta
		q.Meta = &m
		q.Meta.Date = meta.Date
		q.Meta.ElapsedTime = time.Since(meta.Date)
		return &q, nil
	}

	out, err := queryParser(*NewStringParserContext(s))
'''), (PA, '''	return &q, nil
}''', '''	parsed.Store(&q)
	return &q, nil
}'''), (PA, '''	queryParser ParserFn
)''', '''	queryParser ParserFn
	parsed      atomic.Value
)'''), (PA, '''	"strconv"
''', '''	"strconv"
	"sync/atomic"
''')],
     'the same text twice in a row, one result overwritten',
     'The last result is kept and handed out again',
     '''
	a := parse("SELECT Id FROM Contact")
	a.Fields[0].Name[1] = "hacked"
	b := parse("SELECT Id FROM Contact")
	check(b.Fields[0].Name[1] == "Id", b.Fields[0].Name)
''')

seed('b22-scratch-map', 'P03', [(PP + 'normalize2.go', '''	noAliasNameColumnIds := make(map[int]struct{})
	exprCount := 0
''', '''	for k := range noAliasNameColumnIds {
		delete(noAliasNameColumnIds, k)
	}
	exprCount := 0
'''), (PP + 'normalize2.go', 'func (ctx *normalizeQueryContext) assignImplicitAliasNames(',
      '// Column ids that already appeared without alias (scratch)\nvar noAliasNameColumnIds = make(map[int]struct{})\n\nfunc (ctx *normalizeQueryContext) assignImplicitAliasNames(')],
     'two goroutines that parse at the same time',
     'Unsynchronized use of a shared map',
     '''
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				q := parse("SELECT a, b, c, d, e, a, b FROM Contact")
				check(q.Fields[5].AliasName == "expr0" && q.Fields[0].AliasName == "", q.Fields[5].AliasName)
			}
		}()
	}
	wg.Wait()
''', race=True)

seed('b23-seen', 'P23', [(PA, '''	q := out.AstStack[0].Value.(types.SoqlQuery)

''', '''	q := out.AstStack[0].Value.(types.SoqlQuery)

	if n, ok := frequencies.LoadOrStore(s, new(int64)); ok {
		atomic.AddInt64(n.(*int64), 1)
	}

'''), (PA, '''	queryParser ParserFn
)''', '''	queryParser ParserFn
	frequencies sync.Map // how often each text was parsed
)'''), (PA, '''	"strconv"
''', '''	"strconv"
	"sync"
	"sync/atomic"
''')],
     'very many different texts', 'Every text ever parsed is kept',
     '''
	use := func(from, n int) uint64 {
		for i := from; i < from+n; i++ {
			parse(fmt.Sprintf("SELECT Id FROM Contact WHERE x = 'text %d %s'", i, strings.Repeat("z", 200)))
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	a := use(0, 2000)
	b := use(10000, 10000)
	check(b < a+1000000, a, b)
''')

seed('b24-fields-panic', 'P01', [(PP + 'normalize1.go', '''				if len(field.Parameters) != 1 {
					return errors.New("Field set 'Fields()' requires a single parameter")
				}
				if field.Parameters[0].Type''', '''				if len(field.Parameters) > 1 {
					return errors.New("Field set 'Fields()' requires a single parameter")
				}
				if field.Parameters[0].Type''')],
     'FIELDS() without parameter', 'A panic instead of an error',
     '''
	rejected("SELECT FIELDS() FROM Contact")
''')

seed('b25-for-order', 'P04', [(CO + 'expressions3.go', '''						SeqI("viewstat"),
						wordBoundary(),
						sp0(),
						ZeroOrOnce(
							erase(CharClass(",")),
							sp0(),
							SeqI("tracking"),''', '''						SeqI("viewstat"),
						wordBoundary(),
						sp0(),
						ZeroOrOnce(
							erase(ZeroOrOnce(CharClass(","))),
							sp0(),
							SeqI("tracking"),''')],
     'FOR UPDATE VIEWSTAT TRACKING without a comma', 'A text outside the grammar is accepted',
     '''
	parse("SELECT Id FROM Contact FOR UPDATE VIEWSTAT, TRACKING")
	rejected("SELECT Id FROM Contact FOR UPDATE VIEWSTAT TRACKING")
''')

seed('b26-correlated-parent', 'P21', [(PP + 'normalize3.go', '''							if q.Parent.From[j].Key == nsKey {''',
     '''							if q.Parent.From[j].Key == nsKey && !q.Parent.IsCorelated {''')],
     'a correlated subquery below a correlated subquery, referring to a field nothing else selects',
     'The second level of correlation is rejected',
     '''
	parse("SELECT Id, (SELECT Id, (SELECT Id FROM Tasks WHERE f(con.zzz) = 1 AND g(con.yyy, con.www) = 2) FROM Contacts con WHERE f(acc.xxx) = 1) FROM Account acc")
''')

seed('b27-aggregate-mixed', 'P16', [(PP + 'normalize1.go', '''					case SoqlFieldInfo_Function:
						aggregated = false
						break FN_HAVING_OUTER
''', '''					case SoqlFieldInfo_Function:
						break FN_HAVING_OUTER
''')],
     'an aggregate candidate whose parameters are a field followed by a function',
     'f(x, g(y)) is marked as aggregate and its ungrouped field accepted',
     '''
	rejected("SELECT f(x, g(Name)) FROM Contact GROUP BY Name")
''')

seed('b28-graph-parent', 'P14', [(PP + 'normalize.go', '''		IsConditional: qPlace == soqlQueryPlace_ConditionalOperand,
		Query:         q,''', '''		IsConditional: qPlace == soqlQueryPlace_ConditionalOperand && len(callParentQuery.Where) > 0,
		Query:         q,''')],
     'a subquery in HAVING of a query without WHERE',
     'The query graph does not mark it as conditional',
     '''
	q := parse("SELECT Name FROM Contact GROUP BY Name HAVING MAX(x) IN (SELECT Id FROM Task)")
	check(q.Meta.QueryGraph[2].IsConditional)
''')

seed('b29-sort-from', 'P11', [(PP + 'normalize.go', '''		return len(q.From[i+1].Name) < len(q.From[j+1].Name)
	})''', '''		return len(q.From[i+1].Name) < len(q.From[j+1].Name) && q.From[j+1].AliasName == ""
	})''')],
     'a declared object with alias deep below, before an object walked through above another',
     'Objects stand before their parents',
     '''
	q := parse("SELECT Id FROM Contact, Contact.Account.Owner.Manager m WHERE m.x = 1 AND Contact.Account.b = 2")
	seen := map[string]bool{}
	for i, o := range q.From {
		if i > 0 {
			check(seen[strings.Join(o.Name[:len(o.Name)-1], ".")], q.From)
		}
		seen[strings.Join(o.Name, ".")] = true
	}
''')

seed('b30-and-order', 'P06', [(CO + 'rules.go', '''				isOperator("soql:BinaryOp", []string{"and"}),
				anyOperand(),
			),
			func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				cond1 := asts[0].Value.([]SoqlCondition)
				cond2 := asts[2].Value.([]SoqlCondition)
''', '''				isOperator("soql:BinaryOp", []string{"and"}),
				anyOperand(),
			),
			func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				cond1 := asts[0].Value.([]SoqlCondition)
				cond2 := asts[2].Value.([]SoqlCondition)
				if len(cond1) < len(cond2) && cond1[len(cond1)-1].Opcode != SoqlConditionOpcode_Not {
					// Evaluate the complex member first.
					cond1, cond2 = cond2, cond1
				}
''')],
     'AND whose right member is longer than the left', 'The members of AND change places',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = 1 AND (b = 2 OR c = 3)")
	check(q.Where[0].Value.Name[1] == "a", show(q.Where))
''')

# ---- second round ----

seed('b31-comment-cr', 'P19', [(CO + 'elements.go',
     '''			ZeroOrMoreTimes(CharClassN("\\r\\n", "\\n", "\\r")),
			First(
				CharClass("\\r\\n", "\\n", "\\r"),''',
     '''			ZeroOrMoreTimes(CharClassN("\\r\\n", "\\n")),
			First(
				CharClass("\\r\\n", "\\n"),''')],
     'a line comment that ends with a lone carriage return', 'The comment swallows the rest of the query',
     '''
	q := parse("SELECT Id FROM Contact -- c\\rWHERE a = 1\\nLIMIT 3")
	check(len(q.Where) == 3 && q.OffsetAndLimit.Limit == 3, show(q.Where))
''')

seed('b32-having-field', 'P04', [(CO + 'expressions2.go',
     '''						selectFieldFunctionCall(),
						listValue(),
						Error("Unexpected token aheads near by the 'having' clause (unknown operand2)"),''',
     '''						selectFieldFunctionCall(),
						complexSymbolName(),
						listValue(),
						Error("Unexpected token aheads near by the 'having' clause (unknown operand2)"),''')],
     'a field as the second operand of HAVING', 'It is accepted',
     '''
	rejected("SELECT a FROM Contact GROUP BY a HAVING max(b) > a")
''')

seed('b33-nullsfirst', 'P04', [(CO + 'expressions3.go',
     '''				erase(SeqI("nulls")),
				sp1(),''', '''				erase(SeqI("nulls")),
				sp0(),''')],
     'NULLS and LAST written together', 'NULLSLAST is accepted',
     '''
	parse("SELECT Id FROM Contact ORDER BY a NULLS/**/LAST")
	rejected("SELECT Id FROM Contact ORDER BY a NULLSLAST")
''')

seed('b34-micros', 'P20', [(CO + 'elements.go',
     '''				ClassName: class.Time,
				Type:      AstType_Any,
				Value:     t.UTC(),''',
     '''				ClassName: class.Time,
				Type:      AstType_Any,
				Value:     t.UTC().Truncate(time.Microsecond),''')],
     'a time with more than six digits of fraction', 'The last three digits are dropped',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = 03:04:05.123456789")
	check(q.Where[1].Value.Value.(time.Time).Nanosecond() == 123456789, q.Where[1].Value.Value)
''')

seed('b35-escape-upper', 'P20', [(CO + 'elements.go',
     'replaceStr(CharClass("v", "V"), "\\v"),', 'replaceStr(CharClass("v"), "\\v"),')],
     'the escape \\V in upper case', 'The string is rejected',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = 'x\\\\V'")
	check(q.Where[1].Value.Value == "x\\v", q.Where[1].Value.Value)
''')

seed('b36-json-int', 'P18', [(TY + 'marshalhelper.go',
     '''			var v int64
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return v, nil''',
     '''			var v float64
			if err := json.Unmarshal(b, &v); err != nil {
				return nil, err
			}
			return int64(v), nil''')],
     'an integer beyond 2^53', 'It comes back altered',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = 9007199254740993")
	b, _ := json.Marshal(q)
	var r SoqlQuery
	check(json.Unmarshal(b, &r) == nil)
	check(r.Where[1].Value.Value == int64(9007199254740993), r.Where[1].Value.Value)
''')

seed('b37-offset-param', 'P17', [(PP + 'normalize.go',
     '	if q.OffsetAndLimit.OffsetParamName != "" {', '	if q.OffsetAndLimit.OffsetParamName != "" && q.OffsetAndLimit.LimitParamName == "" {')],
     'both LIMIT and OFFSET are parameters', 'The parameter of OFFSET is not listed',
     '''
	q := parse("SELECT Id FROM Contact LIMIT :n OFFSET :m")
	check(len(q.Meta.Parameters) == 2, q.Meta.Parameters)
''')

seed('b38-mixed-params', 'P16', [(PP + 'normalize1.go',
     '''					case SoqlFieldInfo_Function:
						aggregated = false
						break FN_HAVING_OUTER
''', '''					case SoqlFieldInfo_Function:
						if i == 0 {
							break FN_HAVING_OUTER
						}
						aggregated = false
''')],
     'a function of a field, a function, and another field', 'It is marked as aggregate',
     '''
	q := parse("SELECT f(a, g(1), a) FROM Contact GROUP BY a")
	check(!q.Fields[0].Aggregated, q.Fields[0])
''')

seed('b39-group-colindex', 'P13', [(PP + 'normalize3.go',
     '''	if err := ctx.applyColIndexToFields(q, q.GroupBy); err != nil {
		return err
	}
''', '''	if len(q.Having) > 0 {
		if err := ctx.applyColIndexToFields(q, q.GroupBy); err != nil {
			return err
		}
	}
''')],
     'GROUP BY by the second column, without HAVING', 'Its column index is 0',
     '''
	q := parse("SELECT a, b FROM Contact GROUP BY a, b")
	check(q.GroupBy[1].ColIndex == 1, q.GroupBy[1])
''')

seed('b41-group-alias-nested', 'P10', [(PP + 'normalize.go',
     '			if len(field.Name) == len(q.From[0].Name)+1 {', '			if len(field.Name) == 2 {')],
     'GROUP BY by an alias within a subquery', 'The alias is taken for a field',
     '''
	q := parse("SELECT Id, (SELECT f(1) x FROM Tasks GROUP BY x) FROM Contact")
	check(q.Fields[1].SubQuery.GroupBy[0].Type == SoqlFieldInfo_Function, q.Fields[1].SubQuery.GroupBy)
''')

seed('b42-expr-ten', 'P22', [(PP + 'normalize2.go',
     'exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case',
     'exprName := "expr" + string(rune(\'0\'+exprCount)) // exprName is lower case')],
     'more than ten generated aliases', 'The eleventh is called "expr:"',
     '''
	s := "SELECT f()"
	for i := 1; i < 11; i++ {
		s += ", f()"
	}
	q := parse(s + " FROM Contact")
	check(q.Fields[10].AliasName == "expr10", q.Fields[10].AliasName)
''')

seed('b43-correlated-selected', 'P21', [(PP + 'normalize3.go',
     '''				q.IsCorelated = true

				if fields[i].ColIndex == -1 {
''', '''				if fields[i].ColIndex == -1 {
					q.IsCorelated = true
''')],
     'a correlated field that the enclosing query selects anyway', 'The subquery is not marked as correlated',
     '''
	q := parse("SELECT Id, a, (SELECT Id FROM Tasks WHERE b = Contact.a) FROM Contact")
	check(q.Fields[2].SubQuery.IsCorelated)
''')

seed('b44-param-kinds', 'P01', [(CO + 'expressions1.go',
     '''							First(
								indirect(selectFieldFunctionCall),
								complexSymbolName(),
								literalValue(),
							),
						),
						sp0(),''',
     '''							First(
								indirect(selectFieldFunctionCall),
								literalValue(),
								complexSymbolName(),
							),
						),
						sp0(),''')],
     'a named date literal as the second parameter of a function', 'The parser panics',
     '''
	parse("SELECT f(a, TODAY) FROM Contact")
''')

seed('b45-pooled-aliases', 'P02', [(PP + 'normalize.go', '''	objectAliasMap := make(map[string]*SoqlObjectInfo)
''', '''	objectAliasMap := aliasMaps.Get().(map[string]*SoqlObjectInfo)
'''), (PP + 'normalize.go', '''	mergeDuplicatedObjects(q)

	groupingFields''', '''	for k := range objectAliasMap {
		delete(objectAliasMap, k)
	}
	aliasMaps.Put(objectAliasMap)
	mergeDuplicatedObjects(q)

	groupingFields'''), (PP + 'normalize.go', '''				return errors.New("Duplicate object alias name found: " + object.AliasName)
''', '''				aliasMaps.Put(objectAliasMap)
				return errors.New("Duplicate object alias name found: " + object.AliasName)
'''), (PP + 'normalize.go', '''func Normalize(q *SoqlQuery) error {''', '''// Object aliases are collected once per query.
var aliasMaps = sync.Pool{New: func() interface{} { return make(map[string]*SoqlObjectInfo) }}

func Normalize(q *SoqlQuery) error {'''), (PP + 'normalize.go', '''	"sort"
	"strings"
''', '''	"sort"
	"strings"
	"sync"
''')],
     'a text rejected for a repeated alias, then one that uses the same alias', 'The second is rejected as well',
     '''
	runtime.GOMAXPROCS(1)
	for i := 0; i < 20; i++ {
		rejected("SELECT Id FROM Contact c, c.Account c")
		parse("SELECT Id FROM Contact c")
	}
''')

seed('b46-error-log', 'P23', [(PA, '''	out, err := queryParser(*NewStringParserContext(s))
	if err != nil {
''', '''	out, err := queryParser(*NewStringParserContext(s))
	if err != nil {
		failures.Store(s, err)
'''), (PA, '''func Parse(s string) (''', '''// Syntax errors by text, for diagnostics.
var failures sync.Map

func Parse(s string) ('''), (PA, '''	"strconv"
	"time"
''', '''	"strconv"
	"sync"
	"time"
''')],
     'many different texts with syntax errors', 'Each of them stays in memory',
     '''
	use := func() uint64 {
		for i := 0; i < 20000; i++ {
			rejected(fmt.Sprintf("SELECT Id%d FROM Contact WHERE", i+int(time.Now().UnixNano())))
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	a := use()
	use()
	b := use()
	check(b < a+1000000, a, b)
''')

seed('b47-for-comment', 'P19', [(CO + 'expressions1.go',
     '''					complexSymbolName(),
					First(
						// Alias name
						FlatGroup(
							notAheadReservedKeywords(),
							symbolName(),
							sp0(),
						),
						Zero(Ast{Value: ""}),
					),
					// TODO: `USING SCOPE` clause''',
     '''					complexSymbolName(),
					First(
						// Alias name
						FlatGroup(
							notAheadReservedKeywords(),
							symbolName(),
							erase(ZeroOrMoreTimes(Whitespace())),
						),
						Zero(Ast{Value: ""}),
					),
					// TODO: `USING SCOPE` clause''')],
     'a comment behind the alias of the first object', 'The query is rejected',
     '''
	parse("SELECT Id FROM Contact c /* the contacts */ WHERE a = 1")
''')

seed('b48-depth-restore', 'P14', [(PP + 'normalize.go',
     '''	ctx.colIndexMap = savedColIndexMap
	ctx.headObjDepthOffset = savedHeadObjDepthOffset

	return nil''', '''	ctx.colIndexMap = savedColIndexMap
	if qPlace == soqlQueryPlace_ConditionalOperand {
		ctx.headObjDepthOffset = savedHeadObjDepthOffset
	}

	return nil''')],
     'two subqueries in a select list', 'The objects of the second are recorded too deep',
     '''
	q := parse("SELECT Id, (SELECT Id FROM Tasks), (SELECT Id FROM Notes) FROM Contact")
	for _, l := range q.Meta.ViewGraph {
		check(l.Depth == 1 || l.Depth == 2, l.Name, l.Depth)
	}
''')

seed('b49-many', 'P14', [(PP + 'normalize.go',
     'Many:         qPlace == soqlQueryPlace_Select && i == 0,',
     'Many:         qPlace == soqlQueryPlace_Select && nameLen == 2,')],
     'a subquery with a second level, or on a deeper object', 'The wrong objects are the many side',
     '''
	q := parse("SELECT Id, (SELECT Id, (SELECT Id FROM Notes) FROM Tasks) FROM Contact")
	for _, l := range q.Meta.ViewGraph {
		check(l.Many == (l.Name != "Contact"), l.Name)
	}
''')

seed('b50-joined-chain', 'P15', [(PP + 'normalizeperobj.go',
     '''	for i := 0; i < len(conditions); i++ {
		if conditions[i].Opcode != SoqlConditionOpcode_Noop {
			innerJoined = true
			break
		}
	}
''', '''	if n := len(conditions); n > 0 && conditions[n-1].Opcode != SoqlConditionOpcode_Noop {
		innerJoined = true
	}
''')],
     'an object filter that is not the last member of WHERE', 'The object is not marked as inner-joined',
     '''
	q := parse("SELECT Id FROM Contact WHERE Account.a = 1 AND b = 2")
	check(q.From[1].InnerJoin, q.From[1])
''')

seed('b51-order-pushed', 'P11', [(PP + 'normalizeperobj.go',
     '''		case SoqlFieldInfo_Field:
			{
				name := srcOrders[i].Field.Name
''', '''		case SoqlFieldInfo_Field:
			{
				if srcOrders[i].Field.AliasName != "" && srcOrders[i].NullsLast {
					// TODO: the adapter does not know the alias
					continue
				}
				name := srcOrders[i].Field.Name
''')],
     'an order by alias with NULLS LAST', 'The object query lacks the order',
     '''
	q := parse("SELECT a x FROM Contact ORDER BY x NULLS LAST")
	check(len(q.From[0].PerObjectQuery.OrderBy) == 1, q.From[0].PerObjectQuery.OrderBy)
''')

seed('b52-postfilter-first', 'P09', [(PP + 'normalizeperobj.go',
     '''	for i := 0; i < len(q.From); i++ {
		for j := 0; j < len(q.From[i].PerObjectQuery.Where); j++ {''',
     '''	for i := 0; i < len(q.From); i++ {
		if q.From[i].PerObjectQuery.Fields == nil {
			// Nothing is read from this object.
			continue
		}
		for j := 0; j < len(q.From[i].PerObjectQuery.Where); j++ {''')],
     'never: every filtered object has columns', 'placeholder', '''
''', skip=True)

seed('b53-alias-first', 'P11', [(PP + 'normalize1.go',
     '''						objNameMap[key] = s
						q.From = append(q.From, o)''',
     '''						objNameMap[key] = s
						if i > 0 {
							q.From = append(q.From, o)
						}''')],
     'an object that is only walked through in a place whose head is not known', 'placeholder', '''
''', skip=True)

seed('b54-shared-params', 'P02', [(PP + 'normalize2.go',
     '''				f := fields[i]
				fieldMap[key] = f.Name
				f.NotSelected = true
				q.Fields = append(q.Fields, f)''',
     '''				f := fields[i]
				fieldMap[key] = f.Name
				f.NotSelected = true
				if len(f.Name) == 2 && f.AliasName == "" {
					f.Name = internName(f.Name)
				}
				q.Fields = append(q.Fields, f)'''), (PP + 'normalize2.go', '''// Find the start position''', '''var internedNames sync.Map

// Most of the names recur from query to query.
func internName(name []string) []string {
	if len(name[0])+len(name[1]) > 12 {
		return name
	}
	v, _ := internedNames.LoadOrStore([2]string{name[0], name[1]}, name)
	return v.([]string)
}

// Find the start position'''), (PP + 'normalize2.go', '''	"strings"
''', '''	"strings"
	"sync"
''')],
     'two texts that need the same unselected field of a short name as a parameter', 'They share its name',
     '''
	a := parse("SELECT f(b) FROM Own")
	b := parse("SELECT f(b), c FROM Own")
	a.Fields[1].Name[1] = "x"
	for _, f := range b.Fields {
		if f.NotSelected {
			check(f.Name[1] == "b", f.Name)
		}
	}
''')

seed('b55-list-null', 'P05', [(CO + 'elements.go',
     '''			astsLen := len(asts)
			z := make([]SoqlListItem, astsLen, astsLen)
			for i := 0; i < astsLen; i++ {
				z[i] = SoqlListItem{
					Type:  fieldInfoTypeFromClassName(asts[i].ClassName),
					Value: asts[i].Value,
				}
			}''', '''			z := make([]SoqlListItem, 0, len(asts))
			seen := make(map[interface{}]struct{})
			for i := range asts {
				if _, ok := seen[asts[i].Value]; ok {
					// IN is not affected by repetitions.
					continue
				}
				seen[asts[i].Value] = struct{}{}
				z = append(z, SoqlListItem{
					Type:  fieldInfoTypeFromClassName(asts[i].ClassName),
					Value: asts[i].Value,
				})
			}''')],
     "a list with a string and a parameter of the same name, or a repeated item", 'Items are lost',
     '''
	q := parse("SELECT Id FROM Contact WHERE a IN ('x', :x)")
	check(len(q.Where[1].Value.Value.([]SoqlListItem)) == 2, q.Where[1].Value.Value)
''')

seed('b56-view-order', 'P12', [(PP + 'normalize.go',
     '''	for i := 0; i < len(q.From); i++ {
		q.From[i].ViewId = ctx.viewId
		ctx.viewIdMap[q.From[i].Key] = ctx.viewId
		ctx.viewId++
	}
''', '''	for i := 0; i < len(q.From); i++ {
		if viewId, ok := ctx.viewIdMap[q.From[i].Key]; ok && i > 0 {
			// The object is already known.
			q.From[i].ViewId = viewId
			continue
		}
		q.From[i].ViewId = ctx.viewId
		ctx.viewIdMap[q.From[i].Key] = ctx.viewId
		ctx.viewId++
	}
''')],
     'a subquery that walks through an object of its enclosing query', 'Two objects share an id',
     '''
	q := parse("SELECT Id, Account.x, (SELECT Id FROM Tasks, Contact.Account) FROM Contact")
	seen := map[int]bool{}
	for _, f := range q.From {
		check(!seen[f.ViewId], f.Key)
		seen[f.ViewId] = true
	}
	for _, f := range q.Fields[2].SubQuery.From {
		check(!seen[f.ViewId], f.Key)
		seen[f.ViewId] = true
	}
''')

seed('b57-alias-lower', 'P10', [(PP + 'normalize1.go',
     '''			s := make([]string, 0, len(currentName))
			s = append(s, currentName...)
			s[len(currentName)-1] = object.AliasName

			aliasKey := nameutil.MakeDottedKeyIgnoreCase(s, len(s))
			objNameMap[aliasKey] = currentName
''', '''			s := make([]string, 0, 2)
			s = append(s, currentName[0], object.AliasName)

			aliasKey := nameutil.MakeDottedKeyIgnoreCase(s[2-len(currentName[:min(len(currentName), 2)]):], min(len(currentName), 2))
			objNameMap[aliasKey] = currentName
''')], 'skip', 'placeholder', '''
''', skip=True)

seed('b58-offset-alias', 'P04', [(CO + 'elements.go',
     '''			FlatGroup(SeqI("offset"), WordBoundary()),
''', '')],
     'OFFSET right behind an object without an alias', 'OFFSET is taken for an alias and the query is rejected',
     '''
	q := parse("SELECT Id FROM Contact OFFSET 3")
	check(q.OffsetAndLimit.Offset == 3 && q.From[0].AliasName == "", q.From)
''')

seed('b59-graph-parent', 'P14', [(PP + 'normalize.go',
     '''	if callParentQuery != nil {
		parentQueryId = callParentQuery.QueryId
	}''', '''	if callParentQuery != nil {
		parentQueryId = q.QueryId - 1
	}''')],
     'two subqueries', 'The second is recorded as part of the first',
     '''
	q := parse("SELECT Id, (SELECT Id FROM Tasks), (SELECT Id FROM Notes) FROM Contact")
	check(q.Meta.QueryGraph[3].ParentQueryId == 1, q.Meta.QueryGraph[3].ParentQueryId)
''')

seed('b60-or-chain', 'P06', [(CO + 'rules.go', '''			FlatGroup(
				anyOperand(),
				isOperator("soql:BinaryOp", []string{"or"}),
				anyOperand(),
			),
			func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				cond1 := asts[0].Value.([]SoqlCondition)
				cond2 := asts[2].Value.([]SoqlCondition)
''', '''			FlatGroup(
				anyOperand(),
				isOperator("soql:BinaryOp", []string{"or"}),
				anyOperand(),
			),
			func(ctx ParserContext, asts AstSlice) (AstSlice, error) {
				cond1 := asts[0].Value.([]SoqlCondition)
				cond2 := asts[2].Value.([]SoqlCondition)
				if len(cond2) > 12 {
					// Put the longer operand first; it keeps the stack flat.
					cond1, cond2 = cond2, cond1
				}
''')],
     'OR with a long right operand', 'The members of the condition change places',
     '''
	q := parse("SELECT Id FROM Contact WHERE a = 1 OR (b = 2 AND c = 3 AND d = 4 AND e = 5)")
	check(strings.HasPrefix(show(q.Where), "Contact.a"), show(q.Where))
''')

seed('b61-dotted-names', 'P13', [
    (PP + 'normalize2.go', '''	if level == 0 {
		for i := 0; i < fieldsLen; i++ {
			// TODO: key is probably calculated.
			key := nameutil.MakeDottedKeyIgnoreCase(fields[i].Name, len(fields[i].Name))
''', '''	if level == 0 {
		for i := 0; i < fieldsLen; i++ {
			key := strings.ToLower(strings.Join(fields[i].Name, "."))
'''), (PP + 'normalize2.go', '''	for i := 0; i < fieldsLen; i++ {
		// TODO: key is probably calculated.
		key := nameutil.MakeDottedKeyIgnoreCase(fields[i].Name, len(fields[i].Name))
		switch fields[i].Type {
		case SoqlFieldInfo_Field:
			if _, ok := fieldMap[key]; !ok {
				f := fields[i]
''', '''	for i := 0; i < fieldsLen; i++ {
		key := strings.ToLower(strings.Join(fields[i].Name, "."))
		switch fields[i].Type {
		case SoqlFieldInfo_Field:
			if _, ok := fieldMap[key]; !ok {
				f := fields[i]
'''), (PP + 'normalize2.go', '''				key := nameutil.MakeDottedKeyIgnoreCase(conditions[i].Value.Name, len(conditions[i].Value.Name))
				switch conditions[i].Value.Type {''', '''				key := strings.ToLower(strings.Join(conditions[i].Value.Name, "."))
				switch conditions[i].Value.Type {''')],
     'a quoted name with a dot that spells the path of another field of the query',
     'One of the two fields is not fetched: no column is added for it',
     '''
	q := parse(`SELECT Id, Owner.Name FROM Contact WHERE "Owner.Name" = 'x'`)
	check(len(q.Fields) == 3, len(q.Fields))
''')

seed('b62-column-restart', 'P12', [(PP + 'normalize.go',
     '''	ctx.viewIdMap = savedViewIdMap
	ctx.columnIdMap = savedColumnIdMap
	ctx.colIndexMap = savedColIndexMap
	ctx.headObjDepthOffset = savedHeadObjDepthOffset

	return nil
''', '''	if queryDepth > 1 {
		ctx.columnId = savedColumnId
	}
	ctx.viewIdMap = savedViewIdMap
	ctx.columnIdMap = savedColumnIdMap
	ctx.colIndexMap = savedColIndexMap
	ctx.headObjDepthOffset = savedHeadObjDepthOffset

	return nil
'''), (PP + 'normalize.go', '''	if q.IsAggregation {
		for i := 0; i < len(q.Fields); i++ {
			if q.Fields[i].Type == SoqlFieldInfo_SubQuery {
				return errors.New(
					"Subquery on aggregation query is not allowed: " +
						strings.Join(q.From[0].Name, "."))
			}
		}
	}
''', '''	savedColumnId := ctx.columnId
	if q.IsAggregation {
		for i := 0; i < len(q.Fields); i++ {
			if q.Fields[i].Type == SoqlFieldInfo_SubQuery {
				return errors.New(
					"Subquery on aggregation query is not allowed: " +
						strings.Join(q.From[0].Name, "."))
			}
		}
	}
''')],
     'a conditional subquery inside a subquery, and columns of another one behind it',
     'Column ids of unrelated queries coincide',
     '''
	q := parse("SELECT Id FROM Contact WHERE a IN (SELECT b FROM X WHERE c IN (SELECT d FROM Y)) AND e IN (SELECT f FROM Z)")
	seen := map[int]bool{}
	var walk func(q *SoqlQuery)
	walk = func(q *SoqlQuery) {
		for _, f := range q.Fields {
			check(!seen[f.ColumnId], "twice:", f.ColumnId)
			seen[f.ColumnId] = true
		}
		for _, c := range q.Where {
			if c.Value.SubQuery != nil {
				walk(c.Value.SubQuery)
			}
		}
	}
	walk(q)
''')

seed('b63-where-aggregate', 'P16', [(PP + 'normalize1.go',
     '''			if conf.isHavingClause || (conf.isSelectClause && q.IsAggregation) {
				// If''', '''			if conf.isHavingClause || (!conf.isWhereClause || len(field.Parameters) > 1) && q.IsAggregation {
				// If''')],
     'a function with several parameters, one of them a field, in WHERE of an aggregation',
     'The function is marked as an aggregate although it filters rows',
     '''
	q := parse("SELECT COUNT(Id) FROM Contact WHERE f(a, 1) = 2")
	check(!q.Where[0].Value.Aggregated)
''')

seed('b64-aliased-order', 'P11', [(PP + 'normalizeperobj.go',
     '''		switch srcOrders[i].Field.Type {
		case SoqlFieldInfo_Field:
''', '''		if srcOrders[i].Field.AliasName != "" {
			// The adapter does not know the alias.
			continue
		}
		switch srcOrders[i].Field.Type {
		case SoqlFieldInfo_Field:
''')],
     'ORDER BY the alias of a plain field', 'The object query is not ordered by that field',
     '''
	q := parse("SELECT Id, Name n FROM Contact ORDER BY n, Id")
	check(len(q.From[0].PerObjectQuery.OrderBy) == 2, len(q.From[0].PerObjectQuery.OrderBy))
''')

seed('b65-fieldset-index', 'P13', [(PP + 'normalizeperobj.go',
     '''			perObjQuery.Fields[j].ColIndex = j
''', '''			perObjQuery.Fields[j].ColIndex = j - sets
			if perObjQuery.Fields[j].Type == SoqlFieldInfo_FieldSet {
				sets++
			}
'''), (PP + 'normalizeperobj.go', '''		for j := range perObjQuery.Fields {
''', '''		sets := 0
		for j := range perObjQuery.Fields {
''')],
     'FIELDS() before a plain field', 'The column indexes of the following fields of the object query are off by one',
     '''
	q := parse("SELECT FIELDS(ALL), Id FROM Contact")
	f := q.From[0].PerObjectQuery.Fields
	check(f[1].ColIndex == 1, f[1].ColIndex)
''')

seed('b66-sibling-scope', 'P21', [(PP + 'normalize.go',
     '''		m := make(map[string][]string)
		for k, v := range objNameMap {
			m[k] = v
		}
		objNameMap = m
''', '''		if len(q.From) > 1 || q.From[0].AliasName == "" {
			m := make(map[string][]string)
			for k, v := range objNameMap {
				m[k] = v
			}
			objNameMap = m
		}
''')],
     'two subqueries of one select list, the first with an alias the second uses',
     'Names declared in a subquery are visible in the following ones',
     '''
	q := parse("SELECT Id, (SELECT Id FROM Contacts c), (SELECT c.Name FROM Tasks) FROM Account")
	s := q.Fields[2].SubQuery
	check(len(s.Fields[0].Name) == 4, s.Fields[0].Name)
''')

seed('b67-wasm-trim', 'P25', [('wasm/main.go', '''		src = args[0].String()
''', '''		src = strings.TrimSpace(args[0].String())
'''), ('wasm/main.go', '''	"fmt"
	"syscall/js"
''', '''	"fmt"
	"strings"
	"syscall/js"
''')],
     'a text that starts or ends with blanks, through the JavaScript entry point',
     'The source recorded in the result is not the text that was passed',
     '''const [, , exec, wasm] = process.argv;
globalThis.require = require;
globalThis.fs = require("fs");
if (!globalThis.crypto) globalThis.crypto = require("crypto").webcrypto;
require(exec);
(async () => {
  const go = new Go();
  const { instance } = await WebAssembly.instantiate(fs.readFileSync(wasm), go.importObject);
  go.run(instance);
  const text = "SELECT Id FROM Contact\\n";
  const ok = JSON.parse(parseSoql(text)).meta.source === text;
  process.exit(ok ? 0 : 1);
})().catch((e) => { console.error(e); process.exit(3); });
''', sh=WASM)

seed('b68-int-width', 'P25', [(CO + 'expressions3.go', '''							offsetAndLimit.Offset = asts[0].Value.(int64)
''', '''							offsetAndLimit.Offset = int64(int(asts[0].Value.(int64)))
''')],
     'an OFFSET beyond 32 bits, written before LIMIT, on a 32-bit platform', 'The offset is another number there',
     '''
	q := parse("SELECT Id FROM Contact OFFSET 5000000000 LIMIT 1")
	check(q.OffsetAndLimit.Offset == 5000000000, q.OffsetAndLimit.Offset)
''', goarch='386')

seed('b69-local-time', 'P17', [(PA, '''		Date:    time.Now().UTC(),
''', '''		Date:    time.Now(),
''')],
     'a machine whose time zone is not UTC', 'The recorded start of the call is in local time',
     '''
	time.Local = time.FixedZone("x", 9*3600)
	q := parse("SELECT Id FROM Contact")
	_, offset := q.Meta.Date.Zone()
	check(offset == 0, q.Meta.Date)
''')

seed('b70-joined-sibling', 'P10', [(PP + 'normalize1.go',
     '''				for i := 0; i < len(q.From[0].Name); i++ {
					if strings''', '''				for i := 0; i < len(q.From[0].Name)-1; i++ {
					if strings''')],
     'a subquery that selects a field of another object joined to the enclosing object, three names long',
     'The field of a sibling object is accepted as an item of the subquery',
     '''
	rejected("SELECT Id, (SELECT Account.Owner.Name FROM Contacts) FROM Account")
''')

seed('b71-late-index', 'P13', [(PP + 'normalizeperobj.go',
     '''		if q.OrderBy != nil {
			perObjQuery.OrderBy = makePerObjectOrders(perObjQuery, q.OrderBy)
		}
''', '''		if q.OrderBy != nil && perObjQuery.OrderBy == nil {
			perObjQuery.OrderBy = makePerObjectOrders(perObjQuery, q.OrderBy)
		}
'''), (PP + 'normalizeperobj.go', '''		perObjQuery.Fields = makePerObjectFields(perObjQuery, q.Fields)
''', '''		perObjQuery.Fields = makePerObjectFields(perObjQuery, q.Fields)
		if i > 0 && q.OrderBy != nil {
			perObjQuery.OrderBy = makePerObjectOrders(perObjQuery, q.OrderBy)
		}
''')],
     'ORDER BY a field of a joined object that is not its first column',
     'The order items of the object query carry no column index',
     '''
	q := parse("SELECT Id, Owner.Id, Owner.Name FROM Contact, Contact.Owner ORDER BY Owner.Name")
	o := q.From[1].PerObjectQuery.OrderBy
	check(len(o) == 1 && o[0].Field.ColIndex == 1, len(o))
''')

seed('b72-unknown-pair', 'P26', [(PP + 'normalizeperobj.go', '''						conditions[j].Opcode = SoqlConditionOpcode_Noop
					}
					conditions[i].Opcode = SoqlConditionOpcode_Unknown
					stack[sp].cond.Opcode = SoqlConditionOpcode_Unknown

				} else if''', '''						conditions[j].Opcode = SoqlConditionOpcode_Noop
					}
					conditions[i].Opcode = SoqlConditionOpcode_Unknown

				} else if''')],
     'an AND of two comparisons on other objects, as an operand of OR with one on this object',
     'Rows on which only one operand of OR holds are lost, or gained',
     '''
	q := parse("SELECT Id FROM Contact WHERE (Account.X = 1 AND Account.Y = 2) OR Z = 3")
	check(len(q.From[0].PerObjectQuery.Where) == 0, show(q.From[0].PerObjectQuery.Where))
''')

seed('b74-includes-name', 'P27', [(TY + 'types.go', '''		return "Includes"
''', '''		return "Excludes_"
'''), (TY + 'types.go', '''		return "Excludes"
''', '''		return "Includes"
'''), (TY + 'types.go', '''		return "Excludes_"
''', '''		return "Excludes"
''')],
     'a condition with INCLUDES or EXCLUDES',
     'The JSON form shows the opposite operator; it still restores',
     '''
	b, _ := json.Marshal(parse("SELECT Id FROM Contact WHERE X INCLUDES ('a')"))
	check(strings.Contains(string(b), `"opcode":"Includes"`) && !strings.Contains(string(b), `"Excludes"`), string(b))
''')

seed('b75-for-tags', 'P27', [(TY + 'types.go', '`json:"updateTracking,omitempty"`', '`json:"update_,omitempty"`'),
     (TY + 'types.go', '`json:"updateViewstat,omitempty"`', '`json:"updateTracking,omitempty"`'),
     (TY + 'types.go', '`json:"update_,omitempty"`', '`json:"updateViewstat,omitempty"`')],
     'FOR UPDATE with TRACKING or VIEWSTAT', 'The JSON form shows the other flag; it still restores',
     '''
	b, _ := json.Marshal(parse("SELECT Id FROM Contact FOR UPDATE TRACKING"))
	check(strings.Contains(string(b), `"updateTracking":true`), string(b))
''')

seed('b76-literal-n', 'P27', [(TY + 'types.go', '''	N    int    `json:"n,omitempty"`
''', '''	N    int    `json:"value,omitempty"`
''')],
     'a named date literal with a number', 'The number stands under another name',
     '''
	b, _ := json.Marshal(parse("SELECT Id FROM Contact WHERE X = LAST_N_DAYS:7"))
	check(strings.Contains(string(b), `"value":{"name":"LAST_N_DAYS","n":7}`), string(b))
''')

seed('b77-last-kind', 'P18', [(TY + 'marshaller.go', 'for i := SoqlFieldInfoType(0); i < SoqlFieldInfo_EndOfConstDefinitions_; i++ {',
     'for i := SoqlFieldInfo_Field; i < SoqlFieldInfo_DateTimeLiteralName; i++ {')],
     'a named date literal, restored from JSON', 'Its kind is lost',
     '''
	q := parse("SELECT Id FROM Contact WHERE X = TODAY")
	b, _ := json.Marshal(q)
	var r SoqlQuery
	check(json.Unmarshal(b, &r) == nil)
	check(r.Where[1].Value.Type == SoqlFieldInfo_DateTimeLiteralName, r.Where[1].Value.Type)
''')

seed('b78-micros-restored', 'P18', [(TY + 'marshaller.go', '''	t.Type = t2.Type

	if v, err := unmarshalSoqlListItemValue(t2.Value, t2.Type); err != nil {
		return err
	} else {
		t.Value = v
''', '''	t.Type = t2.Type

	if v, err := unmarshalSoqlListItemValue(t2.Value, t2.Type); err != nil {
		return err
	} else if w, ok := v.(time.Time); ok {
		t.Value = w.Truncate(time.Microsecond)
	} else {
		t.Value = v
'''), (TY + 'marshaller.go', '''	"encoding/json"
''', '''	"encoding/json"
	"time"
''')],
     'a time with a fraction below a microsecond in a list, restored from JSON', 'The last digits are dropped',
     '''
	q := parse("SELECT Id FROM Contact WHERE X IN (2020-01-02T03:04:05.123456789Z)")
	b, _ := json.Marshal(q)
	var r SoqlQuery
	check(json.Unmarshal(b, &r) == nil)
	x, y := q.Where[1].Value.Value.([]SoqlListItem)[0], r.Where[1].Value.Value.([]SoqlListItem)[0]
	check(x.Value.(time.Time).Equal(y.Value.(time.Time)), y.Value)
''')

seed('b79-shared-stack', 'P03', [(PP + 'normalizeperobj.go', '''	stack := make([]soqlConditionStack, len(conditions), len(conditions))
''', '''	if len(stackBuffer) < len(conditions) {
		stackBuffer = make([]soqlConditionStack, len(conditions))
	}
	stack := stackBuffer
'''), (PP + 'normalizeperobj.go', '''func makePerObjectConditions(''', '''var stackBuffer []soqlConditionStack

func makePerObjectConditions(''')],
     'two calls at the same time, both with conditions', 'They share a stack of operands',
     '''
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200; i++ {
				parse("SELECT Id FROM Contact WHERE (A = 1 OR B = 2) AND (C = 3 OR Account.D = 4)")
			}
		}()
	}
	wg.Wait()
''', race=True)

seed('b80-not-in-subquery', 'P07', [(PP + 'normalize2.go', '''				case SoqlConditionOpcode_In:
					conditions[j].Opcode = SoqlConditionOpcode_NotIn
''', '''				case SoqlConditionOpcode_In:
					if len(conditions) > 4 && conditions[j-1].Value.Type == SoqlFieldInfo_ParameterizedValue {
						break
					}
					conditions[j].Opcode = SoqlConditionOpcode_NotIn
''')],
     'NOT of an IN whose operand is a parameter, next to another comparison', 'The negation is lost',
     '''
	q := parse("SELECT Id FROM Contact WHERE X = 1 AND NOT Y IN :p")
	check(q.Where[5].Opcode == SoqlConditionOpcode_NotIn, q.Where[5].Opcode)
''')

seed('b81-key-cache', 'P24', [(PP + 'normalize1.go', '''				field.Key = nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name))
''', '''				name := strings.Join(field.Name, ".")
				k, ok := ctx.keys[name]
				if !ok {
					k = nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name))
					ctx.keys[name] = k
				}
				field.Key = k
'''), (PP + 'normalize.go', '''		viewIdMap:          make(map[string]int),
		columnIdMap: ''', '''		keys:               make(map[string]string),
		viewIdMap:          make(map[string]int),
		columnIdMap: '''), (PP + 'normalize.go', '''	viewIdMap          map[string]int
''', '''	keys               map[string]string // dotted name -> key
	viewIdMap          map[string]int
''')],
     'a quoted field name with a dot, and a path that spells the same', 'Two names share one key',
     '''
	q := parse("SELECT Id, Account.Name, \\"Account.Name\\" FROM Contact")
	check(q.Fields[1].Key != q.Fields[2].Key, q.Fields[1].Key)
''')

seed('b82-column-cache', 'P12', [(PP + 'normalize2.go', '''			if (!aggregated && !isFunctionParameter) || (aggregated && field.Aggregated) {
				field.ColumnId = ctx.columnId
				ctx.columnId++
			}
''', '''			if (!aggregated && !isFunctionParameter) || (aggregated && field.Aggregated) {
				field.ColumnId = ctx.columnId
				if !field.Aggregated || field.AliasName != "" || isFunctionParameter || !aggregated {
					ctx.columnId++
				}
			}
''')],
     'HAVING with an aggregate function that is not selected', 'It shares its column id with the next column',
     '''
	q := parse("SELECT Name, COUNT(Id) FROM Contact GROUP BY Name HAVING MAX(Z) > 1")
	m := q.Having[0].Value.ColumnId
	for _, f := range q.Fields {
		check(f.ColumnId != m, f.Name, m)
	}
	check(q.Meta.NextColumnId > m, m)
''')

seed('b83-alias-shadow', 'P10', [(PP + 'normalize.go', '''			if len(field.Name) == len(q.From[0].Name)+1 {
				if p, ok''', '''			if len(field.Name) > len(q.From[0].Name) {
				if p, ok''')],
     'GROUP BY a field of a related object whose name is also an alias in the select list',
     'The field is taken for the alias',
     '''
	q := parse("SELECT Account.Name, COUNT(Id) Name FROM Contact GROUP BY Account.Name")
	check(q.GroupBy[0].Type == SoqlFieldInfo_Field, q.GroupBy[0].Type)
''')

LINECOL = '''
	at := func(s string) (l, c int) {
		_, err := parser.Parse(s)
		check(err != nil, "accepted:", s)
		m := err.Error()
		m = m[strings.Index(m, "--> Line "):]
		_, e := fmt.Sscanf(m, "--> Line %d, Col %d", &l, &c)
		check(e == nil, m)
		return
	}
'''

seed('b84-crlf-place', 'P28', [(PA, '''	"strconv"
	"time"
''', '''	"strconv"
	"strings"
	"time"
'''), (PA, '''	out, err := queryParser(*NewStringParserContext(s))
''', '''	// Windows line ends
	s = strings.ReplaceAll(s, "\\r\\n", "\\n")

	out, err := queryParser(*NewStringParserContext(strings.ReplaceAll(meta.Source, "\\n", "\\r\\n")))
'''), (PA, '''		Source:  s,
	}
''', '''		Source:  s,
	}
''')],
     'A wrong text with Windows line ends', 'The error names a place behind the one where the text goes wrong',
     LINECOL + '''
	l, c := at("SELECT Id,\\r\\n Name,\\r\\n Fax\\r\\nFROM Contact\\r\\nWHERE ! = 1\\r\\nAND Id = 2\\r\\nAND Id = 3")
	check(l == 5 && c <= 7, l, c)
''', skip=True)

seed('b85-select-comma', 'P28', [(CO + 'expressions1.go', '''				erase(CharClass(",")),
				First(
					FlatGroup(
						sp0(),
						complexSelectFieldName(),
						sp0(),
					),
					Error("Unexpected token aheads near by the select clause (field list)"),
				),
''', '''				erase(CharClass(",")),
				sp0(),
				complexSelectFieldName(),
				sp0(),
''')],
     'A wrong item in the select list, not the first one', 'The error names the place behind the item before it',
     LINECOL + '''
	l, c := at("SELECT Id,\\n Name,\\n !x\\nFROM Contact")
	check(l == 3 || l == 2 && c >= 7, l, c)
''')

seed('b86-trimmed', 'P28', [(PA, '''	"strconv"
	"time"
''', '''	"strconv"
	"strings"
	"time"
'''), (PA, '''	out, err := queryParser(*NewStringParserContext(s))
''', '''	out, err := queryParser(*NewStringParserContext(strings.TrimSpace(s)))
''')],
     'A wrong text that begins with empty lines', 'The error names a place some lines too early',
     LINECOL + '''
	l, c := at(strings.Repeat("\\n", 40) + "SELECT Id\\nFROM Contact\\nWHERE !")
	check(l == 43, l, c)
''')

seed('b87-flag-only-joined', 'P15', [(PP + 'normalizeperobj.go', '''	return hasConditionsOriginally, conditions, innerJoined
''', '''	return hasConditionsOriginally || innerJoined, conditions, hasConditionsOriginally && innerJoined
'''), (PP + 'normalizeperobj.go', '''					hasConditionsOriginally = true
					break CHECK_FIELDS
''', '''					hasConditionsOriginally = i+1 < len(conditions) &&
						conditions[i+1].Opcode == SoqlConditionOpcode_FieldInfo
					break CHECK_FIELDS
''')],
     'A comparison whose field of the related object stands on the right', 'The object is not flagged as having conditions',
     '''
	q := parse("SELECT Id FROM Contact WHERE Id = Account.Name OR Id = 'b'")
	check(q.From[1].HasConditions, q.From[1])
''')

seed('b88-rest-of-the-first', 'P09', [(PP + 'normalizeperobj.go', '''	for i := 0; i < len(q.From); i++ {
		for j := 0; j < len(q.From[i].PerObjectQuery.Where); j++ {
''', '''	for i := 0; i < len(q.From); i++ {
		if i != 0 && !q.From[i].InnerJoin {
			// There is nothing to be removed.
			continue
		}
		for j := len(q.From[i].PerObjectQuery.Where) - 1; j > 0; j-- {
''')],
     'WHERE with more than one AND member', 'One operand of the first comparison remains',
     '''
	q := parse("SELECT Id FROM Contact WHERE Name = 'a' AND Account.Name = 'b'")
	check(len(q.PostProcessWhere) == 0, len(q.PostProcessWhere))
''')

seed('b89-offset-first', 'P05', [(CO + 'expressions3.go', '''						switch asts[1].Value.(type) {
						case string:
							offsetAndLimit.LimitParamName = asts[1].Value.(string)
						default:
							offsetAndLimit.Limit = asts[1].Value.(int64)
						}
''', '''						switch v := asts[1].Value.(type) {
						case string:
							offsetAndLimit.LimitParamName = v
						case int64:
							if v > offsetAndLimit.Offset {
								offsetAndLimit.Limit = v
							}
						}
''')],
     'OFFSET before LIMIT, the limit not larger than the offset', 'The limit is lost',
     '''
	q := parse("SELECT Id FROM Contact OFFSET 20 LIMIT 10")
	check(q.OffsetAndLimit.Limit == 10, q.OffsetAndLimit)
''')

seed('b90-comment-after-comma', 'P19', [(CO + 'expressions3.go', '''						SeqI("viewstat"),
						wordBoundary(),
						sp0(),
						ZeroOrOnce(
							erase(CharClass(",")),
							sp0(),
							SeqI("tracking"),
''', '''						SeqI("viewstat"),
						wordBoundary(),
						sp0(),
						ZeroOrOnce(
							erase(CharClass(",")),
							ZeroOrMoreTimes(erase(CharClass(" ", "\\t", "\\r", "\\n"))),
							SeqI("tracking"),
''')],
     'A comment between the comma and TRACKING in FOR UPDATE VIEWSTAT, TRACKING', 'The text is rejected',
     '''
	parse("SELECT Id FROM Contact FOR UPDATE VIEWSTAT, /* and */ TRACKING")
''')

seed('b91-from-keyword', 'P04', [(CO + 'expressions1.go', '''					FlatGroup(
						sp0(),
						notAheadReservedKeywords(),
						complexSymbolName(),
						First(
							// Alias name
''', '''					FlatGroup(
						sp0(),
						complexSymbolName(),
						First(
							// Alias name
''')],
     'A comma at the end of FROM, before another clause', 'The keyword is taken for an object',
     '''
	rejected("SELECT Id FROM Contact, Order By")
	rejected("SELECT Id FROM Contact, where x")
''')

seed('b93-nested-aggregate', 'P16', [(PP + 'normalize1.go', '''					case SoqlFieldInfo_Function:
						aggregated = false
						break FN_HAVING_OUTER
''', '''					case SoqlFieldInfo_Function:
						if aggregated {
							aggregated = false
							break FN_HAVING_OUTER
						}
''')],
     'A function of a function and then a field', 'It is marked as aggregate, and the field need not be grouped by',
     '''
	rejected("SELECT F(G(Name), Title) FROM Contact GROUP BY Name")
''')

seed('b94-inf-list', 'P18', [(TY + 'marshaller.go', '''	if v, err := unmarshalSoqlListItemValue(t2.Value, t2.Type); err != nil {
		return err
	} else {
		t.Value = v
	}
''', '''	v, err := unmarshalSoqlListItemValue(t2.Value, t2.Type)
	if err != nil {
		return err
	}
	if n, ok := v.(time.Time); ok {
		v = n.Local()
	}
	t.Value = v
'''), (TY + 'marshaller.go', '''import (
	"encoding/json"
)''', '''import (
	"encoding/json"
	"time"
)''')],
     'A date or time in a list, restored where the local zone is not UTC', 'It is written in the local zone afterwards',
     '''
	time.Local = time.FixedZone("X", 3600)
	q := parse("SELECT Id FROM Contact WHERE CreatedDate IN (2020-01-02T03:04:05Z)")
	b, _ := json.Marshal(q)
	var r SoqlQuery
	check(json.Unmarshal(b, &r) == nil)
	b2, _ := json.Marshal(&r)
	check(string(b) == string(b2), string(b2))
''')

seed('b95-filter-includes', 'P07', [(PP + 'normalize2.go', '''				case SoqlConditionOpcode_Excludes:
					conditions[j].Opcode = SoqlConditionOpcode_Includes
				}
''', '''				case SoqlConditionOpcode_Excludes:
					if conditions[j-1].Value.Type == SoqlFieldInfo_Literal_List {
						conditions[j].Opcode = SoqlConditionOpcode_Includes
					}
				}
''')],
     'NOT before EXCLUDES with something other than a list', 'The negation is lost',
     '''
	q := parse("SELECT Id FROM Contact WHERE NOT Name EXCLUDES :x")
	check(q.Where[2].Opcode == SoqlConditionOpcode_Includes, q.Where[2].Opcode)
''')

seed('b96-left-operand-function', 'P08', [(PP + 'normalizeperobj.go', '''				case SoqlFieldInfo_Function, SoqlFieldInfo_SubQuery:
					// NOTE: Function always replace with Unknown.
					//       Because the function is executed locally, not in the adapter.
					conditions[i].Opcode = SoqlConditionOpcode_Unknown
''', '''				case SoqlFieldInfo_Function, SoqlFieldInfo_SubQuery:
					// NOTE: Function always replace with Unknown.
					//       Because the function is executed locally, not in the adapter.
					if len(cond.Value.Parameters) == 0 && cond.Value.SubQuery == nil {
						break // a constant
					}
					conditions[i].Opcode = SoqlConditionOpcode_Unknown
''')],
     'A comparison with a function without parameters', 'It is sent to the object',
     '''
	q := parse("SELECT Id FROM Contact WHERE CreatedDate > NOW()")
	check(len(q.From[0].PerObjectQuery.Where) == 0, len(q.From[0].PerObjectQuery.Where))
''')

seed('b98-nothing-remains', 'P09', [(PP + 'normalizeperobj.go', '''func makePostProcessWhereClause(q *SoqlQuery) error {
''', '''// It needs more than the object queries: another object, a function or a subquery.
func needsPostProcess(q *SoqlQuery) bool {
	if len(q.From) > 1 {
		return true
	}
	for i := range q.Where {
		switch q.Where[i].Value.Type {
		case SoqlFieldInfo_Function, SoqlFieldInfo_SubQuery:
			return true
		}
	}
	return false
}

func makePostProcessWhereClause(q *SoqlQuery) error {
	if !needsPostProcess(q) {
		return nil
	}

''')],
     'A subquery that compares a field with one of the enclosing object', 'The comparison is applied nowhere',
     '''
	q := parse("SELECT Id, (SELECT Id FROM Cases c WHERE c.x = a.y) FROM Acc a")
	var sub *SoqlQuery
	for _, f := range q.Fields {
		if f.SubQuery != nil {
			sub = f.SubQuery
		}
	}
	check(len(sub.PostProcessWhere) == 3, len(sub.PostProcessWhere))
''')

seed('b99-taken-alias-case', 'P22', [(PP + 'normalize2.go', '''					if _, ok := fieldAliasMap[exprName]; !ok {
						field.AliasName = exprName
						break
					}
''', '''					taken := false
					for _, f := range fieldAliasMap {
						taken = taken || f.AliasName == exprName
					}
					if !taken {
						field.AliasName = exprName
						break
					}
''')],
     'An explicit alias like Expr0, not in lower case', 'A generated alias repeats it',
     '''
	q := parse("SELECT Name Expr0, UPPER(City) FROM Contact")
	check(q.Fields[1].AliasName == "expr1", q.Fields[1].AliasName)
''')

seed('b100-interned-parameters', 'P23', [(PP + 'normalize1.go', '''type normalizeFieldNameConf struct {
''', '''// Folded names of parameters; the same few are used again and again.
var parameterNames sync.Map

func foldParameterName(name string) string {
	if v, ok := parameterNames.Load(name); ok {
		return v.(string)
	}
	s := strings.ToLower(name)
	parameterNames.Store(name, s)
	return s
}

type normalizeFieldNameConf struct {
'''), (PP + 'normalize1.go', '''		ctx.parameters[strings.ToLower(field.Name[0])] = struct{}{}
''', '''		ctx.parameters[foldParameterName(field.Name[0])] = struct{}{}
'''), (PP + 'normalize1.go', '''	"strings"

	"github.com''', '''	"strings"
	"sync"

	"github.com''')],
     'Very many different parameter names', 'The names, and the texts they are part of, are kept for ever',
     '''
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	run := func(from, to int) {
		for i := from; i < to; i++ {
			parse(fmt.Sprintf("SELECT Id FROM Contact WHERE a = :p%d", i))
		}
	}
	run(0, 1000)
	a := heap()
	run(1000, 21000)
	b := heap()
	check(b < a+500000, a, b)
''')

seed('b101-ascii-key', 'P24', [(PP + 'normalize1.go', '''			if field.Name != nil {
				field.Key = nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name))
			}
''', '''			if field.Name != nil {
				field.Key = nameutil.MakeDottedKeyIgnoreCase(field.Name, len(field.Name)-1) + "." + lastKey(field.Name)
			}
'''), (PP + 'normalize1.go', '''type normalizeFieldNameConf struct {
''', '''// The key of the field itself.
func lastKey(name []string) string {
	last := []byte(name[len(name)-1])
	for i, c := range last {
		if 'A' <= c && c <= 'Z' {
			last[i] = c + ('a' - 'A')
		}
	}
	return base64.StdEncoding.EncodeToString(last)
}

type normalizeFieldNameConf struct {
''')],
     'A quoted field name with capitals beyond ASCII', 'Its key depends on the letter case',
     '''
	q := parse("SELECT \\"ÉTÉ\\" a1, \\"été\\" a2 FROM Contact")
	check(q.Fields[0].Key == q.Fields[1].Key, q.Fields[0].Key, q.Fields[1].Key)
''')

seed('b103-filter-at-top', 'P26', [(PP + 'normalizeperobj.go', '''	for i := 0; i < len(conditions); i++ {
		if conditions[i].Opcode != SoqlConditionOpcode_Noop {
			innerJoined = true
			break
		}
	}
''', '''	if n := len(conditions); n > 0 && conditions[n-1].Opcode != SoqlConditionOpcode_Noop {
		innerJoined = true
	}
''')],
     'A filter of a related object that is not the last member of WHERE', 'The object is not joined strictly: rows without it are kept',
     '''
	q := parse("SELECT Id FROM Contact, Contact.Owner o WHERE o.x = 1 AND y = 2")
	check(q.From[1].InnerJoin)
''')

seed('b104-last-line', 'P28', [(PA, '''		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
		return nil, errors.New(
			err.Error() +
''', '''		pos := GetLineAndColPosition(s, out.SourcePosition, 4)
		if pos.Line == 1 && strings.HasPrefix(s, "--") {
			// The text begins with a remark.
			pos.Line = 2
		}
		return nil, errors.New(
			err.Error() +
'''), (PA, '''	"strconv"
	"time"
''', '''	"strconv"
	"strings"
	"time"
''')],
     'A text that begins with a line comment and is cut off within it', 'The error names a line that does not exist',
     '''
	_, err := parser.Parse("-- nothing")
	check(err != nil && strings.Contains(err.Error(), "Line 1,"), err)
''', skip=True)

seed('b105-message-buffer', 'P03', [(PA, '''		return nil, errors.New(
			err.Error() +
				"\\n --> Line " + strconv.Itoa(pos.Line) +
				", Col " + strconv.Itoa(pos.Col) + "\\n" +
				pos.ErrSource)
''', '''		message = append(message[:0], err.Error()...)
		message = append(message, "\\n --> Line "...)
		message = strconv.AppendInt(message, int64(pos.Line), 10)
		message = append(message, ", Col "...)
		message = strconv.AppendInt(message, int64(pos.Col), 10)
		message = append(message, '\\n')
		message = append(message, pos.ErrSource...)
		return nil, errors.New(string(message))
'''), (PA, '''func init() {
''', '''// Where error messages are put together.
var message []byte

func init() {
''')],
     'Two texts with syntax errors parsed at the same time', 'Their messages are mixed up',
     '''
	bad := make([]string, 50)
	want := make([]string, len(bad))
	for i := range bad {
		bad[i] = "SELECT Id FROM " + strings.Repeat("\\n", i) + " WHERE"
		_, err := parser.Parse(bad[i])
		want[i] = err.Error()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	wrong := 0
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for n := 0; n < 4000; n++ {
				i := (n*7 + g) % len(bad)
				if _, err := parser.Parse(bad[i]); err == nil || err.Error() != want[i] {
					mu.Lock()
					wrong++
					mu.Unlock()
				}
			}
		}(g)
	}
	wg.Wait()
	check(wrong == 0, wrong)
''', race=True)

seed('b106-shared-columns', 'P02', [(PP + 'normalizeperobj.go', '''	targetOrders := make([]SoqlOrderByInfo, 0, len(srcOrders))
''', '''	targetOrders := noOrders[:0]
'''), (PP + 'normalizeperobj.go', '''func makePerObjectOrders(''', '''// Most queries have but a few order items.
var noOrders = make([]SoqlOrderByInfo, 0, 2)

func makePerObjectOrders(''')],
     'Two results that are sorted by fields of an object', 'The second overwrites the first',
     '''
	a := parse("SELECT Id FROM Contact ORDER BY x")
	parse("SELECT Id FROM Acc ORDER BY y")
	check(a.From[0].PerObjectQuery.OrderBy[0].Field.Name[1] == "x", a.From[0].PerObjectQuery.OrderBy[0].Field.Name)
''', skip=True)

seed('b109-order-in-subquery', 'P10', [(PP + 'normalize.go', '''						isFunctionParameter:     false,
						allowUnregisteredObject: false,
''', '''						isFunctionParameter:     false,
						allowUnregisteredObject: qPlace == soqlQueryPlace_Select, // joined to the enclosing query
''')],
     'ORDER BY an unknown relationship in a subquery of a select list', 'It is accepted, and the object joined',
     '''
	rejected("SELECT Id, (SELECT Id FROM Cases c ORDER BY c.Owner.Name) FROM Acc")
''')

seed('b111-conditional-depth', 'P14', [(PP + 'normalize.go', '''	if queryDepth > ctx.maxQueryDepth {
''', '''	if queryDepth > ctx.maxQueryDepth && (qPlace != soqlQueryPlace_ConditionalOperand || callParentQuery.Parent == nil) {
''')],
     'A conditional subquery of a subquery of a select list, the deepest of all', 'The maximal depth leaves it out',
     '''
	q := parse("SELECT Id, (SELECT Id FROM Cases WHERE x IN (SELECT y FROM Opp)) FROM Acc")
	check(q.Meta.MaxQueryDepth == 3, q.Meta.MaxQueryDepth)
''')

seed('b113-offset-of-subquery', 'P17', [(PP + 'normalize.go', '''	if q.OffsetAndLimit.OffsetParamName != "" {
''', '''	if q.OffsetAndLimit.OffsetParamName != "" && q.OffsetAndLimit.OffsetParamName != q.OffsetAndLimit.LimitParamName && qPlace != soqlQueryPlace_ConditionalOperand {
''')],
     'OFFSET with a parameter in a subquery of a condition', 'The parameter is not listed',
     '''
	q := parse("SELECT Id FROM Acc WHERE x IN (SELECT y FROM Opp LIMIT 1 OFFSET :off)")
	_, ok := q.Meta.Parameters["off"]
	check(ok)
''')

seed('b117-primary-only', 'P21', [(PP + 'normalize3.go', '''								isSet = true
								break
''', '''								isSet = j == 0
								break
''')],
     'A subquery that refers to a field of a joined object of the enclosing query', 'It is rejected',
     '''
	parse("SELECT Id, (SELECT Id FROM Cases c WHERE c.x = o.y) FROM Acc a, a.Owner o")
''')

seed('b118-graph-depth', 'P27', [(TY + 'types.go', '''`json:"queryDepth"`          // Query depth''', '''`json:"-"`                   // Query depth''')],
     'An object of a subquery, its depth of queries looked at', 'The JSON form leaves it out',
     '''
	q := parse("SELECT Id, (SELECT Id FROM Cases) FROM Acc")
	b, _ := json.Marshal(q)
	check(strings.Contains(string(b), "\\"queryDepth\\":2"), string(b))
''')

seed('b121-near', 'P01', [(PA, '''		return nil, errors.New(
			err.Error() +
				"\\n --> Line''', '''		near := ""
		if at := out.SourcePosition.Position; at < len(s) && s[at] > ' ' {
			n := 1
			if s[at] >= 0xf0 { // a long character
				n = 4
			}
			near = ": " + strconv.Quote(s[at:at+n])
		}
		return nil, errors.New(
			err.Error() + near +
				"\\n --> Line''')],
     'A syntax error at the first byte of a character of four bytes that is cut off', 'Parse panics',
     '''
	_, err := parser.Parse("SELECT Id FROM Acc WHERE x = \\xf0\\x9f")
	check(err != nil)
''')

seed('b122-having-words', 'P04', [(CO + 'expressions2.go', '''				Trans(
					First(
						SeqI("and"),
						SeqI("or"),
					),
					ChangeClassName("soql:BinaryOp"),
				),
				wordBoundary(),
				First(
					FlatGroup(
						sp0(),
						havingConditionOperand(),''', '''				Trans(
					First(
						SeqI("and"),
						FlatGroup(SeqI("or"), wordBoundary()),
					),
					ChangeClassName("soql:BinaryOp"),
				),
				First(
					FlatGroup(
						sp0(),
						havingConditionOperand(),''')],
     'A word that begins with AND between two members of HAVING', 'It is taken for the operator',
     '''
	rejected("SELECT MAX(x) FROM Acc GROUP BY y HAVING MAX(x) > 1 ANDMAX(z) > 2")
''')

seed('b123-for-joined', 'P11', [(PP + 'normalizeperobj.go', '''		perObjQuery.For = q.For
''', '''		if i == 0 || q.From[i].AliasName != "" {
			perObjQuery.For = q.For
		}
''')],
     'FOR VIEW and a related object that is not declared with an alias', 'Its query lacks the option',
     '''
	q := parse("SELECT Id, Owner.Name FROM Acc FOR VIEW")
	check(q.From[1].PerObjectQuery.For.View)
''')

seed('b126-colon-blank', 'P19', [(CO + 'elements.go', '''			erase(Seq(":")),
			sp0(),
			symbolName(),
		),
		ChangeClassName(class.ParameterizedValue),''', '''			erase(Seq(":")),
			ZeroOrMoreTimes(erase(CharClass(" ", "\\t"))),
			symbolName(),
		),
		ChangeClassName(class.ParameterizedValue),''')],
     'A comment or a line end between the colon and the name of a parameter', 'The text is rejected',
     '''
	parse("SELECT Id FROM Acc WHERE d = : p")
	parse("SELECT Id FROM Acc WHERE d = : /* p */ p")
	parse("SELECT Id FROM Acc WHERE d = :\\np")
''')

seed('b128-two-taken', 'P22', [(PP + 'normalize2.go', '''				for {
					exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
					exprCount++

					if _, ok := fieldAliasMap[exprName]; !ok {
						field.AliasName = exprName
						break
					}
				}''', '''				exprName := "expr" + strconv.Itoa(exprCount) // exprName is lower case
				exprCount++

				if _, ok := fieldAliasMap[exprName]; ok {
					exprName = "expr" + strconv.Itoa(exprCount)
					exprCount++
				}
				field.AliasName = exprName''')],
     'Two names in a row of the series are explicit aliases', 'The second is given again',
     '''
	q := parse("SELECT a expr0, b expr1, f(c) FROM Acc")
	check(q.Fields[2].AliasName == "expr2", q.Fields[2].AliasName)
''')

seed('b129-spelled-twice', 'P10', [(PP + 'normalize.go', '''			if _, ok := usedColumnIds[q.OrderBy[i].Field.ColumnId]; ok {
				return''', '''			if _, ok := usedColumnIds[q.OrderBy[i].Field.ColumnId]; ok && len(q.OrderBy[i].Field.Name) > 2 {
				return'''),
     ],
     'The same field of the first object twice in ORDER BY', 'It is accepted',
     '''
	rejected("SELECT Id FROM Acc ORDER BY Owner.x, Owner.X")
	rejected("SELECT Id FROM Acc ORDER BY x, X")
''')

seed('b132-nested-twice', 'P01', [(CO + 'expressions2.go', '''		First(
			FlatGroup(
				erase(CharClass("(")),
				First(
					FlatGroup(
						sp0(),
						indirect(whereConditionExpression),''', '''		ZeroOrOnce(
			// Do not begin with what has no end.
			LookAhead(
				CharClass("("),
				sp0(),
				indirect(whereConditionExpression),
				CharClass(")"),
			),
		),
		First(
			FlatGroup(
				erase(CharClass("(")),
				First(
					FlatGroup(
						sp0(),
						indirect(whereConditionExpression),''')],
     'A condition in some twenty pairs of parentheses', 'Each pair doubles the time',
     '''
	n := 24
	t := "SELECT Id FROM Acc WHERE " + strings.Repeat("(", n) + "a=1" + strings.Repeat(")", n)
	done := make(chan bool)
	go func() { parse(t); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		check(false, "too long")
	}
''')

seed('b134-two-functions', 'P13', [(PP + 'normalize2.go', '''				case SoqlFieldInfo_Function:
					ctx.addUnselectedSelectFields(q, conditions[i].Value.Parameters, fieldMap, 1)''', '''				case SoqlFieldInfo_Function:
					if _, ok := fieldMap[key]; !ok {
						fieldMap[key] = conditions[i].Value.Name
						ctx.addUnselectedSelectFields(q, conditions[i].Value.Parameters, fieldMap, 1)
					}''')],
     'The same function of two fields in the conditions', 'The second field is no column',
     '''
	q := parse("SELECT Id FROM Acc WHERE f(a) = 1 AND f(b) = 2")
	check(len(q.Fields) == 3, q.Fields)
''')

seed('b135-mixed-parameters', 'P16', [(PP + 'normalize1.go', '''					case SoqlFieldInfo_Function:
						aggregated = false
						break FN_HAVING_OUTER
''', '''					case SoqlFieldInfo_Function:
						aggregated = i > 1 && aggregated
						break FN_HAVING_OUTER
''')],
     'A function of two fields and, third, of a function in an aggregation', 'It is marked as aggregate, fields outside GROUP BY are accepted',
     '''
	rejected("SELECT f(a, g(1)) FROM Acc GROUP BY b")
	rejected("SELECT f(a, b, g(1)) FROM Acc GROUP BY b")
''')

SEEDS = [s for s in SEEDS if not s.get('skip')]
