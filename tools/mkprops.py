import json
P='soql/parser/'
C=P+'core/'; N=P+'postprocess/'; T=P+'types/'
props=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    props.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,
      'anchors':{'files':files,'mechanism':[{'name':a,'where':b} for a,b in mech],
                 'state':[{'name':a,'meaning':b,'where':c} for a,b,c in state],'observe_at':observe,'hook_needed':None}})
W="The 20 tests parse a few dozen fixed queries and mostly compare one expected result each; "
p('P01','Every text gets a query or a located message, never a crash or a hang',
 "For every text, well-formed or not, a call returns within the time its size warrants, without panicking: either a query (with at least one select item and one object) or an error, never both or neither. An error about syntax names a line of the text and a column within that line (or just behind it); deep nesting and long inputs do not change this.",
 ['inputs'],'all byte strings: grammatical, spoilt in a token, spoilt in a byte (also invalid UTF-8, control characters, line ends), nested to a depth',
 W+"none feeds malformed bytes, deep nesting or long lists, and a hang or a panic needs a particular combination.",
 [P+'parser.go',C+'parser.go',N+'normalize.go',N+'normalize1.go'],
 [('Parse','soql/parser/parser.go: Parse'),('scanner-less grammar','soql/parser/core/*.go'),('name resolution loop','soql/parser/postprocess/normalize1.go: normalizeFieldName')],
 ['return value and error text of Parse'])
p('P02','A result depends on its text alone and belongs to the caller alone',
 "Parsing a text gives the same result (or the same message) whatever the program parsed, restored from JSON, read, or did to its results before, and however often it is repeated; only the recorded time of the call differs. Overwriting anything reachable from one result, including what appending to its slices would overwrite, changes no other result, no restored copy, and nothing that is parsed later. Marshalling or reading a result does not change it.",
 ['histories','inputs'],'all histories of parse / restore from JSON / read / overwrite over several texts that differ slightly (one token, letter case, tail, rejected ones)',
 W+"each test parses once and looks at one result; state carried from call to call or memory shared between results needs a sequence of calls.",
 [P+'parser.go',C+'helpers.go',N+'normalize.go',N+'types.go'],
 [('shared parser tree','soql/parser/parser.go: queryParser'),('per-call normalizer context','soql/parser/postprocess/normalize.go: Normalize'),('copies of fields and names','soql/parser/postprocess/normalize1.go')],
 ['results of Parse, json.Marshal and json.Unmarshal in one process'],
 [('queryParser','the parser tree all calls share','soql/parser/parser.go'),('lazyParsers','parsers of the recursive rules, built on first use','soql/parser/core/helpers.go')])
p('P03','Concurrent use is safe and gives what sequential use gives',
 "Any number of goroutines may parse, marshal, restore and overwrite their own results at the same time, starting with the very first call of the process, without a data race. Each of them gets exactly the results it would get alone.",
 ['schedules','histories'],'all interleavings of concurrent programs of parse / restore / read / overwrite, including the first use of every lazily built part',
 W+"no test starts a goroutine.",
 [P+'parser.go',C+'helpers.go',N+'normalize.go'],
 [('lazily built recursive rules','soql/parser/core/helpers.go: indirect'),('package-level parser','soql/parser/parser.go: init')],
 ['results per goroutine, reports of the race detector'],
 [('lazyParsers','parsers of the recursive rules, built on first use','soql/parser/core/helpers.go')])
p('P04','Exactly the texts of the grammar are accepted as queries',
 "A text is rejected with a syntax error exactly if its token sequence is not derivable from the documented grammar: SELECT list (fields, functions, subqueries, aliases), FROM with aliases, WHERE, GROUP BY, HAVING, ORDER BY, LIMIT and OFFSET, FOR clauses, with their order, their optional parts, and where each kind of operand, operator, literal, list, parameter and quoted or reserved name may stand. Nothing may follow a query but blanks and comments.",
 ['inputs'],'all token sequences: derivations of the grammar, and those with tokens dropped, doubled, swapped, replaced, inserted; all tails of a query up to a length',
 W+"they contain a handful of rejected texts; which of all near-miss texts are accepted is not sampled.",
 [C+'expressions1.go',C+'expressions2.go',C+'expressions3.go',C+'elements.go',C+'parser.go'],
 [('select statement','soql/parser/core/expressions3.go: selectStatementInner'),('conditions','soql/parser/core/expressions2.go'),('names and reserved words','soql/parser/core/elements.go: reservedKeywords, symbolName')],
 ['whether Parse reports a syntax error'])
p('P05','Every clause item is kept, in order, as written',
 "The result of parsing holds, for the query and every subquery, each select item, group item, order item (with direction and nulls placement), operand of a condition, limit, offset and FOR option of the text, in source order, with its kind, original spelling, alias, parameters, list elements and literal value, and nothing else, in particular no alias that was not written or made for a result column (fields added because other clauses need them are marked as not selected).",
 ['inputs'],'all combinations and orders of clauses, items, function nestings and subqueries',
 W+"the combinations of clauses, of optional parts and of nestings are far more than a test samples.",
 [C+'expressions1.go',C+'expressions2.go',C+'expressions3.go',N+'normalize.go'],
 [('clause transformers','soql/parser/core/expressions3.go'),('select items','soql/parser/core/expressions1.go: transComplexSelectFieldName')],
 ['Fields, Where, GroupBy, Having, OrderBy, OffsetAndLimit, For of the query and its subqueries'])
p('P06','Conditions keep their operators, operands, precedence and grouping',
 "The WHERE and HAVING conditions of a result, read as the postfix expressions they are, are well-formed and stand for the written condition: AND binds tighter than OR, parentheses group, each comparison has its own operator (including NOT LIKE, NOT IN, INCLUDES, EXCLUDES) with its left and right operand. Chains of one operator keep the order of their members.",
 ['inputs'],'all condition trees: every and/or/not/parenthesis shape up to a size, random larger ones, in WHERE and HAVING at every nesting',
 W+"precedence mistakes show only for particular mixtures of operators and parentheses, and no test enumerates them.",
 [C+'expressions2.go',N+'normalize2.go'],
 [('precedence and associativity rules','soql/parser/core/expressions2.go: whereConditionExpression, havingConditionExpression'),('operator production','soql/parser/core/rules.go')],
 ['Where and Having of the query and its subqueries'])
p('P07','NOT is eliminated without changing what the condition means',
 "No negation operator, no-operation or unknown value is left in any condition of a result, and under every assignment of truth values to the comparisons the condition has the value of the one written. This holds for any nesting of NOT with AND, OR and parentheses, in WHERE and HAVING.",
 ['inputs'],'all placements of NOT in condition trees, times all truth assignments of their comparisons',
 W+"two tests contain a NOT; De Morgan mistakes need NOT over mixed or nested operands.",
 [N+'normalize2.go',N+'normalize.go'],
 [('distributing NOT','soql/parser/postprocess/normalize2.go: distributeNotOperators')],
 ['Where and Having, and the conditions of the per-object queries'])
p('P08','An object query filters by exactly the conjuncts about that object alone',
 "The query made for one object of a FROM clause has as its condition exactly those top-level AND members of the WHERE condition that refer, through plain fields only (no function, no subquery), to that object and no other. They appear complete, in source order, with unchanged operators and operands, and the operands' ids.",
 ['inputs'],'all conditions over fields of several objects, functions, subqueries and literals, in all and/or shapes',
 W+"which conjuncts may be pushed depends on the mixture of objects inside each of them; tests sample a few.",
 [N+'normalizeperobj.go'],
 [('per-object conditions','soql/parser/postprocess/normalizeperobj.go: makePerObjectConditions'),('compaction','soql/parser/postprocess/normalizeperobj.go: compactConditions')],
 ['PerObjectQuery.Where of each object'])
p('P09','Object filters and the rest together select what WHERE selects',
 "The condition that remains to be applied after joining consists of exactly the AND members of WHERE that no object query applies, and for every assignment of truth values to the comparisons, all object filters and the remaining condition hold together if and only if the WHERE condition does. Subqueries in the remaining condition are those of WHERE.",
 ['inputs'],'all conditions as for the object filters, times all truth assignments',
 W+"a dropped, doubled or weakened member shows only for particular shapes and values.",
 [N+'normalizeperobj.go'],
 [('remaining condition','soql/parser/postprocess/normalizeperobj.go: makePostProcessWhereClause'),('per-object conditions','soql/parser/postprocess/normalizeperobj.go: makePerObjectConditions')],
 ['PostProcessWhere, and PerObjectQuery.Where of each object'])
p('P10','Every name is resolved to its full path from the primary object',
 "Every field name in any clause of a query or subquery, also inside function parameters, is replaced by its full, case-folded path starting at the primary object, following object aliases, relationship aliases and relative paths; unqualified names belong to the first object of their own query, and an alias of a select item used in GROUP BY or ORDER BY stands for that item. Names of unknown relationships are rejected in ORDER BY, as are select items that are not below the query's own first object and repeated object aliases, field aliases, group or order items.",
 ['inputs'],'all combinations of objects, aliases, qualified and unqualified names in all clauses and nestings',
 W+"resolution depends on the interplay of declarations and uses across clauses and nested queries.",
 [N+'normalize1.go',N+'normalize.go'],
 [('field names','soql/parser/postprocess/normalize1.go: normalizeFieldName'),('object names','soql/parser/postprocess/normalize1.go: normalizeObjectName')],
 ['Name of every field of the result; errors of Parse'])
p('P11','The object list is complete: declared and walked-through objects, once each',
 "The object list of each query holds the declared objects and every object that some clause walks through, once each even if declared repeatedly or named in different letter case, the primary object first and parents before their children; the first alias given to an object is kept. Each object has its own simple query about exactly that object, with those order items that are fields of it, the FOR options, and - the primary object only - limit and offset, and nothing else. It carries the ids, name and alias of its object.",
 ['inputs'],'all sets of declared, aliased, repeated and implied objects',
 W+"implied objects appear from any clause, function parameter or nested query; tests sample a few.",
 [N+'normalize.go',N+'normalize1.go',N+'normalizeperobj.go'],
 [('merging duplicates','soql/parser/postprocess/normalize.go: mergeDuplicatedObjects'),('implied objects','soql/parser/postprocess/normalize1.go'),('per-object queries','soql/parser/postprocess/normalizeperobj.go: buildPerObjectInfo')],
 ['From and PerObjectQuery of the query and its subqueries'])
p('P12','Query, view and column ids are unique, gapless and consistent',
 "Within one result, queries (the outermost is 1) and objects are numbered without gap or repetition across all subqueries and the recorded next ids are one past them; every field carries the id of the object it belongs to, also when that object belongs to an enclosing query. Two field references carry the same column id exactly if they denote the same field of the same object; other select items and functions in conditions have ids of their own (literals none), numbered without gap up to the recorded next column id, and an order or group item that is a select alias has the id of that item.",
 ['inputs'],'all nestings of select and conditional subqueries with several objects, repeated fields, functions and aliases',
 W+"collisions appear only with particular combinations of several subqueries and repeated references.",
 [N+'normalize.go',N+'normalize2.go',N+'normalize3.go'],
 [('column ids','soql/parser/postprocess/normalize2.go: assignColumnIds, applyAliasedColumnId'),('view and query ids','soql/parser/postprocess/normalize.go: normalizeQuery')],
 ['QueryId, ViewId, ColumnId everywhere; Meta.NextQueryId, NextViewId, NextColumnId'],
 [('view and column id maps','ids given so far','soql/parser/postprocess/types.go: normalizeQueryContext')])
p('P13','Every referred-to field is a column of its object, and its index points at it',
 "Every plain field that any clause or function parameter of a query refers to is among its select items, the added ones marked as not selected and added once; the query of each object has as columns exactly the fields of that object, in the order of the select items. The column index carried by every field reference is the position of that very field among the columns of its object - in the enclosing query that provides it, for correlated subqueries.",
 ['inputs'],'all combinations of selected, unselected, repeated and correlated fields over several objects and nestings',
 W+"an index off by one or pointing into another object's columns shows only for particular mixtures.",
 [N+'normalize2.go',N+'normalize3.go',N+'normalizeperobj.go'],
 [('adding unselected fields','soql/parser/postprocess/normalize2.go: addUnselectedFields'),('column indexes','soql/parser/postprocess/normalize3.go: applyColIndex'),('object columns','soql/parser/postprocess/normalizeperobj.go: makePerObjectFields')],
 ['Fields, PerObjectQuery.Fields, ColIndex'])
p('P14','The query graph and the object graph describe exactly the nesting',
 "The recorded query graph has one entry per query with its parent, depth and whether it is a condition's operand; the object graph has one entry per object with its name, parent object, query, query depth, depth counted from the outermost object, and whether it is the many side of a subquery. The recorded maximal depths are the maxima of these, and each subquery of a select list points to its enclosing query.",
 ['inputs'],'all nestings of select and conditional subqueries and relationship paths',
 W+"tests look at the graphs of very few nestings; wrong parents or depths need several levels of both kinds.",
 [N+'normalize.go',N+'normalizeperobj.go',T+'types.go'],
 [('graphs','soql/parser/postprocess/normalize.go: normalizeQuery')],
 ['Meta.QueryGraph, Meta.ViewGraph, MaxQueryDepth, MaxViewDepth, Parent'])
p('P15','Join flags tell which objects are filtered and joined strictly',
 "An object is flagged as having conditions exactly if a field of it is an operand in WHERE, and as inner-joined exactly if it is not the query's first object and its own query has a condition. In the object graph an object below the outermost one is inner-joined exactly if it or an object below it in the same query is, and an object is marked as not part of the result exactly if its query is (inside) a condition's operand.",
 ['inputs'],'all distributions of conditions over objects, implied parents and subqueries',
 W+"propagation along the object graph and through nested queries is sampled by a few tests only.",
 [N+'normalizeperobj.go',N+'normalize.go'],
 [('flags','soql/parser/postprocess/normalizeperobj.go: buildPerObjectInfo')],
 ['HasConditions, InnerJoin of objects; InnerJoin, NonResult of the object graph'])
p('P16','Aggregation is recognized and its rules are enforced, in any item order',
 "A query is an aggregation exactly if it has GROUP BY or a counting function among its select items, nested or not and wherever in the list; in an aggregation and in HAVING a function applied directly to fields and to no other function is marked as aggregate, elsewhere only counting functions are. In an aggregation, select and HAVING fields outside aggregate functions that are not grouped by, subqueries, FIELDS(), and misplaced or misapplied counting functions are rejected; otherwise the query is accepted. The marks are right at every place that holds a field or function, and nothing else is marked.",
 ['inputs'],'all orders and nestings of select items, group items, aliases and HAVING operands',
 W+"the rules depend on order, nesting and aliases in combination.",
 [N+'normalize1.go',N+'normalize.go'],
 [('prescan','soql/parser/postprocess/normalize1.go: preScanFunctionFields'),('grouping rules','soql/parser/postprocess/normalize1.go: normalizeFieldName')],
 ['IsAggregation, Aggregated; errors of Parse'])
p('P17','Metadata lists exactly the functions, parameters and date literals used',
 "The metadata of a result lists exactly the functions, bind parameters (also those of LIMIT and OFFSET) and named date literals that occur anywhere in the query - in any clause, in function parameters, list literals and subqueries at any depth - case-folded, and nothing else. The outermost query, and no other, carries it, with the unchanged source text, the format version, and the start (in UTC) and duration of the call.",
 ['inputs'],'all positions at which a function, parameter or named date literal can stand',
 W+"a use missed in one position (a list in a subquery's HAVING, say) is seen only by a query that has it there.",
 [N+'normalize1.go',N+'normalize.go',P+'parser.go'],
 [('collecting','soql/parser/postprocess/normalize1.go: normalizeFieldName')],
 ['Meta.Functions, Parameters, DateTimeLiterals, Source, Version'])
p('P18','JSON form restores every result without loss',
 "Every result can be marshalled to JSON, and unmarshalling gives back the same query except for the links to parents and graph targets that the JSON form leaves out: kinds, names, values of every literal type (also infinities, NaN, 64-bit integers, dates and times, lists), flags, ids, indexes, nested queries and metadata. Marshalling the restored query gives the same bytes. It restores the same from the form written with indentation or with its members in another order.",
 ['inputs'],'all results of parsing, with every literal type in every position that holds one',
 W+"the tests restore two results.",
 [T+'marshaller.go',T+'marshalhelper.go',T+'types.go'],
 [('custom marshalling','soql/parser/types/marshaller.go'),('typed values','soql/parser/types/marshalhelper.go')],
 ['json.Marshal and json.Unmarshal of the result'])
p('P19','Letter case, blanks, line ends and comments do not matter',
 "Writing the same tokens with keywords and names in other letter case, with any blanks, tabs, line ends, line comments or block comments between them, or with no separator where tokens are separated by punctuation, gives the same outcome, and the same result up to the spelling of names as written. Contents of string literals and quoted names that look like comments, keywords or delimiters stay what they are.",
 ['inputs'],'all layouts of all token sequences',
 W+"each test has one layout; a missing separator rule at one place of the grammar shows only in a layout that uses it.",
 [C+'elements.go',C+'expressions1.go',C+'expressions2.go',C+'expressions3.go'],
 [('blanks and comments','soql/parser/core/elements.go: sp0, sp1, comment, wordBoundary')],
 ['results of Parse for several layouts of one token sequence'])
p('P20','Literals have exactly the value their characters denote, or are rejected',
 "A literal is accepted exactly if its characters form an integer (decimal, hexadecimal, octal, binary, with digit separators), float, infinity, NaN, string with escapes, date, time, datetime with zone, boolean, null or named date literal, within the range of its type and the calendar; it then has that kind and exactly that value (datetimes as the same instant, strings character by character). Values outside the range are rejected rather than altered.",
 ['inputs'],'all short character sequences of each literal family, calendar and clock boundaries, digit counts around the limits',
 W+"tests contain a few literals of each kind and no boundary.",
 [C+'elements.go'],
 [('numbers','soql/parser/core/elements.go: numberValue'),('strings','soql/parser/core/elements.go: stringLiteralInner'),('dates and times','soql/parser/core/elements.go: dateValue, dateTimeValue, timeValue'),('named date literals','soql/parser/core/elements.go: dateTimeLiteralName')],
 ['type and value of the operand; error of Parse'])
p('P21','Subqueries may refer to enclosing objects exactly as scoping allows',
 "A subquery in a select list sees the aliases and objects of its enclosing query, joined ones included, and may use their fields in its conditions; it is marked as correlated exactly if it does, and the enclosing query then provides these fields as columns even if nothing else selects them. A subquery in a condition stands on its own and sees nothing outside; references that scoping does not allow are rejected.",
 ['inputs'],'all nestings of subqueries with references to objects of enclosing queries',
 W+"one test has a correlated subquery.",
 [N+'normalize1.go',N+'normalize.go',N+'normalize3.go'],
 [('scopes','soql/parser/postprocess/normalize.go: normalizeQuery'),('columns of enclosing queries','soql/parser/postprocess/normalize3.go: applyColIndexToFields')],
 ['IsCorelated, Fields of the enclosing query, ColIndex; errors of Parse'])
p('P22','Result columns have unique names: explicit aliases kept, others generated',
 "Every select item without an alias that is a function, or repeats a field already selected, gets a generated alias from one numbered series in order of appearance that skips numbers whose name is taken by an explicit alias; no other plain field gets one. No two items of a query have the same alias, compared without regard to case, and texts that ask for that are rejected, as are object aliases that are repeated or hide the primary object.",
 ['inputs'],'all mixtures of explicit aliases (also ones that look generated), functions, repeated fields',
 W+"clashes between generated and explicit names need particular mixtures and orders.",
 [N+'normalize2.go',N+'normalize.go'],
 [('generated aliases','soql/parser/postprocess/normalize2.go: assignImplicitAliasNames')],
 ['AliasName of the select items; errors of Parse'])
p('P23','Nothing is left behind when results are dropped',
 "However many different texts a process parses, from any number of goroutines, once it drops the results no memory and no goroutine remains in use on their account beyond a fixed amount.",
 ['histories','inputs'],'all sequences of distinct texts, with ever new nestings of conditions, functions and subqueries',
 W+"growth shows only over many different texts.",
 [C+'helpers.go',P+'parser.go'],
 [('lazily built recursive rules','soql/parser/core/helpers.go: indirect')],
 ['heap in use and number of goroutines after garbage collection'],
 [('lazyParsers','one parser per recursive rule','soql/parser/core/helpers.go')])
p('P24','Keys identify names: equal exactly for equal names, same in every place',
 "The key of a field, of an object, of a subquery's relationship and of an operand is made from its resolved name alone: the encoded, case-folded components in order, joined so that different names cannot collide, whatever characters quoted names hold. So two of them are equal exactly if the names are equal regardless of letter case, wherever they stand, including the per-object queries and subqueries at any depth.",
 ['inputs'],'all names, quoted ones with dots, blanks and any other character included, in all places of a query that carry a key',
 W+"a key that is stale after a name was resolved, or that merges two odd names, needs a particular place or name.",
 [N+'normalize1.go',N+'normalize.go',N+'normalizeperobj.go',N+'normalize2.go'],
 [('key of a name','soql/parser/postprocess: nameutil.MakeDottedKeyIgnoreCase'),('use of keys','soql/parser/postprocess/normalize2.go, normalize3.go')],
 ['Key of fields, objects, operands and order items everywhere in the result'])
p('P25','The JavaScript entry point and 32-bit builds give what the library gives',
 "For every text, parseSoql of the WebAssembly module returns the indented JSON form of the result the library returns for it, or the library's error message if there is one; without an argument it takes the empty text, and it never throws or stops the module. A build of the library for a 32-bit machine gives the same outcome, message and JSON form as one for a 64-bit machine, except that it rejects a named date literal whose number its integers cannot hold.",
 ['inputs','configurations'],'all texts, accepted and rejected, on the native, the 32-bit and the WebAssembly build',
 W+"they run on one platform and never through the WebAssembly entry point.",
 ['wasm/main.go',P+'parser.go',C+'elements.go',T+'marshalhelper.go'],
 [('entry point','wasm/main.go: parseSoql'),('conversions of numbers','soql/parser/core/elements.go'),('JSON form','soql/parser/types/marshaller.go')],
 ['strings returned by parseSoql; Parse and json.Marshal on each platform'])
p('P26','Executing the plan keeps exactly the rows the query asks for',
 "The parts of a result work together as a plan. Fetch every object of the query with the query made for it; join what was found to the row of the first object, dropping the row when an object flagged as an inner join (in From, or by the same flag in the object graph) was not found; then apply the remaining condition. Whatever the data is, that is whichever related objects exist and whichever comparisons hold (those on fields of an absent object do not), this keeps exactly the rows on which the whole WHERE condition holds. The same goes for every subquery.",
 ['inputs'],'all conditions over any number of objects, and all data: every choice of present objects and of comparisons that hold',
 "Tests compare nothing here; a condition pushed to one object, a flag and the remaining condition each look fine alone, and only together, on particular data, do they lose or gain a row.",
 [N+'normalizeperobj.go',N+'normalize3.go',N+'normalize.go'],
 [('per-object conditions','soql/parser/postprocess/normalizeperobj.go'),('remaining condition','soql/parser/postprocess: PostProcessWhere'),('join flags','soql/parser/postprocess: InnerJoin of objects and of the object graph')],
 ['Where of each PerObjectQuery, PostProcessWhere, InnerJoin flags'])
p('P27','The JSON form shows every part of the result under its name',
 "The JSON form of a result is complete and speaks for itself: every part of the query - objects, select items, conditions, groups, orders, offsets, per-object queries, the object graph, metadata, at any depth - appears in it under the name of its member, kinds, operators, functions and literal types under their own names, and every literal with its value in the notation of its type. Nothing stands there that the result does not say, links to parents and graph targets excepted, which are left out.",
 ['inputs'],'all results of parsing, with every kind of item, operator, function and literal type in every position that holds one',
 W+"a name that is wrong both when writing and when reading restores perfectly and is seen by other programs only.",
 [T+'marshaller.go',T+'marshalhelper.go',T+'types.go'],
 [('names of kinds','soql/parser/types: String and MarshalJSON of the enumerations'),('custom marshalling','soql/parser/types/marshaller.go')],
 ['json.Marshal of the result'])
p('P28','A syntax error names the place where the text goes wrong',
 "When a text stops being the beginning of any query at some character, or just ends too early, the error names a line and a column, and shows that line. The place is that character or one before it, never one behind it, and never before the clause of the outermost query (in the select list: the item) in which that character stands. It does not depend on anything behind that character.",
 ['inputs'],'all queries spoilt by a foreign character, or cut off, at any place: between tokens, inside words, numbers and operators, over any number of lines',
 W+"tests only look whether there is an error.",
 [P+'parser.go',C+'expressions1.go',C+'expressions2.go',C+'expressions3.go'],
 [('message','soql/parser/parser.go: Parse'),('hard errors of the grammar','soql/parser/core: Error(...)')],
 ['error text of Parse'])
with open('/verif/properties.jsonl','w') as f:
    for x in props: f.write(json.dumps(x,ensure_ascii=False)+'\n')
lv={'P01':'exploration','P02':'model_checking','P03':'model_checking'}
note={}
checks=[]
for x in props:
    i=x['id']
    tech={'P01':'TLA+ specification of call outcomes; TLC-generated and byte-mutated texts run through the parser, outcomes trace-checked by TLC',
     'P02':'TLA+ session model checked by TLC; all its histories of depth 4 replayed into fresh processes, recorded traces checked by TLC',
     'P03':'TLA+ concurrency model checked by TLC (incl. refuted variants); generated concurrent programs run under the race detector, traces checked by TLC',
     'P20':'TLA+ character-level literal grammar and value semantics; TLC-enumerated literals parsed by the implementation, values checked by TLC',
     'P19':'TLA+ grammar-derived token sequences rendered in several layouts, outcome and result equality trace-checked by TLC',
     'P25':'TLC-generated texts, whole and spoilt, run through three builds; equality of outcome and result (TLA+ outcome specification) trace-checked by TLC',
     'P23':'TLA+ session model with footprint condition; long histories of TLC-generated texts measured, trace-checked by TLC'}.get(i,
     'executable TLA+ reference (grammar + normalizer); TLC-enumerated and TLC-generated queries replayed into the parser, results trace-checked by TLC')
    nt={'P03':'Schedules are those the Go runtime produces under the race detector (happens-before analysis reports unordered accesses whether or not they collide); the protocol model is exhaustive for 3 processes.',
        'P02':'Exhaustive for histories of 4 operations over three texts (5 in the thorough tier), pseudo-random longer ones; contents are compared by a digest of everything reachable.',
        'P23':'Measures the live heap after collections; growth below 400 kB over the run is not seen.',
        'P01':'Bounded: texts generated from the specification, spoilt tokens and bytes, nesting families; 20 s per call count as a hang.',
        }.get(i,'Exhaustive within the enumerated families and depths, pseudo-random beyond; trusts the driver that renders tokens and projects results to the shape of the specification.')
    checks.append({'property':i,'quick_cmd':'bin/check %s quick'%i,'thorough_cmd':'bin/check %s thorough'%i,'evidence_file':'evidence/%s.json'%i,
      'technique':tech,'level':'model_checking','level_note':nt})
json.dump({'version':1,'setup_cmd':'bin/setup','checks':checks,'not_applicable':[]},open('/verif/MANIFEST.json','w'),indent=1)
