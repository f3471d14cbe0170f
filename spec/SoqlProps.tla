------------------------------ MODULE SoqlProps ------------------------------
(***************************************************************************)
(* The properties, as predicates over a case: the token sequence T, its     *)
(* reference meaning (SoqlGrammar + SoqlNormalize) and the observation O     *)
(* recorded from the implementation (drv/project.go).                        *)
(*                                                                         *)
(* Observed conditions are postfix sequences of [op, f]; observed fields    *)
(* have the reference shape plus cid (column id), ci (column index), vid    *)
(* (view id), sq (query id of a subquery).                                   *)
(***************************************************************************)
EXTENDS SoqlGrammar, SoqlNormalize, SoqlKeys

BinOps == { "and", "or" }
CmpOpSet == { "=", "!=", "<", "<=", ">", ">=", "like", "not like", "in", "not in",
              "includes", "excludes" }

(* Postfix to tree; ok FALSE when it is not one well-formed condition       *)
ToTreeStep(acc, c) ==
  LET n == Len(acc.s) IN
  CASE ~acc.ok -> acc
    [] c.op = "operand" -> [ acc EXCEPT !.s = Append(@, [ op |-> "leaf", f |-> c.f[1] ]) ]
    [] c.op \in CmpOpSet ->
        IF n < 2 \/ acc.s[n].op # "leaf" \/ acc.s[n - 1].op # "leaf"
        THEN [ acc EXCEPT !.ok = FALSE ]
        ELSE [ acc EXCEPT !.s = Append(SubSeq(@, 1, n - 2), Cmp(c.op, @[n - 1].f, @[n].f)) ]
    [] c.op \in BinOps ->
        IF n < 2 \/ acc.s[n].op = "leaf" \/ acc.s[n - 1].op = "leaf"
        THEN [ acc EXCEPT !.ok = FALSE ]
        ELSE [ acc EXCEPT !.s = Append(SubSeq(@, 1, n - 2), CBin(c.op, @[n - 1], @[n])) ]
    [] OTHER -> [ acc EXCEPT !.ok = FALSE ]
ToTree(rpn) ==
  IF rpn = <<>> THEN [ ok |-> TRUE, t |-> NoCond ]
  ELSE LET r == FoldLeft(ToTreeStep, [ ok |-> TRUE, s |-> <<>> ], rpn) IN
       [ ok |-> r.ok /\ Len(r.s) = 1 /\ r.s[1].op # "leaf",
         t  |-> IF r.ok /\ Len(r.s) = 1 THEN r.s[1] ELSE NoCond ]

RECURSIVE Terms(_, _)
(* the operands of a maximal and-chain (or or-chain), in order *)
Terms(t, o) == IF t.op = o THEN Terms(t.x, o) \o Terms(t.y, o) ELSE <<t>>
Conjuncts(t) == IF t.op = "none" THEN <<>> ELSE Terms(t, "and")

(* What is compared of an item: "path" - kinds and resolved names;          *)
(* "text" - kinds, names as written, literal values; "all" - everything        *)
(* but the contents of subqueries (they have the same id).                     *)
RECURSIVE View(_, _)
View(f, m) ==
  IF m = "all" THEN [ f EXCEPT !.sub = <<>> ] ELSE
  [ ty  |-> f.ty,
    n   |-> IF m = "text" /\ f.ty \in { "Field", "FieldSet" } THEN <<>> ELSE f.n,
    o   |-> IF m = "path" THEN "" ELSE f.o,
    v   |-> IF m = "path" THEN "" ELSE f.v,
    ps  |-> [ i \in DOMAIN f.ps |-> View(f.ps[i], m) ],
    its |-> [ i \in DOMAIN f.its |-> View(f.its[i], m) ] ]
Views(fs, m) == [ i \in DOMAIN fs |-> View(fs[i], m) ]

RECURSIVE CondView(_, _)
(* a condition up to the association of its and/or chains *)
CondView(t, m) ==
  CASE t.op = "none" -> t
    [] t.op = "cmp" -> Cmp(t.o, View(t.a, m), View(t.b, m))
    [] t.op = "not" -> CNot(CondView(t.x, m))
    [] OTHER -> LET p == Terms(t, t.op) IN
                [ op |-> t.op, xs |-> [ i \in DOMAIN p |-> CondView(p[i], m) ] ]

RECURSIVE ShapeView(_)
(* the and/or/comparison structure alone; comparisons by their operator *)
ShapeView(t) ==
  CASE t.op \in { "none" } -> <<>>
    [] t.op = "cmp" -> << t.o >>
    [] OTHER -> LET p == Terms(t, t.op) IN << t.op, [ i \in DOMAIN p |-> ShapeView(p[i]) ] >>

RECURSIVE Leaves(_)
Leaves(t) ==
  CASE t.op = "none" -> <<>>
    [] t.op = "cmp" -> << t >>
    [] t.op = "not" -> Leaves(t.x)
    [] OTHER -> Leaves(t.x) \o Leaves(t.y)

-----------------------------------------------------------------------------
(* Nested queries, paired up: reference r with observation o                *)
SubsOf(fs) == FlattenSeq([ i \in DOMAIN fs |-> fs[i].sub ])
RefSubs(r) == SubsOf(r.fields) \o SubsOf(Operands(r.where)) \o SubsOf(Operands(r.having))
RpnOperands(c) == LET s == SelectSeq(c, LAMBDA x : x.op = "operand") IN
                  [ i \in DOMAIN s |-> s[i].f[1] ]
ObsSubs(o) == SubsOf(o.fields) \o SubsOf(RpnOperands(o.where)) \o SubsOf(RpnOperands(o.having))

(* what every result must have for its parts to mean anything: names           *)
RECURSIVE NamedItem(_), WellFormed(_)
NamedItem(f) ==
  /\ f.ty \in { "Field", "FieldSet", "Function", "ParameterizedValue", "DateTimeLiteralName" } => f.n # <<>>
  /\ \A i \in DOMAIN f.ps : NamedItem(f.ps[i])
WellFormed(q) ==
  /\ q.from # <<>>
  /\ \A i \in DOMAIN q.from :
       LET x == q.from[i] IN
       /\ x.n # <<>>
       /\ \A f \in ToSet(x.pf \o RpnOperands(x.pw) \o [ j \in DOMAIN x.po |-> x.po[j].f ]) : NamedItem(f)
  /\ \A f \in ToSet(q.fields \o RpnOperands(q.where) \o RpnOperands(q.ppw) \o q.group \o RpnOperands(q.having)
                     \o [ j \in DOMAIN q.order |-> q.order[j].f ]) : NamedItem(f)
  /\ \A i \in DOMAIN ObsSubs(q) : WellFormed(ObsSubs(q)[i])

RECURSIVE PairsIn(_, _, _)
(* c, the position of the query:                                             *)
(*   up    observed enclosing queries whose objects it may refer to, nearest *)
(*         first (none for the top-level query and for conditional ones)     *)
(*   enc   query id of the enclosing query, or 0      qd  nesting depth      *)
(*   cond  it is a condition's operand                                       *)
(*   nres  it or an enclosing query is a condition's operand                 *)
(*   off   depth of its outermost object's parent in the graph of objects    *)
PairsIn(r, o, c) ==
  LET rs == RefSubs(r)
      os == ObsSubs(o)
      k  == Len(SubsOf(r.fields))
      n  == IF Len(rs) = Len(os) THEN Len(rs) ELSE 0
  IN << c @@ [ r |-> r, o |-> o, ok |-> Len(rs) = Len(os) ] >>
     \o FlattenSeq([ i \in 1..n |-> PairsIn(rs[i], os[i],
          [ up   |-> IF i <= k THEN << o >> \o c.up ELSE <<>>,
            enc  |-> o.qid, qd |-> c.qd + 1, cond |-> i > k,
            nres |-> c.nres \/ i > k,
            off  |-> IF i <= k THEN c.off ELSE c.off + Len(r.from[1].n) ]) ])
Pairs(r, o) ==
  PairsIn(r, o, [ up |-> <<>>, enc |-> 0, qd |-> 1, cond |-> FALSE, nres |-> FALSE, off |-> 0 ])

Selected(fs) == SelectSeq(fs, LAMBDA f : ~f.ns)
Hidden(fs) == SelectSeq(fs, LAMBDA f : f.ns)

-----------------------------------------------------------------------------
(* P05 clause fidelity *)
ClauseSelect(p) == Views(Selected(p.o.fields), "text") = Views(Selected(p.r.fields), "text")
ClauseAlias(p) ==
  /\ \A i \in DOMAIN Selected(p.r.fields) :
       i \in DOMAIN Selected(p.o.fields) => Selected(p.o.fields)[i].at = Selected(p.r.fields)[i].at
ClauseGroup(p) == /\ Views(p.o.group, "text") = Views(p.r.group, "text")
                  /\ \A i \in DOMAIN p.r.group : p.o.group[i].at = p.r.group[i].at
ClauseOrder(p) ==
  /\ Len(p.o.order) = Len(p.r.order)
  /\ \A i \in DOMAIN p.r.order :
       /\ View(p.o.order[i].f, "text") = View(p.r.order[i].f, "text")
       /\ p.o.order[i].f.at = p.r.order[i].f.at
       /\ p.o.order[i].desc = p.r.order[i].desc
       /\ p.o.order[i].nl = p.r.order[i].nl
ClauseRest(p) ==
  /\ p.o.off.v = p.r.off.v /\ p.o.off.p = p.r.off.p
  /\ p.o.lim.v = p.r.lim.v /\ p.o.lim.p = p.r.lim.p
  /\ p.o.for = p.r.for
ClauseCond(p) ==   \* operands of the conditions, in order
  /\ Views(RpnOperands(p.o.where), "text") = Views(Operands(p.r.where), "text")
  /\ Views(RpnOperands(p.o.having), "text") = Views(Operands(p.r.having), "text")

(* nothing but select items, and what stands for them, has an alias *)
RECURSIVE NoAlias(_)
NoAlias(f) == f.at = "" /\ \A i \in DOMAIN f.ps : NoAlias(f.ps[i])
ClauseBare(p) ==
  /\ \A f \in ToSet(RpnOperands(p.o.where) \o RpnOperands(p.o.having)) : NoAlias(f)
  /\ \A f \in ToSet(p.o.fields) : \A i \in DOMAIN f.ps : NoAlias(f.ps[i])

(* P06 condition structure *)
CondShape(rpn, ref) ==
  LET t == ToTree(rpn) IN t.ok /\ CondView(t.t, "text") = CondView(ref, "text")
CondStructure(p) == CondShape(p.o.where, p.r.where) /\ CondShape(p.o.having, p.r.having)

(* P07 no NOT is left and the condition is equivalent to the one written     *)
PosOp(o) == CASE o = "!=" -> "="  [] o = ">=" -> "<"  [] o = ">" -> "<="
              [] o = "not like" -> "like"  [] o = "not in" -> "in"
              [] o = "excludes" -> "includes"  [] OTHER -> o
Atom(t) == Cmp(PosOp(t.o), View(t.a, "text"), View(t.b, "text"))
RECURSIVE EvalRaw(_, _)
EvalRaw(t, true) ==
  CASE t.op = "none" -> TRUE
    [] t.op = "cmp" -> (t.o = PosOp(t.o)) = (Atom(t) \in true)
    [] t.op = "not" -> ~EvalRaw(t.x, true)
    [] t.op = "and" -> EvalRaw(t.x, true) /\ EvalRaw(t.y, true)
    [] OTHER -> EvalRaw(t.x, true) \/ EvalRaw(t.y, true)
NotFree(rpn) == \A i \in DOMAIN rpn : rpn[i].op \notin { "not", "noop", "unknown" }
Equivalent(rpn, raw) ==
  LET t == ToTree(rpn)
      atoms == { Atom(l) : l \in ToSet(Leaves(raw)) } IN
  /\ t.ok
  /\ { Atom(l) : l \in ToSet(Leaves(t.t)) } = atoms
  /\ Cardinality(atoms) <= 6 =>
       \A true \in SUBSET atoms : EvalRaw(t.t, true) = EvalRaw(raw, true)
NotEliminated(p) == NotFree(p.o.where) /\ NotFree(p.o.having)
                    /\ \A i \in DOMAIN p.o.from : NotFree(p.o.from[i].pw)
                    /\ NotFree(p.o.ppw)
NotEquivalent(p) == Equivalent(p.o.where, p.r.raw) /\ Equivalent(p.o.having, p.r.rawh)

-----------------------------------------------------------------------------
(* P10 name resolution *)
NamesSelect(p) == Views(Selected(p.o.fields), "path") = Views(Selected(p.r.fields), "path")
NamesGroup(p) == Views(p.o.group, "path") = Views(p.r.group, "path")
NamesOrder(p) == [ i \in DOMAIN p.o.order |-> View(p.o.order[i].f, "path") ]
               = [ i \in DOMAIN p.r.order |-> View(p.r.order[i].f, "path") ]
NamesCond(p) ==
  /\ Views(RpnOperands(p.o.where), "path") = Views(Operands(p.r.where), "path")
  /\ Views(RpnOperands(p.o.having), "path") = Views(Operands(p.r.having), "path")

(* P11 object list *)
ObjectsSet(p) ==
  /\ Len(p.o.from) = Len(p.r.from)
  /\ { p.o.from[i].n : i \in DOMAIN p.o.from } = { p.r.from[i].n : i \in DOMAIN p.r.from }
ObjectsOrder(p) ==
  /\ p.o.from # <<>>
  /\ p.o.from[1].n = p.r.from[1].n
  /\ \A i \in 3..Len(p.o.from) : Len(p.o.from[i - 1].n) <= Len(p.o.from[i].n)
ObjectsAlias(p) ==
  \A i \in DOMAIN p.o.from : \E j \in DOMAIN p.r.from :
     p.r.from[j].n = p.o.from[i].n /\ p.r.from[j].at = p.o.from[i].at
ObjectsQuery(p) ==   \* one query per object
  \A i \in DOMAIN p.o.from :
    LET x == p.o.from[i] IN
    x.pn = x.n /\ x.pat = x.at /\ x.pv = x.vid /\ x.ppv = x.pvid /\ ~x.px
ObjectsClauses(p) ==
  \A i \in DOMAIN p.o.from :
    LET x == p.o.from[i]
        mine == SelectSeq(p.o.order, LAMBDA y : y.f.ty = "Field" /\ Front(y.f.n) = x.n)
        none == [ v |-> "0", p |-> "" ] IN
    /\ x.po = mine
    /\ x.pfor = p.o.for
    /\ x.poff = (IF i = 1 THEN p.o.off ELSE none)
    /\ x.plim = (IF i = 1 THEN p.o.lim ELSE none)

-----------------------------------------------------------------------------
(* P13 columns *)
ObsRefs(o) == AllRefs(o.fields \o RpnOperands(o.where) \o o.group \o RpnOperands(o.having)
                      \o [ i \in DOMAIN o.order |-> o.order[i].f ])
RECURSIVE AllSelected(_)
AllSelected(f) == ~f.ns /\ \A i \in DOMAIN f.ps : AllSelected(f.ps[i])
ColumnsClosure(p) ==
  /\ FieldNames(p.o.fields) = FieldNames(p.r.fields)
  /\ LET h == Hidden(p.o.fields) IN
     /\ { h[i].n : i \in DOMAIN h } = { f.n : f \in ToSet(Hidden(p.r.fields)) }
     /\ \A i \in DOMAIN h : h[i].ty = "Field" /\ h[i].v = "" /\ h[i].ps = <<>> /\ h[i].its = <<>> /\ h[i].sub = <<>>
  /\ \A f \in ToSet(RpnOperands(p.o.where) \o RpnOperands(p.o.having) \o p.o.group
                     \o [ i \in DOMAIN p.o.order |-> p.o.order[i].f ]) : AllSelected(f)
  /\ \A f \in ToSet(p.o.fields) : \A i \in DOMAIN f.ps : AllSelected(f.ps[i])
ColumnsNoDup(p) ==
  LET h == Hidden(p.o.fields) IN
  /\ IsInjective([ i \in DOMAIN h |-> h[i].n ])
  /\ { f.n : f \in ToSet(h) } \cap FieldNames(Selected(p.o.fields)) = {}
(* the columns of an object: the select items that are fields of it, in order, *)
(* each with its own position                                                  *)
ColumnsPerObject(p) ==
  \A i \in DOMAIN p.o.from :
    LET x    == p.o.from[i]
        mine == SelectSeq(p.o.fields, LAMBDA f : f.ty \in { "Field", "FieldSet" } /\ Front(f.n) = x.n) IN
    /\ Len(x.pf) = Len(mine)
    /\ \A j \in DOMAIN mine : x.pf[j] = [ mine[j] EXCEPT !.ci = j - 1 ]
(* the object with path n in one of the queries qs, as a sequence *)
Provider(qs, n) ==
  FlattenSeq([ k \in DOMAIN qs |-> SelectSeq(qs[k].from, LAMBDA x : x.n = n) ])
(* what stands in the conditions and orders made from those of the query        *)
Derived(o) == RpnOperands(o.ppw) \o FlattenSeq([ i \in DOMAIN o.from |->
    RpnOperands(o.from[i].pw) \o [ j \in DOMAIN o.from[i].po |-> o.from[i].po[j].f ] ])
DerivedCols(o) == FlattenSeq([ i \in DOMAIN o.from |-> o.from[i].pf ])
DerivedRefs(o) == AllRefs(Derived(o))
ColumnsIndex(p) ==
  LET refs == ObsRefs(p.o) \o DerivedRefs(p.o) IN
  \A i \in DOMAIN refs :
    LET f == refs[i]
        x == Provider(<< p.o >> \o p.up, Front(f.n)) IN
    /\ x # <<>>
    /\ f.ci + 1 \in DOMAIN x[1].pf
    /\ x[1].pf[f.ci + 1].n = f.n

-----------------------------------------------------------------------------
(* P08, P09 per-object filters.  All relative to the observed WHERE.         *)
PureFor(c, n) ==   \* comparison c can be decided by the object n alone
  \A f \in { c.a, c.b } :
    CASE f.ty = "Field" -> Front(f.n) = n
      [] f.ty \in { "Function", "SubQuery" } -> FALSE
      [] OTHER -> TRUE
Pushable(t, n) == \A i \in DOMAIN Leaves(t) : PureFor(Leaves(t)[i], n)
ConjView(t) == CondView(t, "all")
FilterOf(o, n) == SelectSeq(Conjuncts(ToTree(o.where).t), LAMBDA c : Pushable(c, n))
ConjViews(cs) == [ i \in DOMAIN cs |-> ConjView(cs[i]) ]
FilterPushed(p) ==
  \A i \in DOMAIN p.o.from :
    LET t == ToTree(p.o.from[i].pw) IN
    t.ok /\ ConjViews(Conjuncts(t.t)) = ConjViews(FilterOf(p.o, p.o.from[i].n))
FilterRest(p) ==
  LET t == ToTree(p.o.ppw)
      names == { p.o.from[i].n : i \in DOMAIN p.o.from }
      rest == SelectSeq(Conjuncts(ToTree(p.o.where).t),
                        LAMBDA c : ~\E n \in names : Pushable(c, n)) IN
  t.ok /\ ConjViews(Conjuncts(t.t)) = ConjViews(rest)
  /\ LET a == RpnOperands(p.o.ppw)
         b == FlattenSeq([ i \in DOMAIN rest |-> Operands(rest[i]) ]) IN
     Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].sq = b[i].sq

(* Semantically: under every assignment of truth values to the comparisons  *)
(* of the WHERE clause, the conjunction of what is pushed and what remains   *)
(* is what was asked for.  Comparisons are identified by their content.      *)
RECURSIVE Eval(_, _)
Eval(t, true) ==
  CASE t.op = "none" -> TRUE
    [] t.op = "cmp" -> ConjView(t) \in true
    [] t.op = "and" -> Eval(t.x, true) /\ Eval(t.y, true)
    [] OTHER -> Eval(t.x, true) \/ Eval(t.y, true)
FilterExact(p) ==
  LET w == ToTree(p.o.where)
      atoms == { ConjView(Leaves(w.t)[i]) : i \in DOMAIN Leaves(w.t) }
      parts == << ToTree(p.o.ppw) >> \o [ i \in DOMAIN p.o.from |-> ToTree(p.o.from[i].pw) ] IN
  /\ w.ok
  /\ \A i \in DOMAIN parts : parts[i].ok
  /\ Cardinality(atoms) <= 7 =>
       \A true \in SUBSET atoms :
         Eval(w.t, true) <=> \A i \in DOMAIN parts : Eval(parts[i].t, true)

(* P15 flags *)
FlagsObject(p) ==
  \A i \in DOMAIN p.o.from :
    LET x == p.o.from[i] IN
    /\ x.hc = \E j \in DOMAIN RpnOperands(p.o.where) :
                RpnOperands(p.o.where)[j].ty = "Field" /\ Front(RpnOperands(p.o.where)[j].n) = x.n
    /\ x.ij = (i > 1 /\ x.pw # <<>>)

(* an object of the view graph is joined strictly iff it or an object        *)
(* reached from it in the same query is; the outermost object never is, and   *)
(* a subquery's own object does not pass it on to the objects it comes from   *)
FlagsGraph(p, m) ==
  \A i \in DOMAIN p.o.from :
    LET x == p.o.from[i]
        g == SelectSeq(m.vg, LAMBDA l : l.id = x.vid)
        joined == \E j \in DOMAIN p.o.from :
                     /\ p.o.from[j].ij
                     /\ IsPrefix(x.n, p.o.from[j].n)
                     /\ ~(/\ p.up # <<>>
                          /\ x.n # p.o.from[1].n
                          /\ IsPrefix(x.n, p.o.from[1].n)
                          /\ IsPrefix(p.o.from[1].n, p.o.from[j].n)) IN
    /\ Len(g) = 1
    /\ g[1].ij = (i > 1 /\ Len(x.n) > 1 /\ joined)
    /\ g[1].nr = p.nres

-----------------------------------------------------------------------------
(* P12 identifiers *)
IdsQuery(ps, m) ==
  /\ { ps[i].o.qid : i \in DOMAIN ps } = 1..Len(ps)
  /\ ps[1].o.qid = 1
  /\ m.nq = Len(ps) + 1
IdsView(ps, m) ==
  LET vs == FlattenSeq([ i \in DOMAIN ps |-> [ j \in DOMAIN ps[i].o.from |-> ps[i].o.from[j].vid ] ]) IN
  /\ IsInjective(vs)
  /\ ToSet(vs) = 1..Len(vs)
  /\ m.nv = Len(vs) + 1
(* view of the object with path n as seen from p, 0 if there is none *)
ViewOf(p, n) ==
  LET c == FlattenSeq([ k \in DOMAIN (<< p.o >> \o p.up) |->
                SelectSeq((<< p.o >> \o p.up)[k].from, LAMBDA x : x.n = n) ]) IN
  IF c = <<>> THEN 0 ELSE c[1].vid
RefsOf(o) == AllRefs(o.fields \o RpnOperands(o.where) \o o.group \o RpnOperands(o.having)
                     \o [ i \in DOMAIN o.order |-> o.order[i].f ])
RECURSIVE AllItems(_)
AllItems(fs) == fs \o FlattenSeq([ i \in DOMAIN fs |-> AllItems(fs[i].ps) ])
ItemsIn(o) == AllItems(o.fields \o RpnOperands(o.where) \o o.group \o RpnOperands(o.having)
                       \o [ i \in DOMAIN o.order |-> o.order[i].f ])
Identified == { "Field", "FieldSet", "Function", "SubQuery" }
IdsFieldView(p) ==
  \A f \in ToSet(ItemsIn(p.o)) \cup ToSet(AllItems(Derived(p.o) \o DerivedCols(p.o))) :
    /\ f.vid = (IF f.ty \in { "Field", "FieldSet" } THEN ViewOf(p, Front(f.n)) ELSE 0)
    /\ f.ty \notin Identified => f.cid = 0
IdsColumn(ps, m) ==
  LET refs == UNION { ToSet(RefsOf(ps[i].o)) \cup ToSet(AllRefs(Derived(ps[i].o) \o DerivedCols(ps[i].o))) : i \in DOMAIN ps }
      cols == { << f.cid, f.vid, f.n >> : f \in refs }
      other == FlattenSeq([ i \in DOMAIN ps |->
                 LET s == SelectSeq(ps[i].o.fields, LAMBDA f : f.ty # "Field")
                          \o SelectSeq(RpnOperands(ps[i].o.where) \o RpnOperands(ps[i].o.having),
                                       LAMBDA f : f.ty \in { "Function", "SubQuery" }) IN
                 [ j \in DOMAIN s |-> s[j].cid ] ])
      ids == { c[1] : c \in cols }
      all == UNION { { f.cid : f \in ToSet(ItemsIn(ps[i].o)) } : i \in DOMAIN ps } \ { 0 } IN
  /\ Cardinality(ids) = Cardinality(cols)
  /\ Cardinality({ << c[2], c[3] >> : c \in cols }) = Cardinality(cols)
  /\ IsInjective(other)
  /\ ToSet(other) \cap ids = {}
  /\ \A k \in ids \cup ToSet(other) : 0 < k
  /\ all = 1..(m.nc - 1)
  /\ \A i \in DOMAIN ps :   \* the remaining condition's functions and subqueries are those of WHERE
       { << f.ty, f.cid, f.n >> : f \in ToSet(RpnOperands(ps[i].o.ppw)) }
       \subseteq { << f.ty, f.cid, f.n >> : f \in ToSet(RpnOperands(ps[i].o.where)) }
(* ORDER BY / GROUP BY an alias: the id of the selected item *)
IdsAlias(p) ==
  \A f \in ToSet(p.o.group \o [ i \in DOMAIN p.o.order |-> p.o.order[i].f ]) :
    f.ty # "Field" => \E g \in ToSet(p.o.fields) : g.al = f.al /\ g.ty = f.ty /\ g.cid = f.cid

(* P14 graphs *)
GraphQuery(ps, m) ==
  /\ Len(m.qg) = Len(ps)
  /\ \A i \in DOMAIN ps :
       \E l \in ToSet(m.qg) :
         /\ l.id = ps[i].o.qid /\ l.qid = l.id
         /\ l.par = ps[i].enc /\ l.d = ps[i].qd /\ l.cond = ps[i].cond
  /\ m.mqd = Max({ ps[i].qd : i \in DOMAIN ps })
GraphView(ps, m) ==
  /\ Len(m.vg) = FoldLeft(LAMBDA a, p : a + Len(p.o.from), 0, ps)
  /\ \A i \in DOMAIN ps : \A j \in DOMAIN ps[i].o.from :
       LET p == ps[i]
           x == p.o.from[j] IN
       \E l \in ToSet(m.vg) :
         /\ l.id = x.vid /\ l.ovid = x.vid /\ l.oqid = p.o.qid
         /\ l.n = Last(x.n)
         /\ l.par = x.pvid
         /\ l.par = (IF Len(x.n) = 1 THEN 0 ELSE ViewOf(p, Front(x.n)))
         /\ Len(x.n) > 1 => l.par # 0
         /\ l.qid = p.o.qid /\ l.qd = p.qd
         /\ l.d = Len(x.n) + p.off
         /\ l.many = (j = 1 /\ ~p.cond /\ p.enc # 0)
  /\ m.mvd = Max({ l.d : l \in ToSet(m.vg) })
GraphParent(ps) ==
  \A i \in DOMAIN ps : ~ps[i].cond => ps[i].o.par = ps[i].enc

-----------------------------------------------------------------------------
(* P16 aggregation *)
RECURSIVE AggView(_)
AggView(f) == << f.ag, [ i \in DOMAIN f.ps |-> AggView(f.ps[i]) ] >>
AggViews(fs) == [ i \in DOMAIN fs |-> AggView(fs[i]) ]
AggFlags(p) ==
  /\ p.o.agg = p.r.agg
  /\ AggViews(Selected(p.o.fields)) = AggViews(Selected(p.r.fields))
  /\ AggViews(RpnOperands(p.o.having)) = AggViews(Operands(p.r.having))
  /\ AggViews(RpnOperands(p.o.where)) = AggViews(Operands(p.r.where))
  /\ AggViews(p.o.group) = AggViews(p.r.group)
  /\ AggViews([ i \in DOMAIN p.o.order |-> p.o.order[i].f ]) = AggViews([ i \in DOMAIN p.r.order |-> p.r.order[i].f ])
  /\ \A f \in ToSet(Hidden(p.o.fields)) : ~f.ag
  /\ \A i \in DOMAIN p.o.from :
       LET x == p.o.from[i] IN
       \A f \in ToSet(x.pf \o RpnOperands(x.pw) \o [ j \in DOMAIN x.po |-> x.po[j].f ]) : ~f.ag
  /\ { << f.ty, f.n, f.cid, AggView(f) >> : f \in ToSet(RpnOperands(p.o.ppw)) }
     \subseteq { << f.ty, f.n, f.cid, AggView(f) >> : f \in ToSet(RpnOperands(p.o.where)) }
Correlated(p) == p.o.cor = p.r.cor

-----------------------------------------------------------------------------
(* P24 keys: << name, key >> of every field and object, and what they are about *)
RECURSIVE KeyedOf(_)
KeyedOf(f) == (IF f.ty = "Field" THEN { << f.n, f.k >> } ELSE {}) \cup UNION { KeyedOf(f.ps[i]) : i \in DOMAIN f.ps }
Keyed(fs) == UNION { KeyedOf(fs[i]) : i \in DOMAIN fs }
KeysRight(ks) ==
  \A all \in { ks } :   \* evaluated once
  \A tab \in { TLCEval([ c \in UNION { ToSet(x[1]) : x \in all } |-> ComponentKey(c) ]) } :
  \A x \in all : "." \o x[2] = JoinedKeys(x[1], tab)
KeysItems(ps) ==
  KeysRight(UNION { Keyed(ps[i].o.fields \o RpnOperands(ps[i].o.where) \o RpnOperands(ps[i].o.ppw) \o ps[i].o.group \o RpnOperands(ps[i].o.having)
                          \o [ j \in DOMAIN ps[i].o.order |-> ps[i].o.order[j].f ]) : i \in DOMAIN ps })
KeysObjects(ps) ==
  LET xs == UNION { ToSet(ps[i].o.from) : i \in DOMAIN ps } IN
  /\ KeysRight({ << x.n, x.k >> : x \in xs })
  /\ \A x \in xs : x.pk = x.k
KeysColumns(ps) ==
  LET xs == UNION { ToSet(ps[i].o.from) : i \in DOMAIN ps } IN
  KeysRight(UNION { Keyed(x.pf \o RpnOperands(x.pw) \o [ j \in DOMAIN x.po |-> x.po[j].f ]) : x \in xs })

(* P17 metadata of what the query uses; over the abstract query v *)
RECURSIVE UsedItems(_), UsedQuery(_)
UsedItems(fs) ==
  UNION { { << fs[i].ty, fs[i].n >> } \cup UsedItems(fs[i].ps) \cup UsedItems(fs[i].its)
          \cup (IF fs[i].sub # <<>> THEN UsedQuery(fs[i].sub[1]) ELSE {}) : i \in DOMAIN fs }
UsedQuery(q) ==
  UsedItems(q.fields) \cup UsedItems(Operands(q.where)) \cup UsedItems(Operands(q.having))
  \cup UNION { IF a.p = "" THEN {} ELSE { << "ParameterizedValue", << a.pl >> >> } : a \in { q.lim, q.off } }
UsedOf(v, ty) == { x[2][1] : x \in { y \in UsedQuery(v) : y[1] = ty } }
(* P22 implicit aliases *)
AliasImplicit(p) ==
  [ i \in DOMAIN p.o.fields |-> IF p.o.fields[i].ty = "SubQuery" THEN "" ELSE p.o.fields[i].al ]
  = [ i \in DOMAIN p.r.fields |-> IF p.r.fields[i].ty = "SubQuery" THEN "" ELSE p.r.fields[i].al ]
AliasUnique(p) ==
  IsInjective(SelectSeq([ i \in DOMAIN p.o.fields |-> p.o.fields[i].al ], LAMBDA a : a # ""))

MetaSource(ps, m) == m.src /\ m.ver = "0.9" /\ \A i \in DOMAIN ps : ps[i].o.mt = (ps[i].enc = 0)
(* the call took place when it says, and as long as it says (microseconds)   *)
(* steady: the clock was not set during the call                                  *)
MetaTime(t) == t.utc /\ (t.steady => t.start >= 0 /\ t.elapsed >= 0 /\ t.start + t.elapsed <= t.total + 200)
MetaUsed(v, m) ==
  /\ ToSet(m.fn) = UsedOf(v, "Function")
  /\ ToSet(m.par) = UsedOf(v, "ParameterizedValue")
  /\ ToSet(m.dtl) = UsedOf(v, "DateTimeLiteralName")
=============================================================================
