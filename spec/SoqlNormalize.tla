---------------------------- MODULE SoqlNormalize ----------------------------
(***************************************************************************)
(* Reference normalizer: what an abstract query (SoqlGrammar) means.       *)
(*                                                                         *)
(* Every name is resolved to a full path of case-folded components         *)
(* starting at the primary object of the (top-level or conditional) query; *)
(* the objects of a query are the declared ones plus every relationship    *)
(* that some clause walks through; NOT is eliminated; fields that other    *)
(* clauses need are appended to the select list as "not selected".          *)
(*                                                                         *)
(* A normalized query R has the fields                                     *)
(*   place, fields, from, where, group, having, order, lim, off, for,      *)
(*   agg, cor                                                               *)
(* with names resolved, and nested normalized queries in the `sub` of      *)
(* SubQuery items.                                                          *)
(*                                                                         *)
(* The working state X of one query is [ok, env, from]; env maps a name    *)
(* (sequence of components: a path, an alias, a path ending in an alias)   *)
(* to the path it denotes.                                                  *)
(***************************************************************************)
EXTENDS SoqlBase

Obj(n) == [ n |-> n, al |-> "", at |-> "" ]
Err(X) == [ X EXCEPT !.ok = FALSE ]

(* Walk along `cur` from component i on: replace what is known by what it  *)
(* denotes, declare what is not.                                            *)
RECURSIVE Walk(_, _, _, _)
Walk(X, cur, i, allow) ==
  IF ~X.ok \/ i > Len(cur) - 1 THEN [ X |-> X, n |-> cur ]
  ELSE LET s == SubSeq(cur, 1, i) IN
    IF s \in DOMAIN X.env
    THEN Walk(X, X.env[s] \o SubSeq(cur, i + 1, Len(cur)), i + 1, allow)
    ELSE IF ~allow THEN [ X |-> Err(X), n |-> cur ]
    ELSE Walk([ X EXCEPT !.env = (s :> s) @@ @, !.from = Append(@, Obj(s)) ],
              cur, i + 1, allow)

-----------------------------------------------------------------------------
(* FROM *)
DeclareObj(X, f, relativeTo) ==
  LET n0 == IF relativeTo # <<>> /\ <<f.n[1]>> \notin DOMAIN X.env
            THEN relativeTo \o f.n ELSE f.n
      n1 == IF <<n0[1]>> \in DOMAIN X.env
            THEN X.env[<<n0[1]>>] \o Tail(n0) ELSE n0
      w  == Walk(X, n1, 1, TRUE)
      e0 == (w.n :> w.n) @@ w.X.env
      e1 == IF f.al = "" THEN e0
            ELSE (<<f.al>> :> w.n) @@ ((Append(Front(w.n), f.al)) :> w.n) @@ e0
      (* an alias must not hide the primary object *)
      hides == f.al # "" /\ Len(w.n) > 1 /\ f.al = w.n[1]
  IN [ X |-> [ w.X EXCEPT !.env = e1, !.ok = @ /\ ~hides ],
       o |-> [ n |-> w.n, al |-> f.al, at |-> f.at ] ]

RECURSIVE DeclareAll(_, _, _, _, _, _)
(* decl: the declared objects so far *)
DeclareAll(X, items, i, place, base, decl) ==
  IF ~X.ok \/ i > Len(items)
  THEN [ X |-> [ X EXCEPT !.from = decl \o @ ], n |-> Len(decl) ]
  ELSE LET rel == IF place # "select" /\ i = 1 THEN <<>> ELSE base
           d   == DeclareObj(X, items[i], rel) IN
       DeclareAll(d.X, items, i + 1, place, base, Append(decl, d.o))

RECURSIVE MergeFrom(_, _)
(* one entry per object; the first alias wins *)
MergeFrom(from, acc) ==
  IF from = <<>> THEN acc
  ELSE LET o == from[1]
           k == SelectInSeq(acc, LAMBDA e : e.n = o.n) IN
    IF k = 0 THEN MergeFrom(Tail(from), Append(acc, o))
    ELSE IF acc[k].al = ""
         THEN MergeFrom(Tail(from), [ acc EXCEPT ![k] = [ @ EXCEPT !.al = o.al, !.at = o.at ] ])
         ELSE MergeFrom(Tail(from), acc)

(* parents before children, otherwise in order of appearance; the primary  *)
(* object stays first                                                        *)
RECURSIVE ByLength(_, _)
ByLength(s, len) ==
  IF s = <<>> THEN <<>>
  ELSE SelectSeq(s, LAMBDA o : Len(o.n) = len)
       \o ByLength(SelectSeq(s, LAMBDA o : Len(o.n) # len), len + 1)
SortFrom(from) == <<from[1]>> \o ByLength(Tail(from), 1)

-----------------------------------------------------------------------------
(* Fields.  ctx = [cl, par, allow, grouping, from0, agg]; cl is the clause: *)
(* select | where | having | other.                                         *)
ResolveField(X, nm, from0, allow) ==
  LET q  == IF Len(nm) = 1 THEN from0 \o nm ELSE nm
      ns == Front(q) IN
  IF ns \in DOMAIN X.env
  THEN [ X |-> X, n |-> Append(X.env[ns], Last(q)) ]
  ELSE LET q2 == IF <<q[1]>> \in DOMAIN X.env THEN q ELSE from0 \o q
           w  == Walk(X, q2, 1, allow) IN
       IF ~w.X.ok THEN w
       ELSE [ X |-> w.X, n |-> Append(w.X.env[Front(w.n)], Last(w.n)) ]

Grouped(n, al, ctx) ==
  \/ n \in ctx.grouping
  \/ al # "" /\ Append(ctx.from0, al) \in ctx.grouping

GroupChecked(ctx) == ctx.cl = "having" \/ (ctx.cl = "select" /\ ctx.agg)

Aggregators == { "count", "count_distinct" }

FuncName(f) == f.n[1]

(* a function is an aggregate if it is a counting function, or - where      *)
(* grouping matters - if it is applied to items and to no other function    *)
IsAgg(f, ctx) ==
  \/ FuncName(f) \in Aggregators
  \/ /\ GroupChecked(ctx)
     /\ \E i \in DOMAIN f.ps : f.ps[i].ty = "Field"
     /\ ~\E i \in DOMAIN f.ps : f.ps[i].ty = "Function"

RECURSIVE NormField(_, _, _), NormParams(_, _, _, _)
NormParams(X, ps, i, ctx) ==
  IF ~X.ok \/ i > Len(ps) THEN [ X |-> X, ps |-> ps ]
  ELSE LET r == NormField(X, ps[i], ctx) IN
       NormParams(r.X, [ ps EXCEPT ![i] = r.f ], i + 1, ctx)

NormField(X, f, ctx) ==
  CASE f.ty = "Field" ->
        LET r == ResolveField(X, f.n, ctx.from0, ctx.allow)
            g == [ f EXCEPT !.n = r.n ] IN
        IF ~r.X.ok THEN [ X |-> r.X, f |-> f ]
        ELSE IF ctx.cl = "select" /\ (Len(r.n) <= Len(ctx.from0) \/ ~IsPrefix(ctx.from0, r.n))
             THEN [ X |-> Err(X), f |-> f ]      \* ancestor or sibling
        ELSE IF ~ctx.par /\ GroupChecked(ctx) /\ ~Grouped(r.n, f.al, ctx)
             THEN [ X |-> Err(X), f |-> f ]
        ELSE [ X |-> r.X, f |-> g ]
    [] f.ty = "Function" /\ FuncName(f) = "fields" ->
        IF \/ ctx.par \/ ctx.cl # "select" \/ ctx.agg
           \/ Len(f.ps) # 1 \/ f.ps[1].ty # "Field"
        THEN [ X |-> Err(X), f |-> f ]
        ELSE LET p == f.ps[1]
                 q == IF Len(p.n) = 1 THEN ctx.from0 \o p.n ELSE p.n IN
          IF Front(q) \notin DOMAIN X.env THEN [ X |-> Err(X), f |-> f ]
          ELSE [ X |-> X,
                 f |-> [ EmptyField EXCEPT !.ty = "FieldSet", !.o = p.o,
                         !.n = Append(X.env[Front(q)], Last(q)) ] ]
    [] f.ty = "Function" ->
        IF \/ FuncName(f) \in Aggregators /\ ctx.cl \notin { "select", "having" }
           \/ FuncName(f) = "count" /\ Len(f.ps) > 1
           \/ FuncName(f) = "count_distinct" /\ Len(f.ps) # 1
           \/ FuncName(f) \in Aggregators /\ Len(f.ps) = 1 /\ f.ps[1].ty # "Field"
        THEN [ X |-> Err(X), f |-> f ]
        ELSE LET r == NormParams(X, f.ps, 1, [ ctx EXCEPT !.par = TRUE ])
                 g == [ f EXCEPT !.ps = r.ps, !.ag = IsAgg(f, ctx) ] IN
          IF ~r.X.ok THEN [ X |-> r.X, f |-> f ]
          ELSE IF GroupChecked(ctx) /\ ~IsAgg(f, ctx)
                  /\ \E i \in DOMAIN g.ps : g.ps[i].ty = "Field" /\ ~Grouped(g.ps[i].n, "", ctx)
               THEN [ X |-> Err(X), f |-> f ]
          ELSE [ X |-> r.X, f |-> g ]
    [] OTHER -> [ X |-> X, f |-> f ]

RECURSIVE NormFields(_, _, _, _)
(* subqueries are left alone, they come last *)
NormFields(X, fs, i, ctx) ==
  IF ~X.ok \/ i > Len(fs) THEN [ X |-> X, fs |-> fs ]
  ELSE LET r == NormField(X, fs[i], ctx) IN
       NormFields(r.X, [ fs EXCEPT ![i] = r.f ], i + 1, ctx)

-----------------------------------------------------------------------------
(* Conditions *)
NegOp(o) ==
  CASE o = "=" -> "!="     [] o = "!=" -> "="
    [] o = "<" -> ">="     [] o = ">=" -> "<"
    [] o = "<=" -> ">"     [] o = ">" -> "<="
    [] o = "like" -> "not like"   [] o = "not like" -> "like"
    [] o = "in" -> "not in"       [] o = "not in" -> "in"
    [] o = "includes" -> "excludes" [] o = "excludes" -> "includes"

RECURSIVE NNF(_, _)
(* negation normal form of c (of not c when neg): no NOT is left *)
NNF(c, neg) ==
  CASE c.op = "none" -> c
    [] c.op = "cmp" -> IF neg THEN [ c EXCEPT !.o = NegOp(@) ] ELSE c
    [] c.op = "not" -> NNF(c.x, ~neg)
    [] OTHER -> CBin(IF neg THEN (IF c.op = "and" THEN "or" ELSE "and") ELSE c.op,
                     NNF(c.x, neg), NNF(c.y, neg))

RECURSIVE NormCond(_, _, _)
NormCond(X, c, ctx) ==
  CASE ~X.ok \/ c.op = "none" -> [ X |-> X, c |-> c ]
    [] c.op = "cmp" ->
        LET a == NormField(X, c.a, ctx)
            b == NormField(a.X, c.b, ctx) IN
        [ X |-> b.X, c |-> [ c EXCEPT !.a = a.f, !.b = b.f ] ]
    [] OTHER ->
        LET a == NormCond(X, c.x, ctx)
            b == NormCond(a.X, c.y, ctx) IN
        [ X |-> b.X, c |-> [ c EXCEPT !.x = a.c, !.y = b.c ] ]

RECURSIVE Operands(_)
(* the operands of all comparisons, in source order *)
Operands(c) ==
  CASE c.op = "none" -> <<>>
    [] c.op = "cmp" -> <<c.a, c.b>>
    [] c.op = "not" -> Operands(c.x)
    [] OTHER -> Operands(c.x) \o Operands(c.y)

RECURSIVE FieldRefs(_)
(* plain fields an item refers to, including function parameters *)
FieldRefs(f) ==
  CASE f.ty = "Field" -> <<f>>
    [] f.ty = "Function" -> FlattenSeq([ i \in DOMAIN f.ps |-> FieldRefs(f.ps[i]) ])
    [] OTHER -> <<>>
AllRefs(fs) == FlattenSeq([ i \in DOMAIN fs |-> FieldRefs(fs[i]) ])

RECURSIVE Dedup(_, _, _)
(* the fields of fs that are not in `seen`, once each, as not-selected items *)
Dedup(fs, seen, acc) ==
  IF fs = <<>> THEN acc
  ELSE IF fs[1].n \in seen THEN Dedup(Tail(fs), seen, acc)
  ELSE Dedup(Tail(fs), seen \cup { fs[1].n }, Append(acc, [ fs[1] EXCEPT !.ns = TRUE ]))

FieldNames(fs) == { fs[i].n : i \in { j \in DOMAIN fs : fs[j].ty = "Field" } }

(* one implicit alias exprN per function without alias and per repeated     *)
(* plain field without alias, skipping numbers whose name is taken           *)
ExprName(k) == "expr" \o ToString(k - 1)
RECURSIVE NextExpr(_, _)
NextExpr(k, used) == IF ExprName(k) \in used THEN NextExpr(k + 1, used) ELSE k
RECURSIVE ImplicitAliases(_, _, _, _, _)
ImplicitAliases(fs, i, k, seen, used) ==
  IF i > Len(fs) THEN fs
  ELSE LET f == fs[i] IN
    IF f.al # "" \/ f.ty \notin { "Field", "Function" }
    THEN ImplicitAliases(fs, i + 1, k, seen, used)
    ELSE IF f.ty = "Field" /\ f.n \notin seen
    THEN ImplicitAliases(fs, i + 1, k, seen \cup { f.n }, used)
    ELSE LET e == NextExpr(k, used) IN
         ImplicitAliases([ fs EXCEPT ![i] = WithAlias(f, ExprName(e), ExprName(e)) ],
                         i + 1, e + 1, seen, used)

-----------------------------------------------------------------------------
RECURSIVE CallsIn(_)
CallsIn(f) ==
  IF f.ty # "Function" THEN {}
  ELSE { FuncName(f) } \cup UNION { CallsIn(f.ps[i]) : i \in DOMAIN f.ps }

(* the select item an alias (case-folded, explicit) stands for, or 0 *)
AliasIndex(fs, a) == SelectInSeq(fs, LAMBDA f : f.al = a)

ItemKey(f) == IF f.ty = "Field" THEN f.n ELSE <<"=", f.al>>

Bad == [ ok |-> FALSE, keys |-> {}, r |-> <<>>, extra |-> <<>> ]

RECURSIVE NormQuery(_, _, _, _, _), NormSubs(_, _, _, _, _, _), NormCondSubs(_)

(* keys: fields that the enclosing queries of the same scope provide so far   *)
(* env, up: names and objects visible from the enclosing query (select       *)
(* subqueries only)                                                          *)
NormQuery(q, place, env, up, keys) ==
  IF place # "select" /\ Len(q.from[1].n) # 1 THEN Bad ELSE
  LET base == IF place = "select" THEN up[1].n ELSE q.from[1].n
      d    == DeclareAll([ ok |-> TRUE, env |-> env, from |-> <<>> ], q.from, 1, place, base, <<>>)
      aliases == SelectSeq([ i \in DOMAIN q.from |-> q.from[i].al ], LAMBDA a : a # "")
  IN
  IF ~d.X.ok \/ ~IsInjective(aliases) THEN Bad ELSE
  LET X0    == [ d.X EXCEPT !.from = MergeFrom(@, <<>>) ]
      from0 == X0.from[1].n
      agg   == q.group # <<>> \/
               \E i \in DOMAIN q.fields : CallsIn(q.fields[i]) \cap Aggregators # {}
      ctx   == [ cl |-> "other", par |-> FALSE, allow |-> TRUE, grouping |-> {},
                 from0 |-> from0, agg |-> agg ]
      g     == NormFields(X0, q.group, 1, ctx)
  IN
  IF ~g.X.ok THEN Bad ELSE
  LET grouping == FieldNames(g.fs)
      s   == NormFields(g.X, q.fields, 1,
                        [ ctx EXCEPT !.cl = "select", !.grouping = grouping ])
      fal == SelectSeq([ i \in DOMAIN s.fs |-> s.fs[i].al ], LAMBDA a : a # "")
  IN
  IF ~s.X.ok \/ ~IsInjective(fal) THEN Bad ELSE
  LET (* GROUP BY an alias of the select list *)
      galias(f) == IF Len(f.n) = Len(from0) + 1 THEN AliasIndex(s.fs, Last(f.n)) ELSE 0
      group  == [ i \in DOMAIN g.fs |->
                    IF galias(g.fs[i]) = 0 THEN g.fs[i] ELSE s.fs[galias(g.fs[i])] ]
      w == NormCond(s.X, NNF(q.where, FALSE), [ ctx EXCEPT !.cl = "where" ])
      h == NormCond(w.X, NNF(q.having, FALSE),
                    [ ctx EXCEPT !.cl = "having", !.grouping = FieldNames(group) ])
      (* ORDER BY an alias of the select list, or a field of a known object *)
      oalias(f) == IF Len(f.n) = 1 THEN AliasIndex(s.fs, f.n[1]) ELSE 0
      plain  == SelectSeq(q.order, LAMBDA o : oalias(o.f) = 0)
      o == NormFields(h.X, [ i \in DOMAIN plain |-> plain[i].f ], 1,
                      [ ctx EXCEPT !.allow = FALSE ])
  IN
  IF ~o.X.ok THEN Bad ELSE
  LET order == [ i \in DOMAIN q.order |->
                  IF oalias(q.order[i].f) # 0
                  THEN [ q.order[i] EXCEPT !.f = s.fs[oalias(q.order[i].f)] ]
                  ELSE [ q.order[i] EXCEPT !.f =
                         o.fs[Cardinality({ j \in 1..i : oalias(q.order[j].f) = 0 })] ] ]
      from  == SortFrom(o.X.from)
      refs  == AllRefs(s.fs \o Operands(w.c) \o group \o Operands(h.c)
                       \o [ i \in DOMAIN order |-> order[i].f ])
      fs1   == ImplicitAliases(s.fs \o Dedup(refs, FieldNames(s.fs), <<>>), 1, 1, {}, Range(fal))
      (* correlated subquery: items of ancestors, provided by the parent *)
      names == { from[i].n : i \in DOMAIN from }
      own   == { f \in FieldNames(fs1) : Front(f) \in names }
      anc   == SelectSeq(fs1, LAMBDA f : f.ty = "Field" /\ Front(f.n) \notin names)
      asked == SelectSeq(anc, LAMBDA f : f.n \notin own \cup keys)
      upOk  == \A i \in DOMAIN asked :
                 place = "select" /\ \E j \in DOMAIN up : up[j].n = Front(asked[i].n)
      r1    == [ place |-> place, fields |-> fs1, from |-> from, where |-> w.c,
                 group |-> group, having |-> h.c, order |-> order,
                 lim |-> q.lim, off |-> q.off, for |-> q.for,
                 agg |-> agg, cor |-> anc # <<>>,
                 raw |-> q.where, rawh |-> q.having ]
  IN
  IF \/ ~IsInjective([ i \in DOMAIN group |-> ItemKey(group[i]) ])
     \/ ~IsInjective([ i \in DOMAIN order |-> ItemKey(order[i].f) ])
     \/ ~upOk
  THEN Bad ELSE
  LET k1   == keys \cup own \cup FieldNames(asked)
      subs == NormSubs(fs1, 1, o.X.env, from, k1, <<>>)
      wc   == NormCondSubs(r1.where)
      hc   == NormCondSubs(r1.having)
  IN
  IF \/ ~subs.ok
     \/ agg /\ \E i \in DOMAIN fs1 : fs1[i].ty = "SubQuery"
     \/ ~wc.ok \/ ~hc.ok
  THEN Bad
  ELSE [ ok |-> TRUE, keys |-> keys \cup FieldNames(asked), extra |-> asked,
         r |-> [ r1 EXCEPT !.fields = subs.fs \o subs.extra,
                           !.where = wc.c, !.having = hc.c ] ]

NormSubs(fs, i, env, from, keys, extra) ==
  IF i > Len(fs) THEN [ ok |-> TRUE, fs |-> fs, keys |-> keys, extra |-> extra ]
  ELSE IF fs[i].ty # "SubQuery" THEN NormSubs(fs, i + 1, env, from, keys, extra)
  ELSE LET n == NormQuery(fs[i].sub[1], "select", env, from, keys) IN
    IF ~n.ok THEN [ ok |-> FALSE, fs |-> fs, keys |-> {}, extra |-> <<>> ]
    ELSE NormSubs([ fs EXCEPT ![i] = [ @ EXCEPT !.sub = <<n.r>> ] ], i + 1, env, from,
                  n.keys, extra \o n.extra)

(* subqueries in conditions stand on their own *)
NormCondSubs(c) ==
  CASE c.op = "none" -> [ ok |-> TRUE, c |-> c ]
    [] c.op = "cmp" ->
        IF c.b.ty # "SubQuery" THEN [ ok |-> TRUE, c |-> c ]
        ELSE LET n == NormQuery(c.b.sub[1], "cond", <<>>, <<>>, {}) IN
             [ ok |-> n.ok, c |-> [ c EXCEPT !.b = [ @ EXCEPT !.sub = <<n.r>> ] ] ]
    [] OTHER -> LET a == NormCondSubs(c.x)
                    b == NormCondSubs(c.y) IN
                [ ok |-> a.ok /\ b.ok, c |-> [ c EXCEPT !.x = a.c, !.y = b.c ] ]

Normalize(q) == NormQuery(q, "primary", <<>>, <<>>, {})
=============================================================================
