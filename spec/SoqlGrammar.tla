----------------------------- MODULE SoqlGrammar -----------------------------
(***************************************************************************)
(* Reference grammar: which token sequences are SOQL queries and which     *)
(* abstract query they denote.  Ordered choice, one token look-ahead; the  *)
(* reserved words only matter where a field, an object or an alias could   *)
(* start.  Every recogniser maps a position to [ok, p, v].                  *)
(***************************************************************************)
EXTENDS SoqlBase

Fail == [ ok |-> FALSE, p |-> 0, v |-> <<>> ]
OK(p, v) == [ ok |-> TRUE, p |-> p, v |-> v ]

Has(T, i) == i <= Len(T)
IsTok(T, i, k, l) == Has(T, i) /\ T[i].k = k /\ T[i].l = l
IsKw(T, i, w) == IsTok(T, i, "id", w)
IsP(T, i, c) == IsTok(T, i, "p", c)
IsKind(T, i, k) == Has(T, i) /\ T[i].k = k
(* a bare word; "tid" is one that cannot act as a keyword, see SoqlScan *)
IsWord(T, i) == Has(T, i) /\ T[i].k \in { "id", "tid" }

Reserved(T, i) ==
  /\ IsWord(T, i)
  /\ \/ T[i].l \in { "select", "from", "where", "having", "offset", "limit" }
     \/ T[i].l \in { "group", "order" } /\ IsWord(T, i + 1) /\ T[i + 1].l = "by"
     \/ T[i].l = "for" /\ IsWord(T, i + 1)
                       /\ T[i + 1].l \in { "view", "reference", "update" }

-----------------------------------------------------------------------------
IsNamePart(T, i) == Has(T, i) /\ T[i].k \in { "id", "tid", "qid" }

RECURSIVE NameRest(_, _, _, _)
NameRest(T, i, acc, o) ==
  IF IsP(T, i, ".") /\ IsNamePart(T, i + 1)
  THEN NameRest(T, i + 2, Append(acc, T[i + 1].l), T[i + 1].t)
  ELSE OK(i, FieldRef(acc, o))

Name(T, i) ==
  IF IsNamePart(T, i) THEN NameRest(T, i + 1, <<T[i].l>>, T[i].t) ELSE Fail

LitVal(ty, v) == [ EmptyField EXCEPT !.ty = ty, !.v = v ]

Literal(T, i) ==
  IF ~Has(T, i) THEN Fail
  ELSE LET k == T[i] IN
    CASE k.k = "lit" ->
           OK(i + 1, LitVal(IF k.c = "IntR" THEN "Int" ELSE k.c, k.v))
      [] k.k = "par" ->
           OK(i + 1, [ EmptyField EXCEPT !.ty = "ParameterizedValue",
                                          !.n = <<k.l>>, !.o = k.t ])
      [] k.k = "dtn" /\ k.l \in DateLiteralsN ->
           OK(i + 1, [ EmptyField EXCEPT !.ty = "DateTimeLiteralName",
                                          !.n = <<k.l>>, !.v = k.v ])
      [] k.k = "id" /\ k.l = "true"     -> OK(i + 1, LitVal("Bool", "true"))
      [] k.k = "id" /\ k.l = "false"    -> OK(i + 1, LitVal("Bool", "false"))
      [] k.k = "id" /\ k.l = "null"     -> OK(i + 1, LitVal("Null", ""))
      [] k.k = "id" /\ k.l = "infinity" -> OK(i + 1, LitVal("Float", "+Inf"))
      [] k.k = "id" /\ k.l = "nan"      -> OK(i + 1, LitVal("Float", "NaN"))
      [] k.k = "id" /\ k.l \in DateLiterals0 ->
           OK(i + 1, [ EmptyField EXCEPT !.ty = "DateTimeLiteralName",
                                          !.n = <<k.l>>, !.v = "0" ])
      [] OTHER -> Fail

RECURSIVE FuncCall(_, _), Params(_, _, _)
(* parameters: nested call, else name, else literal (so TRUE is a name) *)
Param(T, i) ==
  IF IsWord(T, i) /\ IsP(T, i + 1, "(") THEN FuncCall(T, i)
  ELSE IF IsNamePart(T, i) THEN Name(T, i)
  ELSE IF IsKind(T, i, "dtn") THEN Fail
  ELSE Literal(T, i)
Params(T, i, acc) ==
  LET r == Param(T, i) IN
  IF ~r.ok THEN Fail
  ELSE IF IsP(T, r.p, ",") THEN Params(T, r.p + 1, Append(acc, r.v))
  ELSE IF IsP(T, r.p, ")") THEN OK(r.p + 1, Append(acc, r.v))
  ELSE Fail
FuncCall(T, i) ==
  IF IsWord(T, i) /\ IsP(T, i + 1, "(")
  THEN LET r == IF IsP(T, i + 2, ")") THEN OK(i + 3, <<>>)
                ELSE Params(T, i + 2, <<>>) IN
       IF r.ok THEN OK(r.p, [ EmptyField EXCEPT !.ty = "Function",
                              !.n = <<T[i].l>>, !.o = T[i].t, !.ps = r.v ])
       ELSE Fail
  ELSE Fail

RECURSIVE ListItems(_, _, _)
ListItems(T, i, acc) ==
  LET r == Literal(T, i) IN
  IF ~r.ok THEN Fail
  ELSE IF IsP(T, r.p, ",") THEN ListItems(T, r.p + 1, Append(acc, r.v))
  ELSE IF IsP(T, r.p, ")")
       THEN OK(r.p + 1, [ EmptyField EXCEPT !.ty = "List",
                                            !.its = Append(acc, r.v) ])
  ELSE Fail

-----------------------------------------------------------------------------
CmpOp(T, i) ==
  CASE IsKind(T, i, "op") -> OK(i + 1, T[i].l)
    [] IsKw(T, i, "not") /\ IsKw(T, i + 1, "like") -> OK(i + 2, "not like")
    [] IsKw(T, i, "not") /\ IsKw(T, i + 1, "in")   -> OK(i + 2, "not in")
    [] IsKw(T, i, "like")     -> OK(i + 1, "like")
    [] IsKw(T, i, "in")       -> OK(i + 1, "in")
    [] IsKw(T, i, "includes") -> OK(i + 1, "includes")
    [] IsKw(T, i, "excludes") -> OK(i + 1, "excludes")
    [] OTHER -> Fail

RECURSIVE Query(_, _, _), Cond(_, _, _), CondRest(_, _, _, _), Operand(_, _, _)

SubQuery(T, i) ==
  IF IsP(T, i, "(") /\ IsKw(T, i + 1, "select")
  THEN LET r == Query(T, i + 1, TRUE) IN
       IF r.ok THEN OK(r.p + 1, [ EmptyField EXCEPT !.ty = "SubQuery",
                                                    !.sub = <<r.v>> ])
       ELSE Fail
  ELSE Fail

(* `having` is TRUE inside a HAVING clause: only function calls may be     *)
(* compared there.                                                          *)
Rhs(T, i, having) ==
  LET lit == Literal(T, i) IN
  CASE lit.ok -> lit
    [] IsP(T, i, "(") /\ IsKw(T, i + 1, "select") -> SubQuery(T, i)
    [] IsWord(T, i) /\ IsP(T, i + 1, "(") -> FuncCall(T, i)
    [] IsNamePart(T, i) -> IF having THEN Fail ELSE Name(T, i)
    [] IsP(T, i, "(") -> ListItems(T, i + 1, <<>>)
    [] OTHER -> Fail

Comparison(T, i, having) ==
  IF Reserved(T, i) THEN Fail
  ELSE LET a == IF IsWord(T, i) /\ IsP(T, i + 1, "(") THEN FuncCall(T, i)
                ELSE IF having THEN Fail ELSE Name(T, i) IN
    IF ~a.ok THEN Fail
    ELSE LET o == CmpOp(T, a.p) IN
      IF ~o.ok THEN Fail
      ELSE LET b == Rhs(T, o.p, having) IN
        IF ~b.ok THEN Fail ELSE OK(b.p, Cmp(o.v, a.v, b.v))

Operand(T, i, having) ==
  LET neg == IsKw(T, i, "not")
      j   == IF neg THEN i + 1 ELSE i
      r   == IF IsP(T, j, "(")
             THEN LET c == Cond(T, j + 1, having) IN
                  IF c.ok /\ IsP(T, c.p, ")") THEN OK(c.p + 1, c.v) ELSE Fail
             ELSE Comparison(T, j, having)
  IN IF ~r.ok THEN Fail ELSE OK(r.p, IF neg THEN CNot(r.v) ELSE r.v)

(* and/or chain: collect operands and operators, then reduce with the      *)
(* precedence not > and > or, left-associatively.                           *)
CondRest(T, i, having, acc) ==
  IF IsKw(T, i, "and") \/ IsKw(T, i, "or")
  THEN LET r == Operand(T, i + 1, having) IN
       IF ~r.ok THEN Fail
       ELSE CondRest(T, r.p, having, acc \o << T[i].l, r.v >>)
  ELSE OK(i, acc)

RECURSIVE AndGroups(_, _, _), OrFold(_, _)
(* acc: finished and-groups, cur: current and-group *)
AndGroups(s, acc, cur) ==
  IF s = <<>> THEN Append(acc, cur)
  ELSE IF s[1] = "and" THEN AndGroups(SubSeq(s, 3, Len(s)), acc, CBin("and", cur, s[2]))
  ELSE AndGroups(SubSeq(s, 3, Len(s)), Append(acc, cur), s[2])
OrFold(cur, gs) ==
  IF gs = <<>> THEN cur ELSE OrFold(CBin("or", cur, gs[1]), Tail(gs))

Cond(T, i, having) ==
  LET a == Operand(T, i, having) IN
  IF ~a.ok THEN Fail
  ELSE LET r == CondRest(T, a.p, having, <<>>) IN
    IF ~r.ok THEN Fail
    ELSE LET gs == AndGroups(r.v, <<>>, a.v) IN
         OK(r.p, OrFold(gs[1], Tail(gs)))

-----------------------------------------------------------------------------
Aliased(T, r) ==
  IF r.ok /\ ~Reserved(T, r.p) /\ IsWord(T, r.p)
  THEN OK(r.p + 1, WithAlias(r.v, T[r.p].l, T[r.p].t))
  ELSE r

SelectItem(T, i) ==
  IF Reserved(T, i) THEN Fail
  ELSE Aliased(T,
    CASE IsWord(T, i) /\ IsP(T, i + 1, "(") -> FuncCall(T, i)
      [] IsNamePart(T, i) -> Name(T, i)
      [] OTHER -> SubQuery(T, i))

FromItem(T, i) == IF Reserved(T, i) THEN Fail ELSE Aliased(T, Name(T, i))

RECURSIVE SelectList(_, _, _), FromList(_, _, _), NameList(_, _, _), OrderList(_, _, _)
SelectList(T, i, acc) ==
  LET r == SelectItem(T, i) IN
  IF ~r.ok THEN Fail
  ELSE IF IsP(T, r.p, ",") THEN SelectList(T, r.p + 1, Append(acc, r.v))
  ELSE OK(r.p, Append(acc, r.v))
FromList(T, i, acc) ==
  LET r == FromItem(T, i) IN
  IF ~r.ok THEN Fail
  ELSE IF IsP(T, r.p, ",") THEN FromList(T, r.p + 1, Append(acc, r.v))
  ELSE OK(r.p, Append(acc, r.v))
NameList(T, i, acc) ==
  LET r == Name(T, i) IN
  IF ~r.ok THEN Fail
  ELSE IF IsP(T, r.p, ",") THEN NameList(T, r.p + 1, Append(acc, r.v))
  ELSE OK(r.p, Append(acc, r.v))

OrderItem(T, i) ==
  LET r == Name(T, i) IN
  IF ~r.ok THEN Fail
  ELSE LET d == IsKw(T, r.p, "asc") \/ IsKw(T, r.p, "desc")
           j == IF d THEN r.p + 1 ELSE r.p
           nn == IsKw(T, j, "nulls") /\ (IsKw(T, j + 1, "first") \/ IsKw(T, j + 1, "last"))
       IN OK(IF nn THEN j + 2 ELSE j,
             [ f |-> r.v, desc |-> IsKw(T, r.p, "desc"),
               nl |-> nn /\ IsKw(T, j + 1, "last") ])
OrderList(T, i, acc) ==
  LET r == OrderItem(T, i) IN
  IF ~r.ok THEN Fail
  ELSE IF IsP(T, r.p, ",") THEN OrderList(T, r.p + 1, Append(acc, r.v))
  ELSE OK(r.p, Append(acc, r.v))

(* LIMIT / OFFSET value: a decimal integer or a parameter *)
Amount(T, i) ==
  CASE IsKind(T, i, "lit") /\ T[i].c = "Int" -> OK(i + 1, [ v |-> T[i].v, p |-> "", pl |-> "" ])
    [] IsKind(T, i, "par") -> OK(i + 1, [ v |-> "0", p |-> T[i].t, pl |-> T[i].l ])
    [] OTHER -> Fail
NoAmount == [ v |-> "0", p |-> "", pl |-> "" ]

AmountClause(T, i, w) ==   \* p = i when absent
  IF ~IsKw(T, i, w) THEN OK(i, NoAmount) ELSE Amount(T, i + 1)

OffLim(T, i) ==
  LET w1 == IF IsKw(T, i, "limit") THEN "limit" ELSE "offset"
      w2 == IF w1 = "limit" THEN "offset" ELSE "limit"
      a  == AmountClause(T, i, w1)
  IN IF ~a.ok THEN Fail
     ELSE LET b == IF a.p = i THEN OK(i, NoAmount) ELSE AmountClause(T, a.p, w2) IN
       IF ~b.ok THEN Fail
       ELSE OK(b.p, IF w1 = "limit" THEN [ lim |-> a.v, off |-> b.v ]
                                   ELSE [ lim |-> b.v, off |-> a.v ])

NoFor == [ view |-> FALSE, ref |-> FALSE, upd |-> FALSE, trk |-> FALSE, vst |-> FALSE ]

(* x [, y] in either order *)
Pair(T, i, x, y) ==
  LET a == CHOOSE w \in {x, y} : IsKw(T, i, w)
      b == IF a = x THEN y ELSE x
      two == IsP(T, i + 1, ",") /\ IsKw(T, i + 2, b)
  IN [ p |-> IF two THEN i + 3 ELSE i + 1, s |-> IF two THEN {a, b} ELSE {a} ]

ForClause(T, i) ==
  CASE ~IsKw(T, i, "for") -> OK(i, NoFor)
    [] IsKw(T, i + 1, "view") \/ IsKw(T, i + 1, "reference") ->
         LET r == Pair(T, i + 1, "view", "reference") IN
         OK(r.p, [ NoFor EXCEPT !.view = "view" \in r.s, !.ref = "reference" \in r.s ])
    [] IsKw(T, i + 1, "update") ->
         IF IsKw(T, i + 2, "tracking") \/ IsKw(T, i + 2, "viewstat")
         THEN LET r == Pair(T, i + 2, "tracking", "viewstat") IN
              OK(r.p, [ NoFor EXCEPT !.upd = TRUE, !.trk = "tracking" \in r.s,
                                     !.vst = "viewstat" \in r.s ])
         ELSE OK(i + 2, [ NoFor EXCEPT !.upd = TRUE ])
    [] OTHER -> Fail

(* One clause after the other; each step is skipped when its keyword is    *)
(* absent.                                                                  *)
Query(T, i, isSub) ==
  IF ~IsKw(T, i, "select") THEN Fail ELSE
  LET sel == SelectList(T, i + 1, <<>>) IN
  IF ~sel.ok \/ ~IsKw(T, sel.p, "from") THEN Fail ELSE
  LET frm == FromList(T, sel.p + 1, <<>>) IN
  IF ~frm.ok THEN Fail ELSE
  LET whr == IF IsKw(T, frm.p, "where") THEN Cond(T, frm.p + 1, FALSE) ELSE OK(frm.p, NoCond) IN
  IF ~whr.ok THEN Fail ELSE
  LET isG == IsKw(T, whr.p, "group")
      grp == IF isG
             THEN IF IsKw(T, whr.p + 1, "by") THEN NameList(T, whr.p + 2, <<>>) ELSE Fail
             ELSE OK(whr.p, <<>>) IN
  IF ~grp.ok THEN Fail ELSE
  LET hav == IF isG /\ IsKw(T, grp.p, "having") THEN Cond(T, grp.p + 1, TRUE)
             ELSE OK(grp.p, NoCond) IN
  IF ~hav.ok THEN Fail ELSE
  LET ord == IF IsKw(T, hav.p, "order")
             THEN IF IsKw(T, hav.p + 1, "by") THEN OrderList(T, hav.p + 2, <<>>) ELSE Fail
             ELSE OK(hav.p, <<>>) IN
  IF ~ord.ok THEN Fail ELSE
  LET ol == OffLim(T, ord.p) IN
  IF ~ol.ok THEN Fail ELSE
  LET fr == ForClause(T, ol.p) IN
  IF ~fr.ok THEN Fail
  ELSE IF ~(IF isSub THEN IsP(T, fr.p, ")") ELSE fr.p = Len(T) + 1) THEN Fail
  ELSE OK(fr.p,
    [ fields |-> sel.v, from |-> frm.v, where |-> whr.v, group |-> grp.v,
      having |-> hav.v, order |-> ord.v,
      lim |-> ol.v.lim, off |-> ol.v.off, for |-> fr.v ])

(* The language: *)
ParseTokens(T) == Query(T, 1, FALSE)
-----------------------------------------------------------------------------
(* Where an alias of an object is at the same time the name of an object or   *)
(* a relationship, SOQL does not say which one a name means.  Clear(q): that   *)
(* is not so.  (Aliases may only start names, after their declaration.)        *)
RECURSIVE CondItems(_), ItemNames(_), ItemSubs(_)
CondItems(c) ==
  CASE c.op = "none" -> <<>>
    [] c.op = "cmp" -> << c.a, c.b >>
    [] c.op = "not" -> CondItems(c.x)
    [] OTHER -> CondItems(c.x) \o CondItems(c.y)
ItemNames(f) ==   \* without the last component
  CASE f.ty = "Field" -> { Front(f.n) }
    [] f.ty = "Function" -> UNION { ItemNames(f.ps[i]) : i \in DOMAIN f.ps }
    [] OTHER -> {}
ItemSubs(f) == IF f.ty = "SubQuery" THEN << f.sub[1] >> ELSE <<>>
ItemsOf(q) == q.fields \o CondItems(q.where) \o q.group \o CondItems(q.having)
              \o [ i \in DOMAIN q.order |-> q.order[i].f ]
InnerComps(n) == { n[i] : i \in 2..Len(n) }
RECURSIVE ClearIn(_, _, _), ClearScope(_), AliasesIn(_)
AliasesIn(q) == { q.from[i].al : i \in DOMAIN q.from } \cup UNION { AliasesIn(ItemSubs(f)[1]) : f \in { g \in ToSet(q.fields) : g.ty = "SubQuery" } }
(* al: all aliases of the query and the queries around it and inside;         *)
(* top: the names of the object everything starts at, and all aliases; a        *)
(* subquery that is about one of these itself is left open, too                 *)
ClearIn(q, al, top) ==
  /\ \A i \in DOMAIN q.from :
       /\ InnerComps(q.from[i].n) \cap al = {}
       /\ q.from[i].al # "" => \A j \in 1..i : q.from[j].n[1] # q.from[i].al
  /\ \A f \in ToSet(ItemsOf(q)) : \A n \in ItemNames(f) : InnerComps(n) \cap al = {}
  /\ \A f \in ToSet(q.fields) : f.ty = "SubQuery" =>
       /\ { q.from[i].n[1] : i \in DOMAIN q.from } \cap AliasesIn(f.sub[1]) = {}
       /\ Len(f.sub[1].from[1].n) = 1 => f.sub[1].from[1].n[1] \notin top
       /\ ClearIn(f.sub[1], al, top)
  /\ \A f \in ToSet(CondItems(q.where) \o CondItems(q.having)) : f.ty = "SubQuery" =>
       ClearScope(f.sub[1])
ClearScope(q) == LET al == AliasesIn(q) \ { "" } IN ClearIn(q, al, al \cup { q.from[1].n[1] })
Clear(q) == ClearScope(q)
(* the same of the aliases of one list of objects only: none is in use as the  *)
(* name of a relationship before it is declared                                *)
RECURSIVE DeclaredIn(_, _)
DeclaredIn(q, top) ==   \* top: of a query that is not in a select list
  /\ \A i \in DOMAIN q.from : \A j \in 1..(i - 1) :
       q.from[i].al # "" /\ q.from[j].n[1] = q.from[i].al /\ ~(top /\ j = 1)
       => \E k \in 1..j : q.from[k].al = q.from[i].al
  (* no field of the first object in GROUP BY, with its name qualified, looks like *)
  (* the alias of an item                                                          *)
  /\ \A k \in DOMAIN q.group : Len(q.group[k].n) = 2 /\ q.group[k].n[1] \in { q.from[1].al, Last(q.from[1].n) } =>
       \A j \in DOMAIN q.fields : q.fields[j].al # Last(q.group[k].n)
  /\ \A f \in ToSet(q.fields) : f.ty = "SubQuery" => DeclaredIn(f.sub[1], FALSE)
  /\ \A f \in ToSet(CondItems(q.where) \o CondItems(q.having)) :
       f.ty = "SubQuery" => DeclaredIn(f.sub[1], TRUE)
Declared(q) == DeclaredIn(q, TRUE)
=============================================================================
