------------------------------- MODULE SoqlGen -------------------------------
(***************************************************************************)
(* Query generator: derives token sequences from the grammar under a       *)
(* profile W of weights (percentages), steered by the scoping rules so     *)
(* that most of them are meaningful; some are spoilt on purpose (W.err:     *)
(* a rule of the normalizer is broken, W.mut: the token sequence is).       *)
(***************************************************************************)
EXTENDS SoqlBase, SoqlRandom

Tk(k, l, t) == [ k |-> k, l |-> l, t |-> t, c |-> "", v |-> "", r |-> "" ]
Kw(w) == Tk("id", w, w)
Pu(p) == Tk("p", p, p)
Op(o) == Tk("op", o, o)
Lit(c, v, r) == [ Tk("lit", r, r) EXCEPT !.c = c, !.v = v, !.r = r ]
Par(n) == Tk("par", n, n)
Dtn(n, v) == [ Tk("dtn", n, n) EXCEPT !.v = v ]

(* quoted names, the only ones with blanks, dots or reserved words *)
Quoted == { "v.w", "x y", "from", "select", "a\"b", "1st", "", "u{e9}t", "u{3c3}x", "u{3c2}x",
            "u{44f}u{1f600}", "-- x", "it's" }
NameTok(n) == IF n \in Quoted THEN Tk("qid", n, n) ELSE Kw(n)

Objs == << "acc", "contact", "opp", "order1", "fromage", "x y" >>
(* u{h}: the character with hexadecimal code h (drv/codec.go).  u{3c3} and    *)
(* u{3c2} are two small letters with the same capital: different names         *)
Long1 == "a_rather_long_name_of_a_custom_relationship_that_goes_on_and_on_and_on_and_on_until_1"
Long2 == "a_rather_long_name_of_a_custom_relationship_that_goes_on_and_on_and_on_and_on_until_2"
Rels == << "owner", "parent", "acct", "groupie", "limits", "v.w", "rel7", "own", "v", "w",
           "u{3c3}x", "u{3c2}x", "parent_", Long1 >>
Subs == << "cases", "notes", "tasks", "orders", "formats", "note", "u{e9}t" >>
Flds == << "id", "name", "amt", "city", "selected", "not_x", "inx", "null1",
           "today_", "v.w", "from", "a\"b", "f9", "$c", "u{44f}u{1f600}", "-- x", "it's",
           Long1, Long2, "i", "nam", "name_" >>
(* words that are keywords somewhere else, legal as names in most places *)
Wild == << "asc", "desc", "nulls", "first", "last", "by", "and", "or", "like",
           "in", "true", "null", "today", "for", "group", "order", "view",
           "reference", "update", "tracking", "count", "not", "infinity",
           "nan", "includes", "fields", "on", "using", "with", "all" >>
FldAls == << "f1", "f2", "f3", "nx", "expr0", "expr1", "fnx", "descx", "forx", "ex" >>
ObjAls == << << "a1", "a2", "a3", "a4" >>, << "b1", "b2", "b3", "b4" >>,
             << "c1", "c2", "c3", "c4" >>, << "d1", "d2", "d3", "d4" >>,
             << "e1", "e2", "e3", "e4" >> >>
Fns == << "upper", "lower", "sum", "max", "tolabel", "format", "f_n", "selector" >>
AggFns == << "max", "sum", "min", "avg" >>
Params == << "p", "p1", "from_p", "lim", "true1" >>

Lits ==
  << Lit("Int", "0", "0"), Lit("Int", "42", "42"), Lit("Int", "-5", "-5"),
     Lit("Int", "7", "+7"), Lit("Int", "1000000", "1_000_000"),
     Lit("Int", "9223372036854775807", "9223372036854775807"),
     Lit("IntR", "31", "0x1F"), Lit("IntR", "5", "0b101"), Lit("IntR", "15", "0o17"),
     Lit("Float", "1.5", "1.5"), Lit("Float", "-0.25", "-0.25"),
     Lit("Float", "1000", "1e3"), Lit("Float", "0.0025", "2.5e-3"),
     Lit("Float", "-Inf", "-Infinity"),
     Lit("String", "abc", "'abc'"), Lit("String", "", "''"),
     Lit("String", "it's", "'it\\'s'"), Lit("String", "a -- b", "'a -- b'"),
     Lit("String", "/* c */ select", "'/* c */ select'"),
     Lit("String", "a\"b(c)", "'a\"b(c)'"), Lit("String", "100\\%", "'100\\%'"),
     Lit("String", "u{e9}u{2028}u{1f600} <&>", "'u{e9}u{2028}u{1f600} <&>'"),
     Lit("String", "a\nb\tc\\", "'a\\nb\\tc\\\\'"), Lit("String", " x ", "' x '"),
     Lit("String", Long1 \o Long1 \o Long1, "'" \o Long1 \o Long1 \o Long1 \o "'"),
     Lit("Int", "-9223372036854775808", "-9223372036854775808"),
     Lit("Int", "9007199254740993", "9007199254740993"),
     Lit("Float", "1e+300", "1e300"), Lit("Float", "0.1", "0.1"), Lit("Float", "5e-324", "5e-324"),
     Lit("Float", "3", "3.0"), Lit("Date", "0001-01-01", "0001-01-01"), Lit("Date", "9999-12-31", "9999-12-31"),
     Lit("DateTime", "0001-01-01T00:00:00Z", "0001-01-01T00:00:00Z"),
     Lit("DateTime", "9999-12-31T23:59:59.999Z", "9999-12-31T23:59:59.999Z"),
     Lit("DateTime", "2020-02-29T23:59:59.123456789Z", "2020-03-01T05:29:59.123456789+05:30"),
     Lit("Time", "23:59:59.999", "23:59:59.999"),
     Lit("Date", "2020-02-29", "2020-02-29"), Lit("Date", "1999-12-31", "1999-12-31"),
     Lit("DateTime", "2020-01-02T03:04:05Z", "2020-01-02T03:04:05Z"),
     Lit("DateTime", "2019-12-31T22:30:00Z", "2020-01-01T00:30:00+02:00"),
     Lit("Time", "12:34:56", "12:34:56"), Lit("Time", "00:00:00", "00:00"),
     Kw("true"), Kw("false"), Kw("null"), Kw("infinity"), Kw("nan"),
     Kw("today"), Kw("last_week"), Kw("next_90_days"), Kw("this_fiscal_quarter"),
     Kw("last_fiscal_year"), Kw("tomorrow"),
     Dtn("last_n_days", "3"), Dtn("next_n_fiscal_quarters", "12"), Dtn("last_n_years", "1"),
     Par("p"), Par("p1"), Par("from_p") >>
PlainLits == SelectSeq(Lits, LAMBDA t : t.k = "lit")
Ints == SelectSeq(Lits, LAMBDA t : t.k = "lit" /\ t.c = "Int")

-----------------------------------------------------------------------------
Join(seqs, sep) ==
  FlattenSeq([ i \in DOMAIN seqs |-> IF i = 1 THEN seqs[1] ELSE sep \o seqs[i] ])
Comma == << Pu(",") >>
NameToks(n) == Join([ i \in DOMAIN n |-> << NameTok(n[i]) >> ], << Pu(".") >>)
Paren(ts) == << Pu("(") >> \o ts \o << Pu(")") >>
Seqn(n) == [ i \in 1..n |-> i ]

(* a relationship path of 0..2 steps, seldom more *)
RelPath(s, W) ==
  IF ~Pct(s, 1, W.impl) THEN <<>>
  ELSE IF Pct(s, 5, 6) THEN [ i \in 1..(3 + Below(D(s, 6), 4)) |-> Pick(s, 6 + i, Rels) ]
  ELSE IF Pct(s, 2, 30) THEN << Pick(s, 3, Rels), Pick(s, 4, Rels) >>
  ELSE << Pick(s, 3, Rels) >>
FieldName(s, W) ==
  IF Pct(s, 1, W.wild) THEN Pick(s, 2, Wild)
  ELSE IF W.fewf THEN Pick(s, 3, SubSeq(Flds, 1, 3)) ELSE Pick(s, 3, Flds)

(* C: own - qualifiers denoting objects of this query; up - qualifiers      *)
(* denoting the primary object of the enclosing query (select subqueries)   *)
OwnRef(s, C, W) ==
  Pick(s, 1, C.own) \o RelPath(D(s, 2), W) \o << FieldName(D(s, 3), W) >>
UpRef(s, C, W) == Pick(s, 1, C.up) \o << FieldName(D(s, 3), W) >>
CondRef(s, C, W) ==
  IF C.up # <<>> /\ Pct(s, 9, W.cor) THEN UpRef(s, C, W) ELSE OwnRef(s, C, W)
(* a reference that may break a rule: item of an enclosing object *)
SelRef(s, C, W) ==
  IF C.up # <<>> /\ Pct(s, 9, W.err) THEN UpRef(s, C, W) ELSE OwnRef(s, C, W)

GAgg(s, C, W) ==
  CASE Pct(s, 1, 20) -> << Kw("count"), Pu("("), Pu(")") >>
    [] Pct(s, 2, 25) -> << Kw("count") >> \o Paren(NameToks(OwnRef(D(s, 3), C, W)))
    [] Pct(s, 4, 25) -> << Kw("count_distinct") >> \o Paren(NameToks(OwnRef(D(s, 3), C, W)))
    [] OTHER -> << Kw(Pick(s, 5, AggFns)) >> \o Paren(NameToks(OwnRef(D(s, 3), C, W)))

RECURSIVE GFn(_, _, _, _)
(* function call over references drawn by `ref` (1: conditions, 2: select) *)
GParam(s, C, W, d) ==
  IF d > 0 /\ Pct(s, 1, W.nest) THEN GFn(D(s, 2), C, W, d - 1)
  ELSE IF Pct(s, 6, W.cnt) THEN GAgg(D(s, 7), C, W)
  ELSE IF Pct(s, 3, 25)
  THEN LET l == Pick(s, 4, Lits) IN IF l.k \in { "dtn", "id" } THEN << Par("p") >> ELSE << l >>
  ELSE NameToks(IF C.cond THEN CondRef(D(s, 5), C, W) ELSE SelRef(D(s, 5), C, W))
GFn(s, C, W, d) ==
  LET n == IF W.k > 1 /\ Pct(s, 8, 10) THEN 4 + Below(D(s, 9), 3 * W.k) ELSE Pick(s, 2, << 0, 1, 1, 1, 2, 3 >>) IN
  << Kw(Pick(s, 1, Fns)) >>
  \o Paren(Join([ i \in 1..n |-> GParam(D(s, 10 + i), C, W, d) ], Comma))

GList(s, W) ==
  Paren(Join([ i \in 1..(1 + Below(D(s, 1), 3 * W.k)) |-> << Pick(s, 1 + i, Lits) >> ], Comma))

CmpOps == << << Op("=") >>, << Op("!=") >>, << Op("<") >>, << Op("<=") >>,
             << Op(">") >>, << Op(">=") >>, << Kw("like") >>, << Kw("not"), Kw("like") >> >>
SetOps == << << Kw("in") >>, << Kw("not"), Kw("in") >>, << Kw("includes") >>,
             << Kw("excludes") >> >>

-----------------------------------------------------------------------------
RECURSIVE GQuery(_, _, _, _, _)

(* right-hand side of a set operator or (rarely) of any other *)
GSetRhs(s, W, d) ==
  IF d > 0 /\ Pct(s, 1, W.csub) THEN Paren(GQuery(D(s, 2), "cond", <<>>, W, d - 1))
  ELSE IF Pct(s, 3, 90) THEN GList(D(s, 4), W) ELSE << Pick(s, 5, Lits) >>

GCmp(s, C, W, d) ==
  LET a == IF Pct(s, 1, W.fn) THEN GFn(D(s, 2), [ C EXCEPT !.cond = TRUE ], W, 1)
           ELSE NameToks(CondRef(D(s, 2), C, W))
  IN IF Pct(s, 3, 25)
     THEN a \o Pick(s, 4, SetOps) \o GSetRhs(D(s, 5), W, d)
     ELSE a \o Pick(s, 4, CmpOps)
          \o CASE Pct(s, 6, W.xobj) -> NameToks(CondRef(D(s, 7), C, W))
               [] Pct(s, 8, W.fn) -> GFn(D(s, 7), [ C EXCEPT !.cond = TRUE ], W, 1)
               [] OTHER -> << Pick(s, 9, Lits) >>

GHavCmp(s, C, G, W, d) ==
  LET a == IF G # <<>> /\ Pct(s, 1, 20) THEN << Kw(Pick(s, 2, Fns)) >> \o Paren(NameToks(Pick(s, 3, G)))
           ELSE GAgg(D(s, 2), C, W)
  IN IF Pct(s, 3, 15)
     THEN a \o Pick(s, 4, SetOps) \o GSetRhs(D(s, 5), W, d)
     ELSE a \o Pick(s, 4, CmpOps)
          \o IF Pct(s, 6, 15) THEN GAgg(D(s, 7), C, W) ELSE << Pick(s, 9, Lits) >>

RECURSIVE GCond(_, _, _, _, _, _)
(* n: number of comparisons; hav: <<>> or <<group names>> *)
GCond(s, n, C, W, d, hav) ==
  IF n = 1
  THEN LET c == IF hav = <<>> THEN GCmp(D(s, 1), C, W, d)
                ELSE GHavCmp(D(s, 1), C, hav[1], W, d)
           c0 == IF Pct(s, 2, W.paren) THEN Paren(c) ELSE c
           c1 == IF Pct(s, 8, 4)    \* wrapped several times
                 THEN FoldLeft(LAMBDA a, i : Paren((IF Pct(s, 30 + i, 2 * W.not) THEN << Kw("not") >> ELSE <<>>) \o a), c0, Seqn(1 + Below(D(s, 9), 5)))
                 ELSE c0
       IN IF Pct(s, 3, W.not) THEN << Kw("not") >> \o c1 ELSE c1
  ELSE LET m == 1 + Below(D(s, 4), n - 1)
           l == GCond(D(s, 5), m, C, W, d, hav)
           r == GCond(D(s, 6), n - m, C, W, d, hav)
           o == << Kw(IF Pct(s, 7, W.orp) THEN "or" ELSE "and") >>
           wrap(x, k) == IF ~Pct(s, k, W.paren) THEN x
                         ELSE IF Pct(s, k + 1, W.not) THEN << Kw("not") >> \o Paren(x)
                         ELSE IF Pct(s, k + 2, 15) THEN Paren(Paren(x)) ELSE Paren(x)
       IN wrap(l, 10) \o o \o wrap(r, 20)

-----------------------------------------------------------------------------
(* FROM: returns [t, own, prim]; prim - names of the primary object *)
GFrom(s, place, up, W, d) ==
  LET lvl == IF Pct(s, 1, 4) THEN 1 ELSE 5 - d
      als == ObjAls[IF lvl < 1 THEN 1 ELSE lvl]
      aliased == Pct(s, 2, W.oal)
      rel0 == Pick(s, 3, Subs)
      head == IF place # "select" THEN << Pick(s, 4, Objs) >>
              ELSE CASE Pct(s, 5, 60) -> << rel0 >>
                     [] OTHER -> Pick(s, 6, up) \o << rel0 >>
      a0   == IF aliased THEN << als[1] >> ELSE <<>>
      prim == (IF aliased THEN << a0 >> ELSE <<>>) \o
              (IF place # "select" THEN << head >> ELSE
               IF Len(head) = 2 THEN << head >> ELSE <<>>)
      n    == IF Pct(s, 7, W.multi) THEN (IF W.k = 1 THEN Pick(s, 8, << 1, 1, 2, 3 >>) ELSE 1 + Below(D(s, 8), 3 * W.k)) ELSE 0
      (* a further object: relative to a name of the primary object, or to one before *)
      ea(i) == IF i > 0 /\ Pct(s, 70 + i, 50) THEN << IF i < 4 THEN als[i + 1] ELSE als[1] \o ToString(i) >> ELSE <<>>
      ext(i) ==
        LET q == IF ea(i - 1) # <<>> /\ Pct(s, 80 + i, 30) THEN ea(i - 1)
                 ELSE IF place # "select" /\ Pct(s, 20 + i, 30) THEN <<>>
                 ELSE IF prim = <<>> THEN <<>> ELSE Pick(s, 30 + i, prim)
            p == q \o << Pick(s, 40 + i, Rels) >>
                 \o (IF Pct(s, 50 + i, 25) THEN << Pick(s, 60 + i, Rels) >> ELSE <<>>)
        IN [ p |-> p, a |-> ea(i),
             ok |-> place # "select" \/ prim # <<>> ]
      exts == SelectSeq([ i \in 1..n |-> ext(i) ], LAMBDA e : e.ok)
      dup  == IF n > 0 /\ Pct(s, 9, W.dup) THEN << [ p |-> Pick(s, 10, exts \o << [ p |-> << "owner" >> ] >>).p,
                                         a |-> <<>>, ok |-> TRUE ] >> ELSE <<>>
      bad  == IF n > 0 /\ exts # <<>> /\ Pct(s, 11, W.err)
              THEN IF place = "select" \/ (aliased /\ Pct(s, 12, 50))
                   THEN IF aliased THEN << [ exts[1] EXCEPT !.a = a0 ] >> ELSE <<>>
                   ELSE IF head[1] \in Quoted THEN <<>> ELSE << [ exts[1] EXCEPT !.a = head ] >>     (* it would hide the first object *)
              ELSE <<>>
      all  == exts \o (IF place = "select" THEN <<>> ELSE dup) \o bad
      item(nm, a) == NameToks(nm) \o (IF a = <<>> THEN <<>> ELSE << Kw(a[1]) >>)
  IN [ t |-> << Kw("from") >> \o
             Join(<< item(head, a0) >> \o [ i \in DOMAIN all |-> item(all[i].p, all[i].a) ], Comma),
       prim |-> prim,
       own |-> << <<>>, <<>> >> \o prim
               \o FlattenSeq([ i \in DOMAIN exts |->
                    IF exts[i].a # <<>> THEN << exts[i].a, exts[i].a >>
                    ELSE << exts[i].p >> ]) ]

FldAl(i) == FldAls[1 + ((i - 1) % Len(FldAls))] \o (IF i > Len(FldAls) THEN "_" \o ToString(i) ELSE "")
NameAls == << "name", "owner", "id", "contact", "acct", "city", "amt", "parent" >>
FldAlSet == { FldAl(i) : i \in 1..60 } \cup ToSet(NameAls)
FAlias(s, W, i) ==
  IF ~Pct(s, 1, W.fal) THEN <<>>
  ELSE IF Pct(s, 3, W.err) THEN << Kw("f1") >>
  ELSE IF Pct(s, 2, W.wild) THEN << Kw(Pick(s, 4, Wild)) >>
  ELSE IF Pct(s, 5, W.nameal)    (* the name of a field, a relationship, an object *)
  THEN << Kw(NameAls[1 + ((i + Below(D(s, 6), 2)) % Len(NameAls))]) >>
  ELSE << Kw(FldAl(i)) >>

GSelItem(s, C, W, d, i, k) ==   \* k: number of items
  CASE d > 0 /\ Pct(s, 1, W.sub) /\ C.prim # <<>> ->
         Paren(GQuery(D(s, 2), "select", C.prim, W, d - 1)) \o FAlias(D(s, 7), W, i)
    [] Pct(s, 3, W.fn) -> (IF Pct(s, 11, 5) THEN GFn(D(s, 4), C, [ W EXCEPT !.nest = 80 ], 5) ELSE GFn(D(s, 4), C, W, 2)) \o FAlias(D(s, 7), W, i)
    [] Pct(s, 5, W.fset) ->
         << Kw("fields") >> \o Paren(NameToks(
             (IF C.prim # <<>> /\ Pct(s, 6, 50) THEN C.prim[1] ELSE <<>>)
             \o << Pick(s, 8, << "all", "custom", "standard" >>) >>))
    [] OTHER -> NameToks(SelRef(D(s, 4), C, W)) \o FAlias(D(s, 7), W, i)

(* one aggregated or grouped item; G: grouped names (may be aliases) *)
GAggItem(s, C, G, W, i) ==
  IF G # <<>> /\ Pct(s, 1, 50)
  THEN NameToks(IF Pct(s, 2, W.err) THEN OwnRef(D(s, 3), C, W) ELSE Pick(s, 4, G)) \o FAlias(D(s, 7), W, i)
  ELSE IF G # <<>> /\ Pct(s, 5, 20)
  THEN << Kw(Pick(s, 6, Fns)) >> \o Paren(<< Kw("lower") >> \o Paren(NameToks(Pick(s, 4, G))))
       \o FAlias(D(s, 7), W, i)
  ELSE IF Pct(s, 9, W.plainagg) THEN GFn(D(s, 8), C, W, 1) \o FAlias(D(s, 7), W, i)
  ELSE GAgg(D(s, 8), C, W) \o FAlias(D(s, 7), W, i)

GOrderItem(s, C, W, al) ==
  (IF al # <<>> /\ Pct(s, 1, 45) THEN << Kw(Pick(s, 2, al)) >>
   ELSE LET r == OwnRef(D(s, 3), C, IF Pct(s, 4, W.err) THEN W ELSE [ W EXCEPT !.impl = 0 ])
        IN NameToks(r))
  \o (CASE Pct(s, 5, 30) -> << Kw("asc") >> [] Pct(s, 6, 50) -> << Kw("desc") >> [] OTHER -> <<>>)
  \o (CASE Pct(s, 7, 25) -> << Kw("nulls"), Kw("first") >>
        [] Pct(s, 8, 35) -> << Kw("nulls"), Kw("last") >> [] OTHER -> <<>>)

(* each name once *)
Uniq(ns) == FoldLeft(LAMBDA a, n : IF Contains(a, n) THEN a ELSE Append(a, n), <<>>, ns)
OrderKey(ts) == LET n == SelectSeq(ts, LAMBDA t : t.l \notin { "asc", "desc", "nulls", "first", "last" }) IN
                IF n = <<>> THEN ts ELSE n
UniqOrder(is, whole) ==   \* mostly: each last component once
  LET key(x) == IF whole THEN OrderKey(x) ELSE << Last(OrderKey(x)).l >> IN
  FoldLeft(LAMBDA a, x : IF OrderKey(x) # <<>> /\ \E j \in DOMAIN a : key(a[j]) = key(x) THEN a ELSE Append(a, x), <<>>, is)
GAmount(s) == IF Pct(s, 1, 35) THEN << Par(Pick(s, 2, Params)) >> ELSE << Pick(s, 3, Ints) >>
GOffLim(s) ==
  LET l == << Kw("limit") >> \o GAmount(D(s, 1))
      o == << Kw("offset") >> \o GAmount(D(s, 2))
  IN Pick(s, 3, << l, o, l \o o, o \o l >>)
Fors == << << Kw("view") >>, << Kw("reference") >>, << Kw("view"), Pu(","), Kw("reference") >>,
           << Kw("reference"), Pu(","), Kw("view") >>, << Kw("update") >>,
           << Kw("update"), Kw("tracking") >>, << Kw("update"), Kw("viewstat") >>,
           << Kw("update"), Kw("tracking"), Pu(","), Kw("viewstat") >>,
           << Kw("update"), Kw("viewstat"), Pu(","), Kw("tracking") >> >>

(* up: names of the enclosing primary object (select subqueries) *)
GQuery(s, place, up, W, d) ==
  LET f  == GFrom(D(s, 1), place, up, W, d)
      C  == [ own |-> f.own, prim |-> f.prim, up |-> up, cond |-> FALSE ]
      grp == Pct(s, 2, IF place = "select" THEN W.group \div 3 ELSE W.group)
      agg == grp \/ Pct(s, 3, IF place = "select" THEN W.agg \div 4 ELSE W.agg)
      ng  == IF grp THEN 1 + Below(D(s, 4), 3 * W.k) ELSE 0
      G   == [ i \in 1..ng |-> OwnRef(D(s, 100 + i), C, W) ]
      n   == 1 + Below(D(s, 5), W.nsel)
      items == [ i \in 1..n |->
                  IF agg /\ ~Pct(s, 150 + i, W.err)
                  THEN GAggItem(D(s, 200 + i), C, G, W, i)
                  ELSE GSelItem(D(s, 200 + i), C, W, d, i, n) ]
      al  == [ i \in 1..n |-> IF items[i] # <<>> /\ Last(items[i]).l \in FldAlSet
                              THEN << Last(items[i]).l >> ELSE <<>> ]
      als == FlattenSeq(al)
      gnames == Uniq([ i \in 1..ng |-> IF als # <<>> /\ Pct(s, 300 + i, W.galias)
                                  THEN << Pick(s, 310 + i, als) >> ELSE G[i] ])
  IN << Kw("select") >> \o Join(items, Comma) \o f.t
     \o (IF Pct(s, 6, W.where)
         THEN << Kw("where") >> \o GCond(D(s, 7), 1 + Below(D(s, 8), W.ncmp), [ C EXCEPT !.cond = TRUE ], W, d, <<>>)
         ELSE <<>>)
     \o (IF grp THEN << Kw("group"), Kw("by") >>
                     \o Join([ i \in DOMAIN gnames |-> NameToks(gnames[i]) ], Comma) ELSE <<>>)
     \o (IF grp /\ Pct(s, 9, W.having)
         THEN << Kw("having") >> \o GCond(D(s, 10), 1 + Below(D(s, 11), 3 * W.k), C, W, d, << G >>)
         ELSE <<>>)
     \o (IF Pct(s, 12, W.order)
         THEN << Kw("order"), Kw("by") >>
              \o Join(UniqOrder([ i \in 1..(1 + Below(D(s, 13), 3 * W.k)) |-> GOrderItem(D(s, 400 + i), C, W, als) ], Pct(s, 18, 15)), Comma)
         ELSE <<>>)
     \o (IF Pct(s, 14, W.lim) THEN GOffLim(D(s, 15)) ELSE <<>>)
     \o (IF Pct(s, 16, W.for) THEN << Kw("for") >> \o Pick(s, 17, Fors) ELSE <<>>)

-----------------------------------------------------------------------------
(* Spoiling a token sequence *)
Strays == << Pu(","), Pu("("), Pu(")"), Pu("."), Kw("and"), Kw("or"), Kw("not"),
             Kw("select"), Kw("from"), Kw("where"), Kw("by"), Kw("group"),
             Kw("order"), Kw("limit"), Kw("offset"), Kw("for"), Kw("having"),
             Kw("view"), Kw("update"), Kw("like"), Kw("in"), Op("="), Op("<"),
             Kw("asc"), Kw("nulls"), Kw("zz"), Lit("Int", "3", "3"),
             Lit("String", "s", "'s'"), Par("p"), Kw("null"), Kw("using"),
             Tk("qid", "q q", "q q"), Tk("bad", "?", "?"), Tk("bad", ";", ";"),
             Tk("bad", "*", "*"), Tk("bad", "[", "["), Lit("Float", "1.5", "1.5"),
             Dtn("last_n_days", "2"), Kw("update"), Kw("tracking") >>
Mutate1(s, T) ==
  LET i == 1 + Below(D(s, 1), Len(T))
      j == 1 + Below(D(s, 2), Len(T))
      x == Pick(s, 3, Strays)
  IN CASE Below(D(s, 4), 6) = 0 -> SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, Len(T))
       [] Below(D(s, 4), 6) = 1 -> SubSeq(T, 1, i) \o SubSeq(T, i, Len(T))
       [] Below(D(s, 4), 6) = 2 -> SubSeq(T, 1, i - 1) \o << x >> \o SubSeq(T, i, Len(T))
       [] Below(D(s, 4), 6) = 3 -> [ T EXCEPT ![i] = x ]
       [] Below(D(s, 4), 6) = 4 -> [ T EXCEPT ![i] = T[j], ![j] = T[i] ]
       [] OTHER -> IF Pct(s, 5, 30) THEN SubSeq(T, 1, i) ELSE T \o << x >>
Mutate(s, T) == IF T = <<>> THEN T
                ELSE LET m == Mutate1(D(s, 1), T) IN
                     IF m # <<>> /\ Pct(s, 2, 30) THEN Mutate1(D(s, 3), m) ELSE m

Base ==
  [ nsel |-> 4, sub |-> 15, fn |-> 15, nest |-> 25, fset |-> 4, fal |-> 35,
    oal |-> 55, multi |-> 30, dup |-> 10, impl |-> 30, wild |-> 0, fewf |-> FALSE,
    where |-> 60, ncmp |-> 4, not |-> 15, paren |-> 35, orp |-> 45, xobj |-> 12,
    csub |-> 40, cor |-> 25, group |-> 12, agg |-> 6, galias |-> 25, having |-> 50,
    order |-> 35, lim |-> 30, for |-> 20, err |-> 2, mut |-> 0, depth |-> 3,
    plainagg |-> 15, cnt |-> 1, nameal |-> 3, k |-> 1, quo |-> 8 ]

(* profiles: what a check looks at closely *)
Flat == [ Base EXCEPT !.sub = 0, !.csub = 0, !.fset = 0, !.group = 0, !.agg = 0, !.err = 0 ]
Profile(p) ==
  CASE p = "all"    -> Base
    [] p = "syntax" -> [ Base EXCEPT !.mut = 75, !.wild = 12, !.depth = 2, !.ncmp = 3, !.nsel = 3 ]
    [] p = "wild"   -> [ Base EXCEPT !.wild = 35, !.err = 0 ]
    [] p = "clauses" -> [ Base EXCEPT !.order = 70, !.lim = 60, !.for = 50, !.group = 25, !.err = 0,
                                      !.wild = 8 ]
    [] p = "cond"   -> [ Flat EXCEPT !.where = 100, !.ncmp = 9, !.not = 0, !.paren = 45, !.nsel = 1,
                                     !.group = 25, !.having = 90, !.csub = 15, !.depth = 1 ]
    [] p = "not"    -> [ Flat EXCEPT !.where = 100, !.ncmp = 6, !.not = 45, !.paren = 55, !.nsel = 1,
                                     !.group = 25, !.having = 90, !.csub = 15, !.depth = 1, !.fewf = TRUE ]
    [] p = "filter" -> [ Flat EXCEPT !.where = 100, !.ncmp = 6, !.multi = 80, !.xobj = 15, !.not = 20,
                                     !.fewf = TRUE, !.nsel = 1, !.csub = 20, !.sub = 10, !.cor = 25, !.depth = 2 ]
    [] p = "names"  -> [ Base EXCEPT !.multi = 70, !.dup = 30, !.impl = 50, !.oal = 70, !.err = 4, !.fewf = TRUE,
                                     !.ncmp = 3, !.wild = 5 ]
    [] p = "subs"   -> [ Base EXCEPT !.sub = 45, !.csub = 75, !.where = 75, !.multi = 40, !.fewf = TRUE,
                                     !.ncmp = 3, !.nsel = 3, !.err = 0, !.group = 6, !.depth = 4 ]
    [] p = "cor"    -> [ Base EXCEPT !.sub = 55, !.cor = 60, !.where = 85, !.multi = 35, !.fewf = TRUE,
                                     !.ncmp = 3, !.nsel = 3, !.csub = 30, !.group = 0, !.agg = 0, !.err = 3 ]
    [] p = "agg"    -> [ Base EXCEPT !.group = 70, !.agg = 40, !.having = 75, !.galias = 40, !.fewf = TRUE,
                                     !.err = 4, !.sub = 6, !.nest = 40, !.plainagg = 20, !.cnt = 8, !.fn = 30, !.nameal = 45 ]
    [] p = "alias"  -> [ Base EXCEPT !.fal = 55, !.nsel = 7, !.fewf = TRUE, !.fn = 35, !.order = 80, !.err = 4,
                                     !.group = 20, !.sub = 8, !.wild = 3, !.nameal = 45 ]
    [] p = "values" -> [ Base EXCEPT !.where = 100, !.ncmp = 6, !.fn = 35, !.nest = 40, !.lim = 60, !.err = 0,
                                     !.having = 80 ]
    [] p = "big"    -> [ Base EXCEPT !.k = 5, !.nsel = 25, !.ncmp = 14, !.order = 70, !.multi = 80, !.impl = 45,
                                     !.sub = 12, !.csub = 12, !.depth = 1, !.err = 0, !.group = 15, !.where = 80,
                                     !.galias = 3, !.plainagg = 2, !.agg = 3 ]
    [] p = "rich"   -> [ Base EXCEPT !.nsel = 6, !.sub = 30, !.fn = 40, !.nest = 40, !.where = 95, !.ncmp = 5,
                                     !.order = 80, !.lim = 70, !.for = 60, !.multi = 70, !.err = 0, !.fset = 8,
                                     !.group = 15, !.depth = 2 ]
    [] OTHER -> Base

(* names may be quoted without need; next to a dot there is nothing but names  *)
Requote(s, T, W) ==
  [ i \in DOMAIN T |->
      IF /\ T[i].k = "id"
         /\ \/ i > 1 /\ T[i - 1].k = "p" /\ T[i - 1].l = "."
            \/ i < Len(T) /\ T[i + 1].k = "p" /\ T[i + 1].l = "."
            \/ i > 1 /\ T[i - 1].k = "op" /\ ~(i < Len(T) /\ T[i + 1].l = "(")
         /\ Pct(s, i, W.quo)
      THEN [ T[i] EXCEPT !.k = "qid" ] ELSE T[i] ]
GenQuery(s, W) ==
  LET T == GQuery(D(s, 1), "primary", <<>>, W, W.depth)
      U == Requote(D(s, 4), T, W)
  IN IF Pct(s, 2, W.mut) THEN Mutate(D(s, 3), U) ELSE U
=============================================================================
