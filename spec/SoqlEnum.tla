------------------------------ MODULE SoqlEnum ------------------------------
(***************************************************************************)
(* Exhaustive families of token sequences.  A family maps 1..Size to token   *)
(* sequences by mixed-radix decoding of the index.                           *)
(***************************************************************************)
EXTENDS SoqlGen

Dig(k, div, base) == (k \div div) % base
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

I(n) == << Kw(n) >>
Q1 == << Kw("select"), Kw("id"), Kw("from"), Kw("acc") >>
QO == << Kw("select"), Kw("id"), Kw("from"), Kw("acc"), Pu(","), Kw("acc"), Pu("."), Kw("owner"), Kw("o") >>
Num(n) == Lit("Int", ToString(n), ToString(n))
Str1 == Lit("String", "s", "'s'")
Flt1 == Lit("Float", "1.5", "1.5")
Date1 == Lit("Date", "2020-02-29", "2020-02-29")

-----------------------------------------------------------------------------
(* "tree": fully parenthesized and/or trees with n comparisons, each either  *)
(* about the primary object, about another object, about both, or computed   *)
Leaf(c, j) ==
  CASE c = 0 -> << Kw("f" \o ToString(j)), Op("="), Num(j) >>
    [] c = 1 -> << Kw("o"), Pu("."), Kw("g" \o ToString(j)), Op("="), Num(j) >>
    [] c = 2 -> << Kw("f" \o ToString(j)), Op("="), Kw("o"), Pu("."), Kw("g" \o ToString(j)) >>
    [] OTHER -> << Kw("upper"), Pu("("), Kw("f" \o ToString(j)), Pu(")"), Op("="), Num(j) >>
(* full binary trees: Cat(n) shapes; a shape of n leaves is the split point  *)
(* followed by the shapes of its halves                                      *)
Cat == << 1, 1, 2, 5, 14, 42 >>
RECURSIVE CatBefore(_, _)
CatBefore(n, m) == IF m = 1 THEN 0 ELSE CatBefore(n, m - 1) + Cat[m - 1] * Cat[n - m + 1]
RECURSIVE Tree(_, _, _, _, _)
(* shape index s < Cat[n]; leaves from j on; ops, classes coded as numbers    *)
Tree(n, s, j, ops, cls) ==
  IF n = 1 THEN Leaf(Dig(cls, Pow(4, j - 1), 4), j)
  ELSE LET m == CHOOSE m \in 1..(n - 1) : CatBefore(n, m) <= s /\ s < CatBefore(n, m) + Cat[m] * Cat[n - m]
           r == s - CatBefore(n, m)
           (* the operator between leaf j+m-1 and j+m *)
           o == IF Dig(ops, Pow(2, j + m - 2), 2) = 0 THEN "and" ELSE "or"
           w(x, k) == IF k = 1 THEN x ELSE Paren(x)
       IN w(Tree(m, r % Cat[m], j, ops, cls), m) \o I(o)
          \o w(Tree(n - m, r \div Cat[m], j + m, ops, cls), n - m)
TreeSize(n) == Cat[n] * Pow(2, n - 1) * Pow(4, n)
TreeCase(n, k) ==
  QO \o I("where") \o Tree(n, Dig(k, 1, Cat[n]), 1, Dig(k, Cat[n], Pow(2, n - 1)),
                           Dig(k, Cat[n] * Pow(2, n - 1), Pow(4, n)))

(* "flat": and/or chains of n comparisons with at most one parenthesized      *)
(* stretch, possibly negated, and any comparison possibly negated             *)
Stretch(n) == << <<0, 0>> >> \o FlattenSeq([ a \in 1..n |-> [ d \in 1..(n - a) |-> <<a, a + d>> ] ])
FlatSize(n) == Pow(2, n - 1) * Pow(2, n) * Len(Stretch(n)) * 2
FlatCase(n, k) ==
  LET ops == Dig(k, 1, Pow(2, n - 1))
      nots == Dig(k, Pow(2, n - 1), Pow(2, n))
      st == Stretch(n)[1 + Dig(k, Pow(2, n - 1) * Pow(2, n), Len(Stretch(n)))]
      ng == Dig(k, Pow(2, n - 1) * Pow(2, n) * Len(Stretch(n)), 2)
      item(j) ==
        (IF j = st[1] THEN (IF ng = 1 THEN I("not") ELSE <<>>) \o << Pu("(") >> ELSE <<>>)
        \o (IF Dig(nots, Pow(2, j - 1), 2) = 1 THEN I("not") ELSE <<>>)
        \o << Kw("f" \o ToString(j)), Op("<"), Num(j) >>
        \o (IF j = st[2] THEN << Pu(")") >> ELSE <<>>)
        \o (IF j = n THEN <<>> ELSE I(IF Dig(ops, Pow(2, j - 1), 2) = 1 THEN "or" ELSE "and"))
  IN Q1 \o I("where") \o FlattenSeq([ j \in 1..n |-> item(j) ])

-----------------------------------------------------------------------------
(* "tail": every continuation of up to n words of a number of openings        *)
Alphabet ==
  << Kw("where"), Kw("group"), Kw("by"), Kw("having"), Kw("order"), Kw("limit"),
     Kw("offset"), Kw("for"), Kw("view"), Kw("reference"), Kw("update"), Kw("tracking"),
     Kw("viewstat"), Kw("asc"), Kw("desc"), Kw("nulls"), Kw("first"), Kw("last"),
     Kw("and"), Kw("or"), Kw("not"), Kw("like"), Kw("in"), Kw("x"), Kw("null"),
     Kw("select"), Kw("from"), Pu(","), Pu("."), Pu("("), Pu(")"), Op("="),
     Num(3), Par("p"), Lit("String", "s", "'s'"), Tk("qid", "q q", "q q"),
     Dtn("last_n_days", "2"), Lit("Float", "1.5", "1.5") >>
LA == Len(Alphabet)
Cmp1 == << Kw("f"), Op("="), Num(1) >>
Openings ==
  << Q1, Q1 \o I("a"), Q1 \o << Pu(",") >>, Q1 \o I("where") \o Cmp1,
     Q1 \o I("where") \o I("not"), Q1 \o I("where") \o << Pu("(") >> \o Cmp1,
     Q1 \o I("where") \o << Kw("f"), Kw("in") >>, Q1 \o I("where") \o << Kw("f"), Op("=") >>,
     Q1 \o I("where") \o << Kw("f") >>, Q1 \o I("group") \o I("by") \o I("id"),
     Q1 \o I("group") \o I("by") \o I("id") \o I("having") \o << Kw("max"), Pu("("), Kw("x"), Pu(")") >>,
     Q1 \o I("order") \o I("by") \o I("id"), Q1 \o I("order") \o I("by") \o I("id") \o I("nulls"),
     Q1 \o I("limit"), Q1 \o I("limit") \o << Num(1) >>, Q1 \o I("offset") \o << Par("p") >>,
     Q1 \o I("for"), Q1 \o I("for") \o I("view"), Q1 \o I("for") \o I("update"),
     Q1 \o I("for") \o << Kw("update"), Kw("tracking"), Pu(",") >>,
     << Kw("select") >>, << Kw("select"), Kw("id") >>, << Kw("select"), Kw("id"), Kw("from") >>,
     << Kw("select"), Kw("id"), Pu(",") >>, << Kw("select"), Kw("fn"), Pu("(") >>,
     << Kw("select"), Pu("("), Kw("select"), Kw("id"), Kw("from"), Kw("cases") >>,
     Q1 \o I("where") \o << Kw("f"), Kw("in"), Pu("("), Kw("select"), Kw("id"), Kw("from"), Kw("opp") >>,
     <<>> >>
Closings == << <<>>, I("from") \o I("acc"), << Pu(")") >>, << Pu(")"), Kw("from"), Kw("acc") >> >>
(* the closings that make sense after the opening number b *)
ClosingOf(b) == CASE b \in {6, 7, 27} -> Closings[3] [] b \in {22, 24} -> Closings[2]
                  [] b \in {25, 26} -> Closings[4] [] OTHER -> Closings[1]
TailSize(n) == Len(Openings) * 2 * Pow(LA, n)
TailCase(n, k) ==
  LET b == 1 + Dig(k, 1, Len(Openings))
      c == Dig(k, Len(Openings), 2)
      t == [ j \in 1..n |-> Alphabet[1 + Dig(k, Len(Openings) * 2 * Pow(LA, j - 1), LA)] ]
  IN Openings[b] \o t \o (IF c = 0 THEN <<>> ELSE ClosingOf(b))

(* "edit": every deletion, substitution and insertion of one word            *)
Exemplars ==
  << << Kw("select"), Kw("id"), Kw("al"), Pu(","), Kw("upper"), Pu("("), Kw("a"), Pu("."), Kw("b"), Pu(","),
        Num(1), Pu(")"), Kw("f1"), Pu(","), Pu("("), Kw("select"), Kw("id"), Kw("from"), Kw("cases"), Kw("c"),
        Kw("limit"), Num(1), Pu(")"), Kw("from"), Kw("acc"), Kw("a"), Pu(","), Kw("a"), Pu("."), Kw("owner"), Kw("o") >>,
     QO \o I("where") \o << Kw("not"), Pu("("), Kw("id"), Op("="), Num(1), Kw("or"), Kw("o"), Pu("."), Kw("id"),
        Kw("not"), Kw("like"), Lit("String", "s", "'s'"), Pu(")"), Kw("and"), Kw("x"), Kw("not"), Kw("in"), Pu("("),
        Num(1), Pu(","), Kw("null"), Pu(")"), Kw("and"), Kw("y"), Kw("in"), Pu("("), Kw("select"), Kw("id"), Kw("from"), Kw("opp"), Pu(")") >>,
     << Kw("select"), Kw("id"), Kw("i"), Pu(","), Kw("max"), Pu("("), Kw("x"), Pu(")"), Kw("m"), Kw("from"), Kw("acc"),
        Kw("where"), Kw("id"), Op(">="), Dtn("last_n_days", "2"), Kw("group"), Kw("by"), Kw("id"), Pu(","), Kw("acc"), Pu("."), Kw("z"),
        Kw("having"), Kw("not"), Kw("max"), Pu("("), Kw("x"), Pu(")"), Op("<"), Num(3), Kw("or"), Kw("count"), Pu("("), Pu(")"), Op("="), Par("p") >>,
     Q1 \o << Kw("order"), Kw("by"), Kw("id"), Kw("desc"), Kw("nulls"), Kw("last"), Pu(","), Kw("name"), Kw("asc"),
        Kw("limit"), Num(5), Kw("offset"), Par("o"), Kw("for"), Kw("update"), Kw("tracking"), Pu(","), Kw("viewstat") >>,
     Q1 \o << Kw("a"), Kw("offset"), Num(5), Kw("limit"), Par("o"), Kw("for"), Kw("view"), Pu(","), Kw("reference") >>,
     Q1 \o << Kw("for"), Kw("update"), Kw("viewstat"), Pu(","), Kw("tracking") >>,
     Q1 \o << Kw("for"), Kw("reference"), Pu(","), Kw("view") >>,
     << Kw("select"), Kw("fn"), Pu("("), Kw("gn"), Pu("("), Pu(")"), Pu(","), Str1, Pu(","), Flt1, Pu(","), Par("p"), Pu(","), Kw("x"), Pu("."), Tk("qid", "q q", "q q"), Pu(")"),
        Kw("from"), Tk("qid", "q q", "q q"), Kw("where"), Kw("fn"), Pu("("), Kw("x"), Pu(")"), Op("!="), Kw("gn"), Pu("("), Num(1), Pu(")"),
        Kw("or"), Tk("qid", "q q", "q q"), Pu("."), Kw("y"), Op("<="), Date1 >>,
     Q1 \o << Kw("group"), Kw("by"), Kw("id"), Kw("having"), Kw("max"), Pu("("), Kw("x"), Pu(")"), Op("<"), Num(3), Kw("and"), Kw("count"), Pu("("), Pu(")"), Op("="), Par("p"),
        Kw("and"), Kw("not"), Kw("min"), Pu("("), Kw("y"), Pu(")"), Op(">"), Num(2), Kw("or"), Pu("("), Kw("count"), Pu("("), Pu(")"), Kw("in"), Pu("("), Num(1), Pu(")"), Pu(")") >> >>
EditsOf(T) == Len(T) * (1 + LA) + (Len(T) + 1) * LA
RECURSIVE EditBefore(_)
EditBefore(e) == IF e = 1 THEN 0 ELSE EditBefore(e - 1) + EditsOf(Exemplars[e - 1])
EditSize == EditBefore(Len(Exemplars) + 1)
Edit(T, k) ==
  IF k < Len(T) THEN SubSeq(T, 1, k) \o SubSeq(T, k + 2, Len(T))
  ELSE LET a == k - Len(T) IN
    IF a < Len(T) * LA THEN [ T EXCEPT ![1 + (a \div LA)] = Alphabet[1 + (a % LA)] ]
    ELSE LET b == a - Len(T) * LA IN
      SubSeq(T, 1, b \div LA) \o << Alphabet[1 + (b % LA)] >> \o SubSeq(T, 1 + (b \div LA), Len(T))
EditCase(k) ==
  LET e == CHOOSE e \in 1..Len(Exemplars) : EditBefore(e) <= k /\ k < EditBefore(e + 1)
  IN Edit(Exemplars[e], k - EditBefore(e))

(* "glue": every word of an exemplar lengthened or joined to the next one       *)
RECURSIVE GlueBefore(_)
GlueBefore(e) == IF e = 1 THEN 0 ELSE GlueBefore(e - 1) + 6 * Len(Exemplars[e - 1])
GlueSize == GlueBefore(Len(Exemplars) + 1)
Glue(T, i, v) ==
  LET w == T[i].t IN
  IF T[i].k # "id" THEN T
  ELSE CASE v = 0 -> [ T EXCEPT ![i] = Kw(w \o "x") ]
         [] v = 1 -> [ T EXCEPT ![i] = Kw(w \o "_") ]
         [] v = 2 -> [ T EXCEPT ![i] = Kw(w \o "1") ]
         [] v = 3 -> [ T EXCEPT ![i] = Kw("x" \o w) ]
         [] v = 4 /\ i < Len(T) /\ (T[i + 1].k = "id" \/ (T[i + 1].k = "lit" /\ T[i + 1].c = "Int")) ->
              SubSeq(T, 1, i - 1) \o << Kw(w \o T[i + 1].t) >> \o SubSeq(T, i + 2, Len(T))
         [] v = 5 /\ i + 2 < Len(T) /\ T[i + 1].k = "id" /\ T[i + 2].k = "id" ->
              SubSeq(T, 1, i - 1) \o << Kw(w \o T[i + 1].t \o T[i + 2].t) >> \o SubSeq(T, i + 3, Len(T))
         [] OTHER -> T
GlueCase(k) ==
  LET e == CHOOSE e \in 1..Len(Exemplars) : GlueBefore(e) <= k /\ k < GlueBefore(e + 1)
      a == k - GlueBefore(e)
  IN Glue(Exemplars[e], 1 + (a \div 6), a % 6)

-----------------------------------------------------------------------------
(* "deep": every kind of repetition and nesting, 1..n times                  *)
RECURSIVE Rep(_, _)
Rep(t, n) == IF n = 0 THEN <<>> ELSE t \o Rep(t, n - 1)
RECURSIVE SubNest(_, _)
SubNest(n, closed) ==
  IF n = 0 THEN << Kw("select"), Kw("id"), Kw("from"), Kw("r0") >>
  ELSE << Kw("select"), Pu("(") >> \o SubNest(n - 1, closed)
       \o (IF closed THEN << Pu(")"), Kw("from"), Kw("r" \o ToString(n)) >> ELSE <<>>)
Each(n, item(_), sep) == Join([ i \in 1..n |-> item(i) ], sep)
DeepKinds == 27
DeepOf(k, n) ==
  LET W1 == Q1 \o I("where")
      L == << Pu("(") >>  R == << Pu(")") >>
      fn == << Kw("fx"), Pu("(") >>
      H == Q1 \o << Kw("group"), Kw("by"), Kw("id"), Kw("having") >>
      Agg1 == << Kw("max"), Pu("("), Kw("x"), Pu(")"), Op(">"), Num(1) >>
      name(i) == << Kw("x" \o ToString(i)) >>
      Cs1 == << Kw("select"), Kw("id"), Kw("from"), Kw("opp") >>
  IN
  CASE k = 1 -> W1 \o Rep(L, n) \o Cmp1 \o Rep(R, n)
    [] k = 2 -> W1 \o Rep(I("not") \o L, n) \o Cmp1 \o Rep(R, n)
    [] k = 3 -> W1 \o Rep(I("not"), n) \o Cmp1
    [] k = 4 -> << Kw("select") >> \o Rep(fn, n) \o I("id") \o Rep(R, n) \o << Kw("from"), Kw("acc") >>
    [] k = 5 -> W1 \o Rep(fn, n) \o I("id") \o Rep(R, n) \o << Op("="), Num(1) >>
    [] k = 6 -> SubNest(n, TRUE)
    [] k = 7 -> Rep(Cs1 \o << Kw("where"), Kw("id"), Kw("in"), Pu("(") >>, n) \o Cs1 \o Rep(R, n)
    [] k = 8 -> W1 \o Rep(L, n)
    [] k = 9 -> W1 \o Rep(L, n) \o Cmp1
    [] k = 10 -> << Kw("select") >> \o Rep(fn, n)
    [] k = 11 -> W1 \o Rep(fn, n)
    [] k = 12 -> SubNest(n, FALSE)
    [] k = 13 -> Rep(Cs1 \o << Kw("where"), Kw("id"), Kw("in"), Pu("(") >>, n)
    [] k = 14 -> W1 \o Rep(Cmp1 \o I("and"), n) \o Cmp1
    [] k = 15 -> W1 \o Rep(Cmp1 \o I("or") \o Cmp1 \o I("and"), n) \o Cmp1
    [] k = 16 -> << Kw("select") >> \o Rep(<< Kw("own"), Pu(".") >>, n) \o << Kw("id"), Kw("from"), Kw("acc") >>
    [] k = 17 -> Q1 \o << Pu(",") >> \o Each(n, name, Comma)
    [] k = 18 -> << Kw("select") >> \o Each(n, name, Comma) \o << Kw("from"), Kw("acc") >>
    [] k = 19 -> W1 \o << Kw("id"), Kw("in"), Pu("(") >> \o Each(n, LAMBDA i : << Num(i) >>, Comma) \o R
    [] k = 20 -> Q1 \o << Kw("order"), Kw("by") >> \o Each(n, name, Comma)
    [] k = 21 -> << Kw("select"), Kw("x1"), Kw("from"), Kw("acc"), Kw("group"), Kw("by") >> \o Each(n, name, Comma)
    [] k = 22 -> H \o Rep(L, n) \o Agg1 \o Rep(R, n)
    [] k = 23 -> H \o Rep(I("not") \o L, n) \o Agg1 \o Rep(R, n)
    [] k = 24 -> H \o Rep(L, n) \o Agg1
    [] k = 25 -> W1 \o Each(n, LAMBDA i : L \o Cmp1 \o I("or") \o Cmp1 \o R, I("and"))
    [] k = 26 -> W1 \o Rep(L \o Cmp1 \o I("and"), n) \o Cmp1 \o Rep(R, n)
    [] OTHER -> Q1 \o << Pu(",") >> \o Rep(<< Kw("own"), Pu(".") >>, n) \o I("x")

-----------------------------------------------------------------------------
(* "words": every sequence of n words of a small vocabulary at one place;      *)
(* argument 10 * place + n                                                   *)
MaxX == << Kw("max"), Pu("("), Kw("x"), Pu(")") >>
QG == Q1 \o << Kw("group"), Kw("by") >>
Places ==
  << [ o |-> Q1 \o I("for"), c |-> <<>>, w |-> << Kw("view"), Kw("reference"), Kw("update"), Kw("tracking"), Kw("viewstat"), Pu(","), Kw("for") >> ],
     [ o |-> Q1 \o << Kw("order"), Kw("by") >>, c |-> <<>>,
       w |-> << Kw("x"), Pu(","), Pu("."), Kw("asc"), Kw("desc"), Kw("nulls"), Kw("first"), Kw("last"), Tk("qid", "q q", "q q") >> ],
     [ o |-> Q1, c |-> <<>>, w |-> << Kw("limit"), Kw("offset"), Num(3), Par("p"), Flt1, Kw("x"), Lit("IntR", "31", "0x1F"), Lit("Int", "-5", "-5"), Dtn("last_n_days", "2") >> ],
     [ o |-> << Kw("select"), Kw("id"), Kw("from") >>, c |-> <<>>, w |-> << Kw("x"), Tk("qid", "q q", "q q"), Pu(","), Pu("."), Kw("order"), Kw("by"), Num(1), Kw("for"), Kw("null") >> ],
     [ o |-> Q1 \o I("where"), c |-> <<>>, w |-> << Kw("f"), Op("="), Num(1), Kw("and"), Kw("or"), Kw("not"), Pu("("), Pu(")") >> ],
     [ o |-> Q1 \o << Kw("where"), Kw("f"), Kw("in"), Pu("(") >>, c |-> << Pu(")") >>,
       w |-> << Num(1), Pu(","), Str1, Kw("null"), Kw("today"), Par("p"), Pu("("), Pu(")"), Kw("x"), Dtn("last_n_days", "2") >> ],
     [ o |-> << Kw("select"), Kw("fn"), Pu("(") >>, c |-> << Pu(")"), Kw("from"), Kw("acc") >>,
       w |-> << Kw("x"), Pu(","), Pu("("), Pu(")"), Pu("."), Num(1), Par("p"), Str1, Dtn("last_n_days", "2"), Kw("null"), Tk("qid", "q q", "q q") >> ],
     [ o |-> << Kw("select") >>, c |-> << Kw("from"), Kw("acc") >>,
       w |-> << Kw("x"), Pu(","), Pu("."), Pu("("), Pu(")"), Kw("from"), Kw("fields"), Tk("qid", "q q", "q q"), Num(1), Kw("not") >> ],
     [ o |-> QG, c |-> <<>>, w |-> << Kw("x"), Pu(","), Pu("."), Kw("having"), Kw("order"), Kw("by"), Pu("("), Pu(")"), Tk("qid", "q q", "q q") >> ],
     [ o |-> QG \o << Kw("id"), Kw("having") >>, c |-> <<>>,
       w |-> << Kw("max"), Pu("("), Pu(")"), Kw("x"), Op("="), Num(1), Kw("and"), Kw("not"), Kw("in") >> ],
     [ o |-> QG \o << Kw("id"), Kw("having") >> \o MaxX, c |-> <<>>,
       w |-> << Op("="), Op("<"), Kw("not"), Kw("like"), Kw("in"), Pu("("), Pu(")"), Num(1), Kw("null"), Kw("x"), Pu(","), Kw("or") >> ],
     [ o |-> Q1 \o << Kw("where"), Kw("f") >>, c |-> <<>>,
       w |-> << Op("="), Op("<="), Op("!="), Kw("not"), Kw("like"), Kw("in"), Kw("includes"), Kw("excludes"), Kw("f"), Pu("("), Pu(")"),
                Str1, Date1, Kw("true"), Kw("last_week"), Par("p"), Pu("."), Tk("bad", "?", "?"), Flt1 >> ],
     [ o |-> << Kw("select"), Pu("("), Kw("select"), Kw("id"), Kw("from"), Kw("cases") >>, c |-> << Kw("from"), Kw("acc") >>,
       w |-> << Kw("c"), Pu(","), Pu(")"), Kw("where"), Kw("limit"), Num(1), Kw("order"), Kw("by"), Kw("for"), Kw("view"), Kw("x") >> ],
     [ o |-> Q1 \o << Kw("where"), Kw("f"), Kw("in"), Pu("("), Kw("select"), Kw("id"), Kw("from"), Kw("opp") >>, c |-> << Pu(")") >>,
       w |-> << Kw("c"), Pu(","), Pu(")"), Kw("where"), Kw("and"), Kw("f"), Op("="), Num(1), Kw("limit"), Kw("or"), Kw("for"), Kw("view") >> ],
     [ o |-> Q1 \o I("where") \o Cmp1, c |-> <<>>,
       w |-> << Kw("where"), Kw("group"), Kw("order"), Kw("by"), Kw("having"), Kw("limit"), Kw("offset"), Kw("for"), Kw("update"), Kw("x"), Num(1) >> ] >>
WordsCase(a, k) ==
  LET p == Places[a \div 10]
      n == a % 10 IN
  p.o \o [ j \in 1..n |-> p.w[1 + Dig(k, Pow(Len(p.w), j - 1), Len(p.w))] ] \o p.c

-----------------------------------------------------------------------------
(* "calls": every special function, with every kind of parameters, at every    *)
(* place an operand can stand; argument 1: bare, 2: below another function     *)
CallNames == << "fields", "count", "count_distinct", "max", "format", "tolabel", "upper", "distance", "geolocation" >>
ArgLists ==
  << <<>>, I("x"), << Kw("acc"), Pu("."), Kw("x") >>, << Kw("own"), Pu("."), Kw("x") >>, I("all"), I("standard"),
     << Kw("x"), Pu(","), Kw("y") >>, << Num(1) >>, << Str1 >>, << Par("p") >>, I("null"), << Dtn("last_n_days", "2") >>,
     << Kw("max"), Pu("("), Kw("x"), Pu(")") >>, << Kw("count"), Pu("("), Pu(")") >>,
     << Kw("fx"), Pu("("), Pu(")") >>, << Kw("x"), Pu(","), Num(1), Pu(","), Kw("gx"), Pu("("), Kw("y"), Pu(")") >>,
     << Kw("fields"), Pu("("), Kw("all"), Pu(")") >>, << Kw("acc"), Pu("."), Kw("all") >>, << Tk("qid", "v.w", "v.w") >>,
     << Pu("("), Kw("select"), Kw("id"), Kw("from"), Kw("cases"), Pu(")") >> >>
MaxY == << Kw("max"), Pu("("), Kw("y"), Pu(")") >>
CallPlaces ==
  LET F == << Kw("from"), Kw("acc") >>
      H == Q1 \o << Kw("group"), Kw("by"), Kw("id"), Kw("having") >> IN
  << << I("select"), F >>, << I("select"), I("f1") \o F >>,
     << << Kw("select"), Kw("x"), Pu(",") >>, F >>, << I("select"), << Pu(","), Kw("x"), Kw("f1") >> \o F >>,
     << I("select"), << Kw("f1"), Pu(",") >> \o MaxY \o I("f2") \o F >>,
     << I("select"), F \o << Kw("group"), Kw("by"), Kw("x") >> >>,
     << I("select"), I("f1") \o F \o << Kw("order"), Kw("by"), Kw("f1") >> >>,
     << << Kw("select"), Kw("x"), Pu(","), Pu("("), Kw("select") >>, << Kw("from"), Kw("cases"), Pu(")") >> \o F >>,
     << Q1 \o I("where"), << Op("="), Num(1) >> >>,
     << Q1 \o I("where"), << Kw("in"), Pu("("), Num(1), Pu(")") >> >>,
     << Q1 \o << Kw("where"), Kw("x"), Op("=") >>, <<>> >>,
     << H, << Op(">"), Num(1) >> >>,
     << H \o << Kw("max"), Pu("("), Kw("x"), Pu(")"), Op("=") >>, <<>> >>,
     << Q1 \o << Kw("group"), Kw("by") >>, <<>> >>, << Q1 \o << Kw("order"), Kw("by") >>, <<>> >> >>
CallsSize(n) == Len(CallNames) * Len(ArgLists) * Len(CallPlaces) * (IF n = 1 THEN 1 ELSE 3)
CallsCase(n, k) ==
  LET c == << Kw(CallNames[1 + Dig(k, 1, Len(CallNames))]) >>
           \o Paren(ArgLists[1 + Dig(k, Len(CallNames), Len(ArgLists))])
      p == CallPlaces[1 + Dig(k, Len(CallNames) * Len(ArgLists), Len(CallPlaces))]
      w == Dig(k, Len(CallNames) * Len(ArgLists) * Len(CallPlaces), 3)
      d == CASE n = 1 -> c
             [] w = 0 -> << Kw("upper") >> \o Paren(c)
             [] w = 1 -> << Kw("max") >> \o Paren(c)
             [] OTHER -> << Kw("fx"), Pu("("), Kw("x"), Pu(",") >> \o c \o << Pu(")") >>
  IN p[1] \o d \o p[2]

-----------------------------------------------------------------------------
(* "scope": every list of n further objects (out of a pool), and every way to  *)
(* name a field, at every place; "nest": the same for a query with a subquery   *)
Nm(n) == NameToks(n)
FromPool ==
  << Nm(<<"own">>), Nm(<<"acc", "own">>), Nm(<<"a", "own">>), Nm(<<"own">>) \o I("o"), Nm(<<"a", "own">>) \o I("o"),
     Nm(<<"acc", "own">>) \o I("o"), Nm(<<"o", "par">>) \o I("p"), Nm(<<"o", "par">>), Nm(<<"own", "par">>) \o I("p"),
     Nm(<<"acc", "own", "par">>), Nm(<<"par">>), Nm(<<"p", "own">>), Nm(<<"acc">>) \o I("b") >>
PathPool ==
  << <<"id">>, <<"acc", "id">>, <<"a", "id">>, <<"own", "id">>, <<"o", "id">>, <<"p", "id">>, <<"acc", "own", "id">>,
     <<"a", "own", "id">>, <<"o", "par", "id">>, <<"own", "par", "id">>, <<"a", "own", "par", "id">>, <<"par", "id">>,
     <<"acc", "acc", "id">>, <<"p", "own", "x">> >>
PathPlaces ==
  << << I("select"), <<>>, <<>> >>, << << Kw("select"), Kw("x"), Pu(",") >>, I("f1"), <<>> >>,
     << << Kw("select"), Kw("max"), Pu("("), Kw("x"), Pu(")"), Pu(","), Kw("upper"), Pu("(") >>, << Pu(")") >>, <<>> >>,
     << << Kw("select"), Kw("x") >>, I("where"), << Op("="), Num(1) >> >>,
     << << Kw("select"), Kw("x") >>, << Kw("where"), Kw("x"), Op("="), Num(1), Kw("and"), Kw("fx"), Pu("(") >>, << Pu(")"), Op("<"), Num(2) >> >>,
     << << Kw("select"), Kw("x") >>, << Kw("order"), Kw("by") >>, <<>> >>,
     << << Kw("select"), Kw("x") >>, << Kw("group"), Kw("by"), Kw("x"), Pu(",") >>, <<>> >>,
     << << Kw("select"), Kw("x") >>, << Kw("group"), Kw("by"), Kw("x"), Kw("having"), Kw("max"), Pu("(") >>, << Pu(")"), Op(">"), Num(1) >> >> >>
(* a query with the name n at place p, and the clause `frm` *)
WithPath(p, n, frm) ==
  IF p <= 3 THEN PathPlaces[p][1] \o Nm(n) \o PathPlaces[p][2] \o I("from") \o frm
  ELSE PathPlaces[p][1] \o I("from") \o frm \o PathPlaces[p][2] \o Nm(n) \o PathPlaces[p][3]
Primaries == << Nm(<<"acc">>), Nm(<<"acc">>) \o I("a") >>
ScopeSize(n) == 2 * Len(PathPlaces) * Len(PathPool) * Pow(Len(FromPool), n)
ScopeCase(n, k) ==
  LET b == 2 * Len(PathPlaces) * Len(PathPool)
      frm == Primaries[1 + Dig(k, 1, 2)]
             \o FlattenSeq([ j \in 1..n |-> << Pu(",") >> \o FromPool[1 + Dig(k, b * Pow(Len(FromPool), j - 1), Len(FromPool))] ])
  IN WithPath(1 + Dig(k, 2, Len(PathPlaces)), PathPool[1 + Dig(k, 2 * Len(PathPlaces), Len(PathPool))], frm)

OuterFroms ==
  << Nm(<<"acc">>), Nm(<<"acc">>) \o I("a"), Nm(<<"acc">>) \o I("a") \o Comma \o Nm(<<"a", "own">>) \o I("o"),
     Nm(<<"acc">>) \o Comma \o Nm(<<"own">>), Nm(<<"acc">>) \o Comma \o Nm(<<"acc", "own">>) \o I("o") >>
InnerFroms ==
  << Nm(<<"cases">>), Nm(<<"acc", "cases">>), Nm(<<"a", "cases">>), Nm(<<"o", "cases">>), Nm(<<"own", "cases">>),
     Nm(<<"cases">>) \o I("c"), Nm(<<"acc", "cases">>) \o I("c"), Nm(<<"a", "own", "cases">>) \o I("c"),
     Nm(<<"o", "cases">>) \o I("c"), Nm(<<"x", "cases">>) >>
InnerExtras ==
  << <<>>, Comma \o Nm(<<"own">>) \o I("d"), Comma \o Nm(<<"c", "own">>) \o I("d"), Comma \o Nm(<<"cases", "own">>),
     Comma \o Nm(<<"c", "own">>) \o Comma \o Nm(<<"c", "par">>) \o I("d") >>
InnerPaths ==
  << <<"id">>, <<"cases", "id">>, <<"c", "id">>, <<"d", "id">>, <<"c", "own", "id">>, <<"d", "own", "id">>, <<"own", "id">>,
     <<"acc", "id">>, <<"a", "id">>, <<"o", "id">>, <<"acc", "own", "id">>, <<"a", "own", "id">>, <<"a", "par", "id">>,
     <<"acc", "cases", "id">>, <<"a", "cases", "id">>, <<"x", "id">> >>
(* argument 1: a select subquery; 2: a condition subquery; 3: two levels        *)
NestSize(n) == Len(OuterFroms) * Len(InnerFroms) * Len(InnerExtras) * Len(InnerPaths) * Len(PathPlaces)
NestCase(n, k) ==
  LET a == Len(OuterFroms)  b == Len(InnerFroms)  c == Len(InnerExtras)  d == Len(InnerPaths)
      in == WithPath(1 + Dig(k, a * b * c * d, Len(PathPlaces)), InnerPaths[1 + Dig(k, a * b * c, d)],
                     InnerFroms[1 + Dig(k, a, b)] \o InnerExtras[1 + Dig(k, a * b, c)])
      frm == I("from") \o OuterFroms[1 + Dig(k, 1, a)]
  IN CASE n = 1 -> << Kw("select"), Kw("y"), Pu(",") >> \o Paren(in) \o frm
       [] n = 2 -> << Kw("select"), Kw("y") >> \o frm \o << Kw("where"), Kw("y"), Kw("in") >> \o Paren(in)
       [] OTHER -> I("select") \o Paren(I("select") \o Paren(in) \o << Kw("from"), Kw("cases"), Kw("m") >>) \o frm

-----------------------------------------------------------------------------
(* "items": every select list of n items (out of a pool), before every ending   *)
ItemPool ==
  << I("x"), Nm(<<"acc", "x">>), Nm(<<"x">>) \o I("f1"), I("y"), I("y") \o I("expr0"), << Kw("fx"), Pu("("), Pu(")") >>,
     << Kw("fx"), Pu("("), Kw("x"), Pu(")") >> \o I("expr1"), MaxX, MaxY \o I("f1"), << Kw("count"), Pu("("), Pu(")") >>,
     Nm(<<"own", "x">>), I("expr0"), << Kw("fields"), Pu("("), Kw("all"), Pu(")") >>,
     Paren(<< Kw("select"), Kw("x"), Kw("f1"), Kw("from"), Kw("cases") >>) >>
ItemEnds ==
  << <<>>, << Kw("order"), Kw("by"), Kw("expr0") >>, << Kw("order"), Kw("by"), Kw("expr1"), Kw("desc"), Pu(","), Kw("f1") >>,
     << Kw("order"), Kw("by"), Kw("acc"), Pu("."), Kw("x"), Pu(","), Kw("x") >>, << Kw("group"), Kw("by"), Kw("x"), Pu(","), Kw("y") >>,
     << Kw("group"), Kw("by"), Kw("f1"), Pu(","), Kw("expr0"), Kw("order"), Kw("by"), Kw("f1") >>,
     << Kw("group"), Kw("by"), Kw("x"), Kw("having"), Kw("x"), Op("="), Num(1), Kw("and"), Kw("max"), Pu("("), Kw("y"), Pu(")"), Op("<"), Num(3) >>,
     << Kw("where"), Kw("expr0"), Op("="), Kw("f1") >> >>
ItemsSize(n) == Len(ItemEnds) * Pow(Len(ItemPool), n)
ItemsCase(n, k) ==
  I("select") \o Join([ j \in 1..n |-> ItemPool[1 + Dig(k, Len(ItemEnds) * Pow(Len(ItemPool), j - 1), Len(ItemPool))] ], Comma)
  \o << Kw("from"), Kw("acc") >> \o ItemEnds[1 + Dig(k, 1, Len(ItemEnds))]

-----------------------------------------------------------------------------
EnumSize(f, n) ==
  CASE f = "tree" -> TreeSize(n) [] f = "flat" -> FlatSize(n)
    [] f = "tail" -> TailSize(n) [] f = "edit" -> EditSize [] f = "glue" -> GlueSize
    [] f = "deep" -> DeepKinds * n
    [] f = "calls" -> CallsSize(n) [] f = "scope" -> ScopeSize(n) [] f = "nest" -> NestSize(n) [] f = "items" -> ItemsSize(n)
    [] f = "words" -> Pow(Len(Places[n \div 10].w), n % 10)
(* index k from 0 *)
EnumCase(f, n, k) ==
  CASE f = "tree" -> TreeCase(n, k) [] f = "flat" -> FlatCase(n, k)
    [] f = "tail" -> TailCase(n, k) [] f = "edit" -> EditCase(k) [] f = "glue" -> GlueCase(k)
    [] f = "words" -> WordsCase(n, k)
    [] f = "calls" -> CallsCase(n, k) [] f = "scope" -> ScopeCase(n, k) [] f = "nest" -> NestCase(n, k) [] f = "items" -> ItemsCase(n, k)
    [] f = "deep" -> DeepOf(1 + Dig(k, 1, DeepKinds), 1 + Dig(k, DeepKinds, n))
=============================================================================
