------------------------------ MODULE SoqlPlace -------------------------------
(***************************************************************************)
(* Where a text goes wrong, and the place an error message may name (P28).   *)
(* The text is a query, T, spoilt at one place: `at` is its first byte that   *)
(* no query can have behind what stands before it.  The message may name      *)
(* that byte or one before it in the same item of the select list or the      *)
(* same clause of the outermost query, wherever parentheses go.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

ClauseRank == ( "select" :> 1 @@ "from" :> 2 @@ "where" :> 3 @@ "group" :> 4 @@ "having" :> 5 @@ "order" :> 6
                @@ "limit" :> 7 @@ "offset" :> 7 @@ "for" :> 8 )

(* the tokens outside of all parentheses *)
RECURSIVE OuterFrom(_, _, _)
OuterFrom(T, k, d) ==
  IF k > Len(T) THEN {}
  ELSE LET e == IF T[k].k # "p" THEN d ELSE IF T[k].l = "(" THEN d + 1 ELSE IF T[k].l = ")" THEN d - 1 ELSE d
       IN (IF d = 0 /\ e = 0 THEN { k } ELSE {}) \cup OuterFrom(T, k + 1, e)

PlaceMax(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the first byte the message may name *)
PlaceFrom(T, st, en, at) ==
  LET outer == OuterFrom(T, 1, 0)
      marks == { k \in outer : T[k].k = "id" /\ T[k].l \in DOMAIN ClauseRank }
      rank(k) == ClauseRank[T[k].l]
      (* names that look like keywords: nothing is said about their clauses *)
      clear == \A j, k \in marks : j < k => rank(j) < rank(k) \/ (rank(j) = 7 /\ rank(k) = 7 /\ T[j].l # T[k].l)
      from  == { k \in marks : T[k].l = "from" } IN
  IF ~clear THEN 0
  ELSE PlaceMax({ 0 } \cup { st[k] : k \in { j \in marks : st[j] < at } }
                \cup { en[k] : k \in { j \in outer : /\ T[j].k = "p" /\ T[j].l = ","
                                                    /\ \A f \in from : j < f
                                                    /\ en[j] <= at } })

PlaceFailed(o) ==
  IF o.cut /\ o.outs[1] # "syntax" THEN {}
  ELSE IF \E k \in DOMAIN o.outs : o.outs[k] # "syntax" THEN { "accepts" }
  ELSE IF o.lines[1] \notin DOMAIN o.ls THEN { "line" }
  ELSE LET p == o.ls[o.lines[1]] + o.cols[1] - 1 IN
       (IF p > o.at THEN { "behind" } ELSE {})
       \cup (IF p < PlaceFrom(o.T, o.st, o.en, o.at) THEN { "before" } ELSE {})
       \cup (IF o.quote THEN {} ELSE { "quote" })
       \cup (IF \A k \in DOMAIN o.outs : o.lines[k] = o.lines[1] /\ o.cols[k] = o.cols[1] THEN {} ELSE { "unsteady" })
=============================================================================
