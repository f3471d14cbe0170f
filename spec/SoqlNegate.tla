----------------------------- MODULE SoqlNegate ------------------------------
(***************************************************************************)
(* How NOT is taken out of a postfix condition (P07): from left to right,     *)
(* each NOT turns round every operator of its operand and is blanked.         *)
(*                                                                           *)
(* Reach = "operand": the operand is found by counting operands and operators  *)
(*                    backwards;                                              *)
(*         "last":    only the operator just before is turned (a mistake);     *)
(*         "all":     everything before is turned (a mistake).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxCmp, MaxNot, Reach

(* postfix conditions of n comparisons, up to m times negated anywhere          *)
RECURSIVE Conds(_, _)
Plain(n, m) ==
  IF n = 1 THEN IF m = 0 THEN { << "eq" >> } ELSE {}
  ELSE UNION { { l \o r \o << o >> : l \in Conds(k, j), r \in Conds(n - k, m - j), o \in { "and", "or" } }
               : k \in 1..(n - 1), j \in 0..m }
Conds(n, m) == Plain(n, m) \cup (IF m = 0 THEN {} ELSE { c \o << "not" >> : c \in Conds(n, m - 1) })

VARIABLES cond, out, i
vars == << cond, out, i >>
Init == /\ cond \in UNION { Conds(n, m) : n \in 1..MaxCmp, m \in 0..MaxNot }
        /\ out = cond /\ i = 1

Turned(o) == CASE o = "eq" -> "ne" [] o = "ne" -> "eq" [] o = "and" -> "or" [] o = "or" -> "and" [] OTHER -> o
(* a comparison is one operand here                                            *)
RECURSIVE Back(_, _)
Back(k, lack) ==
  LET l == CASE out[k] \in { "noop", "not" } -> lack [] out[k] \in { "eq", "ne" } -> lack - 1 [] OTHER -> lack + 1 IN
  IF l = 0 THEN k ELSE Back(k - 1, l)
From == CASE Reach = "operand" -> Back(i - 1, 1) [] Reach = "last" -> i - 1 [] OTHER -> 1
Step ==
  /\ i <= Len(cond)
  /\ out' = IF out[i] # "not" THEN out
            ELSE [ k \in DOMAIN out |-> IF k = i THEN "noop" ELSE IF k \in From..(i - 1) THEN Turned(out[k]) ELSE out[k] ]
  /\ i' = i + 1 /\ UNCHANGED cond
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
RECURSIVE Value(_, _, _, _)
Value(ops, k, true, st) ==
  IF k > Len(ops) THEN st
  ELSE LET n == Len(st) IN
    Value(ops, k + 1, true,
      CASE ops[k] = "noop" -> st
        [] ops[k] = "eq" -> Append(st, k \in true)
        [] ops[k] = "ne" -> Append(st, k \notin true)
        [] ops[k] = "not" -> Append(SubSeq(st, 1, n - 1), ~st[n])
        [] ops[k] = "and" -> Append(SubSeq(st, 1, n - 2), st[n - 1] /\ st[n])
        [] OTHER -> Append(SubSeq(st, 1, n - 2), st[n - 1] \/ st[n]))
Cmps == { k \in DOMAIN cond : cond[k] = "eq" }
(* the meaning is the same after every step, not only at the end                *)
Same == \A t \in SUBSET Cmps : Value(out, 1, t, << >>) = Value(cond, 1, t, << >>)
Gone == \A k \in 1..(i - 1) : out[k] # "not"
InPlace == \A k \in Cmps : out[k] \in { "eq", "ne" }
Ends == <>(i = Len(cond) + 1 /\ \A k \in DOMAIN out : out[k] # "not")
=============================================================================
