---------------------------- MODULE SoqlPushdown -----------------------------
(***************************************************************************)
(* How a WHERE condition is split into object filters and a rest (P08, P09):  *)
(* for each object one scan over the postfix condition with a stack, which    *)
(* blanks what the object cannot decide; then one scan that blanks what the   *)
(* object filters have decided.  Negation is gone by then.                   *)
(*                                                                           *)
(* Track = TRUE:  a member of AND that was blanked marks the formula as       *)
(*                weakened, and a weakened formula is unknown below OR;       *)
(*         FALSE: only unknown formulas are unknown below OR (a mistake).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxCmp, Track
Objects == << "a", "b" >>
(* what the two operands of a comparison are about: an object, no object at    *)
(* all ("c"), or nothing an object can decide ("f": functions, subqueries)     *)
Comparisons == { << "a", "c" >>, << "b", "c" >>, << "a", "b" >>, << "f", "c" >>, << "a", "a" >> }

(* the postfix conditions of n comparisons                                     *)
Cmp(x) == << [ op |-> "arg", of |-> x[1] ], [ op |-> "arg", of |-> x[2] ], [ op |-> "cmp", of |-> "" ] >>
RECURSIVE Conds(_)
Conds(n) ==
  IF n = 1 THEN { Cmp(x) : x \in Comparisons }
  ELSE UNION { { l \o r \o << [ op |-> o, of |-> "" ] >> : l \in Conds(k), r \in Conds(n - k), o \in { "and", "or" } }
               : k \in 1..(n - 1) }

VARIABLES cond, obj, i, stack, out, done, rest, need
vars == << cond, obj, i, stack, out, done, rest, need >>
Ops(c) == [ k \in DOMAIN c |-> c[k].op ]

Init ==
  /\ cond \in UNION { Conds(n) : n \in 1..MaxCmp }
  /\ obj = 1 /\ i = 1 /\ stack = << >>
  /\ out = Ops(cond) /\ done = << >>
  /\ rest = << >> /\ need = 0

Blank(o, lo, hi) == [ k \in DOMAIN o |-> IF k \in lo..hi THEN "noop" ELSE o[k] ]
Top(n) == stack[Len(stack) + 1 - n]
Push(s, e) == Append(s, e)
Below(n) == SubSeq(stack, 1, Len(stack) - n)
Entry(lo, unknown, weak) == [ min |-> lo, src |-> i, unknown |-> unknown, weak |-> weak ]

Arg ==
  /\ cond[i].op = "arg"
  /\ LET u == ~(cond[i].of \in { Objects[obj], "c" }) IN
     /\ out' = IF u THEN [ out EXCEPT ![i] = "unknown" ] ELSE out
     /\ stack' = Push(stack, Entry(i, u, FALSE))
And ==
  /\ cond[i].op = "and"
  /\ LET x == Top(2)  y == Top(1) IN
     IF x.unknown /\ y.unknown
     THEN /\ out' = [ Blank(out, x.min, y.src) EXCEPT ![i] = "unknown" ]
          /\ stack' = Push(Below(2), Entry(x.min, TRUE, FALSE))
     ELSE IF x.unknown \/ y.unknown
     THEN /\ out' = [ (IF x.unknown THEN Blank(out, x.min, x.src) ELSE Blank(out, y.min, y.src)) EXCEPT ![i] = "noop" ]
          /\ stack' = Push(Below(2), Entry(x.min, FALSE, TRUE))
     ELSE /\ out' = out
          /\ stack' = Push(Below(2), Entry(x.min, FALSE, x.weak \/ y.weak))
Other ==
  /\ cond[i].op \in { "or", "cmp" }
  /\ LET x == Top(2)  y == Top(1)
         u == x.unknown \/ y.unknown \/ (Track /\ (x.weak \/ y.weak)) IN
     IF u
     THEN /\ out' = [ Blank(out, x.min, y.src) EXCEPT ![i] = "unknown" ]
          /\ stack' = Push(Below(2), Entry(x.min, TRUE, FALSE))
     ELSE /\ out' = out
          /\ stack' = Push(Below(2), Entry(x.min, FALSE, FALSE))
Scan ==
  /\ obj <= Len(Objects) /\ i <= Len(cond)
  /\ (Arg \/ And \/ Other)
  /\ i' = i + 1
  /\ UNCHANGED << cond, obj, done, rest, need >>
EndOfScan ==
  /\ obj <= Len(Objects) /\ i = Len(cond) + 1
  /\ done' = Append(done, IF Top(1).unknown THEN Blank(out, 1, Len(cond)) ELSE out)
  /\ obj' = obj + 1 /\ i' = 1 /\ stack' = << >> /\ out' = Ops(cond)
  /\ rest' = IF obj < Len(Objects) THEN rest
             ELSE [ k \in DOMAIN cond |-> IF \E j \in DOMAIN done' : done'[j][k] \notin { "noop", "unknown" }
                                          THEN "noop" ELSE cond[k].op ]
  /\ UNCHANGED << cond, need >>
Join ==
  /\ obj = Len(Objects) + 1 /\ i <= Len(cond)
  /\ CASE rest[i] = "noop" -> UNCHANGED << rest, need >>
       [] rest[i] = "arg" -> need' = need + 1 /\ UNCHANGED rest
       [] rest[i] = "and" /\ need < 2 -> rest' = [ rest EXCEPT ![i] = "noop" ] /\ UNCHANGED need
       [] OTHER -> need' = need - 1 /\ UNCHANGED rest
  /\ i' = i + 1
  /\ UNCHANGED << cond, obj, stack, out, done >>
Next == Scan \/ EndOfScan \/ Join
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* The value of the postfix formula ops[lo..hi] under the set of true           *)
(* comparisons; blanks do not count, an operand is an operand.                 *)
RECURSIVE Value(_, _, _, _, _)
Value(ops, lo, hi, true, st) ==
  IF lo > hi THEN st
  ELSE CASE ops[lo] = "noop" -> Value(ops, lo + 1, hi, true, st)
         [] ops[lo] \in { "arg", "unknown" } -> Value(ops, lo + 1, hi, true, Append(st, FALSE))
         [] OTHER ->
            IF Len(st) < 2 THEN << "no formula" >>
            ELSE LET n == Len(st) IN
                 Value(ops, lo + 1, hi, true,
                       Append(SubSeq(st, 1, n - 2),
                              IF ops[lo] = "cmp" THEN lo \in true
                              ELSE IF ops[lo] = "and" THEN st[n - 1] /\ st[n] ELSE st[n - 1] \/ st[n]))
CmpsOf(lo, hi) == { k \in lo..hi : cond[k].op = "cmp" }
Holds(ops, true) == LET v == Value(ops, 1, Len(ops), true, << >>) IN v = << >> \/ v = << TRUE >>
Formula(ops) == LET v == Value(ops, 1, Len(ops), {}, << >>) IN v = << >> \/ v = << TRUE >> \/ v = << FALSE >>

(* What a stack entry stands for: something implied by what was written there,   *)
(* and the same unless it was weakened.                                        *)
StackSound ==
  \A e \in { stack[k] : k \in DOMAIN stack } :
    IF cond[e.src].op = "arg" THEN e.min = e.src
    ELSE IF e.unknown THEN \A k \in e.min..e.src : out[k] = (IF k = e.src THEN "unknown" ELSE "noop")
    ELSE Track => \A t \in SUBSET CmpsOf(e.min, e.src) :
           LET was == Value(Ops(cond), e.min, e.src, t, << >>)
               is  == Value(out, e.min, e.src, t, << >>) IN
           /\ is \in { << TRUE >>, << FALSE >> }
           /\ was = << TRUE >> => is = << TRUE >>
           /\ ~e.weak => is = was
Over == obj = Len(Objects) + 1 /\ i = Len(cond) + 1
OperandsThere ==
  (obj = Len(Objects) + 1 /\ i <= Len(cond) /\ rest[i] \in { "or", "cmp" }) => need >= 2
Formulas == (obj = Len(Objects) + 1 => \A k \in DOMAIN done : Formula(done[k])) /\ (Over => Formula(rest))
OwnOnly ==
  obj = Len(Objects) + 1 =>
    \A n \in DOMAIN done : \A k \in DOMAIN cond :
      done[n][k] = "arg" => cond[k].of \in { Objects[n], "c" }
(* The members of AND, as stretches, and what becomes of each of them.          *)
RECURSIVE StartOf(_)
StartOf(k) == IF cond[k].op = "arg" THEN k ELSE StartOf(StartOf(k - 1) - 1)
RECURSIVE Members(_)
Members(k) == IF cond[k].op = "and" THEN Members(k - 1) \cup Members(StartOf(k - 1) - 1) ELSE { << StartOf(k), k >> }
Pure(m, n) == \A k \in m[1]..m[2] : cond[k].op = "arg" => cond[k].of \in { Objects[n], "c" }
Complete ==
  Over => \A m \in Members(Len(cond)) :
    /\ \A n \in DOMAIN done : \A k \in m[1]..m[2] : done[n][k] = (IF Pure(m, n) THEN cond[k].op ELSE "noop")
    /\ \A k \in m[1]..m[2] : rest[k] = (IF \E n \in DOMAIN done : Pure(m, n) THEN "noop" ELSE cond[k].op)
Exact ==
  Over => \A t \in SUBSET CmpsOf(1, Len(cond)) :
            Holds(Ops(cond), t) = (Holds(rest, t) /\ \A k \in DOMAIN done : Holds(done[k], t))
Ends == <>Over
=============================================================================
