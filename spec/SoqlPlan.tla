------------------------------ MODULE SoqlPlan ------------------------------
(***************************************************************************)
(* What the parts of a result are for: executing them.  A world says which    *)
(* objects of a query exist for a row of its first object (an object exists    *)
(* only below one that does), and which comparisons hold.  A comparison on a    *)
(* field of an absent object does not hold.                                    *)
(*                                                                             *)
(* The executor fetches the objects with the queries made for them, joins what  *)
(* it found - strictly where the flag says so -, applies the remaining          *)
(* condition to the joined row, and keeps the row or not.                       *)
(***************************************************************************)
EXTENDS SoqlProps

(* conditions over numbered comparisons *)
RECURSIVE Numbered(_, _)
Numbered(t, atoms) ==
  CASE t.op = "none" -> [ op |-> "none" ]
    [] t.op = "cmp" ->
        LET v == ConjView(t)
            k == { n \in DOMAIN atoms : atoms[n] = v } IN
        [ op |-> "cmp", k |-> IF k = {} THEN 0 ELSE CHOOSE n \in k : TRUE ]
    [] OTHER -> [ op |-> t.op, x |-> Numbered(t.x, atoms), y |-> Numbered(t.y, atoms) ]
RECURSIVE Holds(_, _)
Holds(t, true) ==
  CASE t.op = "none" -> TRUE
    [] t.op = "cmp" -> t.k \in true
    [] t.op = "and" -> Holds(t.x, true) /\ Holds(t.y, true)
    [] OTHER -> Holds(t.x, true) \/ Holds(t.y, true)

(* plan: where, rest, filter (one for each object): conditions;                *)
(*       strict: joined strictly or not; up: the object an object hangs on      *)
(*       (0: none of these); about: the comparisons on fields of an object       *)
Lost(plan, objects) == UNION { plan.about[n] : n \in objects }
(* the objects the row is joined with, of those that exist: found by their      *)
(* own query, below objects that were found                                     *)
RECURSIVE FoundBelow(_, _, _)
FoundBelow(plan, found, n) ==
  plan.up[n] = 0 \/ (plan.up[n] \in found /\ FoundBelow(plan, found, plan.up[n]))
Joined(plan, exist, true) ==
  LET found == { n \in exist : Holds(plan.filter[n], true) } IN
  { n \in found : FoundBelow(plan, found, n) }
KeptByPlan(plan, exist, true) ==
  LET j == Joined(plan, exist, true) IN
  /\ 1 \in j
  /\ \A n \in DOMAIN plan.filter : plan.strict[n] => n \in j
  /\ Holds(plan.rest, true \ Lost(plan, DOMAIN plan.filter \ j))
KeptByQuery(plan, exist, true) == Holds(plan.where, true)

Worlds(plan) ==
  { e \in SUBSET (DOMAIN plan.filter) :
      1 \in e /\ \A n \in e : plan.up[n] = 0 \/ plan.up[n] \in e }
PlanExact(plan, atoms) ==
  \A e \in Worlds(plan) :
    \A true \in SUBSET (atoms \ Lost(plan, DOMAIN plan.filter \ e)) :
      KeptByPlan(plan, e, true) <=> KeptByQuery(plan, e, true)

-----------------------------------------------------------------------------
(* the plan a result describes, with the join flags of its objects (graph:     *)
(* with those of the object graph)                                             *)
PlanOf(o, strict) ==
  LET w     == ToTree(o.where).t
      ls    == Leaves(w)
      atoms == SetToSeq({ ConjView(ls[k]) : k \in DOMAIN ls }) IN
  [ where  |-> Numbered(w, atoms),
    rest   |-> Numbered(ToTree(o.ppw).t, atoms),
    filter |-> [ n \in DOMAIN o.from |-> Numbered(ToTree(o.from[n].pw).t, atoms) ],
    strict |-> strict,
    up     |-> [ n \in DOMAIN o.from |->
                 IF n = 1 THEN 0 ELSE
                 LET u == { k \in DOMAIN o.from : o.from[k].n = Front(o.from[n].n) } IN
                 IF u = {} THEN 0 ELSE CHOOSE k \in u : TRUE ],
    about  |-> [ n \in DOMAIN o.from |->
                 { k \in DOMAIN atoms :
                     \E f \in { atoms[k].a, atoms[k].b } : f.ty = "Field" /\ Front(f.n) = o.from[n].n } ],
    size   |-> Len(atoms) ]

PlanReadable(o) ==
  /\ ToTree(o.where).ok /\ ToTree(o.ppw).ok
  /\ \A n \in DOMAIN o.from : ToTree(o.from[n].pw).ok
PlanSmall(o) ==
  LET n == Cardinality({ ConjView(Leaves(ToTree(o.where).t)[k]) : k \in DOMAIN Leaves(ToTree(o.where).t) }) IN
  n + Len(o.from) <= 9
PlanObjects(p) ==
  /\ PlanReadable(p.o)
  /\ PlanSmall(p.o) =>
       \A plan \in { PlanOf(p.o, [ n \in DOMAIN p.o.from |-> p.o.from[n].ij ]) } : PlanExact(plan, 1..plan.size)
PlanGraph(p, m) ==
  /\ PlanReadable(p.o)
  /\ PlanSmall(p.o) =>
       \A plan \in { PlanOf(p.o, [ n \in DOMAIN p.o.from |->
                       \E k \in DOMAIN m.vg : m.vg[k].id = p.o.from[n].vid /\ m.vg[k].ij ]) } :
         PlanExact(plan, 1..plan.size)
=============================================================================
