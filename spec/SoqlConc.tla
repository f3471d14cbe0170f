------------------------------ MODULE SoqlConc ------------------------------
(***************************************************************************)
(* Concurrent calls of the parser (P03).  All calls share one parser tree;    *)
(* the parsers of its recursive rules are built when a call first needs       *)
(* them, and a call may need several, one inside the other.                  *)
(*                                                                           *)
(* Sync = "once":  one call builds, the others wait for it;                   *)
(*        "none":  every call that finds nothing builds, and assigns          *)
(*                 (the mistake the conformance runs have to be able to see);  *)
(*        "flag":  the flag is set before the rule is there (double-checked    *)
(*                 locking done wrong).                                       *)
(*                                                                           *)
(* Happens-before is modelled by what a process has synchronized with:        *)
(* seen[p] is the set of rules whose assignment p may rely on.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Rules, Texts, Calls, Sync
(* Needs[t]: the rules that text t makes the parser enter, in order            *)
Needs == [ t \in Texts |-> IF t = 1 THEN << >> ELSE IF t = 2 THEN << 1 >> ELSE << 2, 1 >> ]
ASSUME Texts \subseteq 1..3 /\ Rules = 1..2

VARIABLES pc, todo, text, left, rule, writers, seen, got
vars == << pc, todo, text, left, rule, writers, seen, got >>
Fresh(t) == << "result", t >>
Crash == << "crash", 0 >>

Init ==
  /\ pc = [ p \in Procs |-> "idle" ]
  /\ todo = [ p \in Procs |-> << >> ]          \* rules this call still enters
  /\ text = [ p \in Procs |-> 0 ]
  /\ left = [ p \in Procs |-> Calls ]
  /\ rule = [ r \in Rules |-> "none" ]          \* none | building | ready
  /\ writers = [ r \in Rules |-> {} ]           \* who has assigned it
  /\ seen = [ p \in Procs |-> {} ]
  /\ got = [ p \in Procs |-> << >> ]

Call(p, t) ==
  /\ pc[p] = "idle" /\ left[p] > 0
  /\ pc' = [ pc EXCEPT ![p] = "enter" ]
  /\ text' = [ text EXCEPT ![p] = t ]
  /\ todo' = [ todo EXCEPT ![p] = Needs[t] ]
  /\ left' = [ left EXCEPT ![p] = @ - 1 ]
  /\ UNCHANGED << rule, writers, seen, got >>

Next1(p) == Head(todo[p])
(* the rule is there (and synchronized with, if the protocol does that)         *)
Use(p) ==
  /\ pc[p] = "enter" /\ todo[p] # << >>
  /\ CASE Sync = "once" -> rule[Next1(p)] = "ready"
       [] Sync = "none" -> rule[Next1(p)] # "none"
       [] OTHER -> rule[Next1(p)] # "none"
  /\ seen' = [ seen EXCEPT ![p] = IF Sync = "once" THEN @ \cup { Next1(p) } ELSE @ ]
  /\ todo' = [ todo EXCEPT ![p] = Tail(@) ]
  /\ got' = IF rule[Next1(p)] = "ready" THEN got ELSE [ got EXCEPT ![p] = Append(@, Crash) ]
  /\ UNCHANGED << pc, text, left, rule, writers >>
Begin(p) ==
  /\ pc[p] = "enter" /\ todo[p] # << >>
  /\ rule[Next1(p)] = "none"
  /\ pc' = [ pc EXCEPT ![p] = "build" ]
  /\ rule' = IF Sync = "none" THEN rule ELSE [ rule EXCEPT ![Next1(p)] = "building" ]
  /\ UNCHANGED << todo, text, left, writers, seen, got >>
End(p) ==
  /\ pc[p] = "build"
  /\ rule' = [ rule EXCEPT ![Next1(p)] = "ready" ]
  /\ writers' = [ writers EXCEPT ![Next1(p)] = @ \cup { p } ]
  /\ seen' = [ seen EXCEPT ![p] = @ \cup { Next1(p) } ]
  /\ pc' = [ pc EXCEPT ![p] = "enter" ]
  /\ UNCHANGED << todo, text, left, got >>
Return(p) ==
  /\ pc[p] = "enter" /\ todo[p] = << >>
  /\ got' = [ got EXCEPT ![p] = Append(@, Fresh(text[p])) ]
  /\ pc' = [ pc EXCEPT ![p] = "idle" ]
  /\ UNCHANGED << todo, text, left, rule, writers, seen >>
Step(p) == Use(p) \/ Begin(p) \/ End(p) \/ Return(p)
Next == \E p \in Procs : Step(p) \/ \E t \in Texts : Call(p, t)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

(* two accesses of a rule, one of them an assignment, that nothing orders       *)
NoRace ==
  /\ \A r \in Rules : Cardinality(writers[r]) <= 1
  /\ \A p \in Procs : (pc[p] = "enter" /\ todo[p] # << >>)
       => ~ENABLED Use(p) \/ Sync = "once" \/ Next1(p) \in seen[p]
Results == \A p \in Procs : \A i \in DOMAIN got[p] : got[p][i] # Crash
EveryCallReturns == \A p \in Procs : (pc[p] # "idle") ~> (pc[p] = "idle")

-----------------------------------------------------------------------------
(* Conformance: a recorded run is one behaviour per thread, each a session of   *)
(* its own (SoqlSession), and no unordered accesses were seen.                 *)
=============================================================================
