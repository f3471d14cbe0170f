----------------------------- MODULE SoqlSession -----------------------------
(***************************************************************************)
(* The parser as seen by one program over time (P02, P23): the program calls  *)
(* the parser, keeps the results, reads them, restores results from their     *)
(* JSON form, and overwrites what it holds.                                   *)
(*                                                                           *)
(* h : the handles the program holds, [of, as]: which text, and whether it     *)
(*     is the parser's result, a restored one, or overwritten since.          *)
(* An operation is [a, k]: parse text k, or scramble|restore|read handle k.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

SOps(h, texts) ==
  { [ a |-> "parse", k |-> t ] : t \in texts }
  \cup { [ a |-> x, k |-> j ] : x \in { "scramble", "restore", "read" },
         j \in { i \in DOMAIN h : h[i].as # "scrambled" } }

SStep(h, op) ==
  CASE op.a = "parse"    -> Append(h, [ of |-> op.k, as |-> "parsed" ])
    [] op.a = "restore"  -> Append(h, [ of |-> h[op.k].of, as |-> "restored" ])
    [] op.a = "scramble" -> [ h EXCEPT ![op.k].as = "scrambled" ]
    [] op.a = "read"     -> h

Creates(op) == op.a \in { "parse", "restore" }

(* What a step may do to the contents of the handles: `new` is the content of  *)
(* the handle it creates, `chg` are the handles held before whose content      *)
(* differs afterwards; fresh[t][as] is what a program that has done nothing    *)
(* else gets for text t.                                                      *)
SAllowed(h, op, new, chg, fresh) ==
  /\ op.a = "parse"    => new = fresh[op.k].parsed
  /\ op.a = "restore"  => new = fresh[h[op.k].of].restored
  /\ chg \subseteq (IF op.a = "scramble" THEN { op.k } ELSE {})

-----------------------------------------------------------------------------
(* A model of an implementation: results live in cells of a heap.             *)
(* Variant "sound" allocates; the others are mistakes that the histories have  *)
(* to be able to tell from it.                                                *)
CONSTANTS Texts, Depth, Variant
VARIABLES h, cell, heap, hist
vars == << h, cell, heap, hist >>

Value(t, as) == << as, t >>
BadText == 3                     \* a text that is rejected
Parsed(i) == h[i].as = "parsed" /\ h[i].of # BadText
(* the cell the result of `op` goes to: 0 = a new one *)
Reuse(op) ==
  LET same == { i \in DOMAIN h : h[i].of = op.k /\ Parsed(i) }
      old  == { i \in DOMAIN h : h[i].of = op.k /\ h[i].of # BadText } IN
  CASE Variant = "cache" /\ op.a = "parse" /\ old # {} ->
        cell[CHOOSE i \in old : \A j \in old : i <= j]
    [] Variant = "cow" /\ op.a = "restore" -> cell[op.k]
    [] OTHER -> 0
Residue(op) ==
  CASE Variant = "residue" /\ op.a = "parse" /\ hist # <<>> ->
        hist[Len(hist)] = [ a |-> "parse", k |-> BadText ]
    [] Variant = "counter" /\ op.a = "parse" -> Len(h) >= 2
    [] OTHER -> FALSE

Init == h = <<>> /\ cell = <<>> /\ heap = <<>> /\ hist = <<>>
Do(op) ==
  /\ h' = SStep(h, op)
  /\ hist' = Append(hist, op)
  /\ IF Creates(op)
     THEN LET c == Reuse(op)
              v == IF Residue(op) THEN << "residue" >> ELSE Value(h'[Len(h')].of, h'[Len(h')].as) IN
          IF c = 0
          THEN heap' = Append(heap, v) /\ cell' = Append(cell, Len(heap) + 1)
          ELSE heap' = heap /\ cell' = Append(cell, c)
     ELSE IF op.a = "scramble"
     THEN heap' = [ heap EXCEPT ![cell[op.k]] = << "scrambled" >> ] /\ UNCHANGED cell
     ELSE UNCHANGED << heap, cell >>
Next == Len(hist) < Depth /\ \E op \in SOps(h, Texts) : Do(op)
Spec == Init /\ [][Next]_vars

(* Every handle that was not overwritten holds what a fresh program would get  *)
Isolated == \A i \in DOMAIN h : h[i].as # "scrambled" =>
              heap[cell[i]] = Value(h[i].of, h[i].as)
(* the same, as a property of the steps: what conformance checks               *)
StepsAllowed ==
  [][ \E op \in SOps(h, Texts) :
        /\ hist' = Append(hist, op)
        /\ SAllowed(h, op, IF Creates(op) THEN heap'[cell'[Len(h')]] ELSE <<>>,
                    { i \in DOMAIN h : heap[cell[i]] # heap'[cell'[i]] },
                    [ t \in Texts |-> [ parsed |-> Value(t, "parsed"), restored |-> Value(t, "restored") ] ]) ]_vars

-----------------------------------------------------------------------------
(* All histories of n steps, as sequences of operations *)
RECURSIVE Histories(_, _, _)
Histories(g, n, texts) ==
  IF n = 0 THEN { <<>> }
  ELSE UNION { { << op >> \o r : r \in Histories(SStep(g, op), n - 1, texts) } : op \in SOps(g, texts) }

(* P23: what stays behind when every result has been dropped.  phases[k] is     *)
(* measured after the k-th batch of texts; the first ones warm up.             *)
FootprintOk(phases, slack) ==
  LET n == Len(phases)
      a == phases[2]
      b == phases[n] IN
  /\ b.heap <= a.heap + slack
  /\ b.goroutines <= a.goroutines
=============================================================================
