----------------------------- MODULE SoqlOutcome -----------------------------
(***************************************************************************)
(* What every call of the parser gives back, whatever the text (P01), and    *)
(* what the layout of a text does not influence (P19).                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

(* A call ends with a query, or with a message that names a place of the      *)
(* text (a text that is not a query), or with a message about its meaning.    *)
Outcomes == { "ok", "syntax", "error" }

(* lines: the length of each line of the text, in bytes.  The place may be    *)
(* just behind a line.                                                        *)
PlaceOk(line, col, lines) ==
  /\ line \in 1..Len(lines)
  /\ col \in 1..(lines[line] + 1)

OutcomeOk(o) ==
  /\ o.out \in Outcomes
  /\ o.msg = (o.out # "ok")
  /\ o.out = "syntax" => PlaceOk(o.line, o.col, o.lines)
  /\ o.out = "ok" => o.nf > 0 /\ o.no > 0

(* all layouts of one token sequence have one outcome and one result          *)
SameOutcome(o) == \A i \in DOMAIN o.outs : o.outs[i] = o.outs[1]
SameResult(o) == \A i \in DOMAIN o.qs : o.qs[i] = o.qs[1]
=============================================================================
