------------------------------ MODULE SoqlBase ------------------------------
(***************************************************************************)
(* Vocabulary shared by all modules: names, tokens, abstract syntax,       *)
(* option values and small sequence helpers.                               *)
(*                                                                         *)
(* A token is a record [k, l, t, c, v, r]:                                  *)
(*   k  kind: "id" bare identifier or keyword, "qid" quoted name,          *)
(*      "p" punctuation, "op" comparison symbol, "lit" literal,            *)
(*      "par" :parameter, "dtn" NAME:n date literal, "bad" foreign symbol   *)
(*   l  case-folded text (keyword matching, name resolution)               *)
(*   t  text as written (chosen by the layout, see drv/render.go)          *)
(*   c  literal class, v canonical literal value, r raw literal text       *)
(*                                                                         *)
(* A name is a sequence of case-folded components.                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC


MapS(s, f(_)) == [ i \in DOMAIN s |-> f(s[i]) ]

IndexOf(s, P(_)) ==
  IF \E i \in DOMAIN s : P(s[i])
  THEN CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])
  ELSE 0

HasDup(s) == \E i, j \in DOMAIN s : i < j /\ s[i] = s[j]

-----------------------------------------------------------------------------
(* Abstract syntax.  All operands and select items share one record shape. *)
(*   ty    Field | FieldSet | Function | SubQuery | Null | Int | Float |    *)
(*         Bool | String | Date | DateTime | Time | List |                  *)
(*         ParameterizedValue | DateTimeLiteralName                         *)
(*   n     name (case-folded)        o   last component as written          *)
(*   v     canonical literal value   al / at  alias folded / as written     *)
(*   ps    function parameters       sub  <<query>> of a subquery           *)
(*   its   list items                ag, ns  Aggregated, NotSelected        *)
EmptyField ==
  [ ty |-> "Null", n |-> <<>>, o |-> "", v |-> "", al |-> "", at |-> "",
    ps |-> <<>>, sub |-> <<>>, its |-> <<>>, ag |-> FALSE, ns |-> FALSE ]

FieldRef(nm, orig) == [ EmptyField EXCEPT !.ty = "Field", !.n = nm, !.o = orig ]
WithAlias(f, a, t) == [ f EXCEPT !.al = a, !.at = t ]

(* Conditions are trees: comparisons, binary and/or, unary not; "none".    *)
NoCond == [ op |-> "none" ]
Cmp(o, a, b) == [ op |-> "cmp", o |-> o, a |-> a, b |-> b ]
CNot(x) == [ op |-> "not", x |-> x ]
CBin(o, x, y) == [ op |-> o, x |-> x, y |-> y ]

(* Date literals (docs of SOQL; elements.go dateTimeLiteralName).           *)
DateLiterals0 ==
  { "this_fiscal_quarter", "last_fiscal_quarter", "next_fiscal_quarter",
    "this_fiscal_year", "last_fiscal_year", "next_fiscal_year",
    "last_90_days", "next_90_days", "this_quarter", "last_quarter",
    "next_quarter", "last_month", "this_month", "next_month", "last_week",
    "this_week", "next_week", "this_year", "last_year", "next_year",
    "yesterday", "tomorrow", "today" }
DateLiteralsN ==
  { "next_n_fiscal_quarters", "last_n_fiscal_quarters",
    "next_n_fiscal_years", "last_n_fiscal_years", "next_n_quarters",
    "last_n_quarters", "next_n_months", "last_n_months", "next_n_years",
    "last_n_years", "next_n_weeks", "last_n_weeks", "last_n_days",
    "next_n_days" }
=============================================================================
