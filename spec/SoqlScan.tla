------------------------------- MODULE SoqlScan -------------------------------
(***************************************************************************)
(* From the characters of a text to its tokens.                             *)
(*                                                                         *)
(* Scan(cs): the tokens of the code points cs as the records of SoqlBase.    *)
(* Blanks and comments separate.  A token of kind "bad" stands where nothing *)
(* of the language starts; a text with one is not a query.                   *)
(* The words SELECT, FROM, BY, LIMIT and OFFSET only act as keywords in       *)
(* front of a blank or comment; elsewhere they are "tid", names.             *)
(***************************************************************************)
EXTENDS SoqlBase, SoqlLiteral

Hex == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
RECURSIVE HexText(_)
HexText(n) == IF n < 16 THEN Hex[n + 1] ELSE HexText(n \div 16) \o Hex[(n % 16) + 1]
(* one character in the strings of TLC, see drv/codec.go *)
CharText(c) ==
  CASE c \in 32..126 -> SubSeq(Ascii, c - 31, c - 31)
    [] c = 9 -> "\t" [] c = 10 -> "\n" [] c = 12 -> "\f" [] c = 13 -> "\r"
    [] c < 128 -> "?"
    [] OTHER -> "u{" \o HexText(c) \o "}"
TextOf(cs) == FoldLeft(LAMBDA a, c : a \o CharText(c), "", cs)
(* case folding of Latin-1, Greek and Cyrillic letters *)
FoldChar(c) ==
  IF c < 128 THEN IF c > 64 /\ c < 91 THEN c + 32 ELSE c
  ELSE IF \/ c \in 192..222 /\ c # 215
          \/ c \in 913..939 /\ c # 930
          \/ c \in 1040..1071 THEN c + 32 ELSE c
Folded(cs) == [ i \in DOMAIN cs |-> FoldChar(cs[i]) ]

RECURSIVE CommentEnd(_, _), LineEnd(_, _), SkipGaps(_, _)
LineEnd(cs, i) == IF At(cs, i) \in { -1, 10, 13 } THEN i ELSE LineEnd(cs, i + 1)
(* behind the next "*/", or 0 *)
CommentEnd(cs, i) == IF i >= Len(cs) THEN 0 ELSE IF cs[i] = 42 /\ cs[i + 1] = 47 THEN i + 2 ELSE CommentEnd(cs, i + 1)
SkipGaps(cs, i) ==
  IF At(cs, i) \in Blanks THEN SkipGaps(cs, i + 1)
  ELSE IF At(cs, i) = 45 /\ At(cs, i + 1) = 45 THEN SkipGaps(cs, LineEnd(cs, i))
  ELSE IF At(cs, i) = 47 /\ At(cs, i + 1) = 42 /\ CommentEnd(cs, i + 2) # 0 THEN SkipGaps(cs, CommentEnd(cs, i + 2))
  ELSE i

Token(k, l, t) == [ k |-> k, l |-> l, t |-> t, v |-> "" ]
IsA(j, tok) == [ j |-> j, tok |-> tok ]
BadAt(i) == IsA(i + 1, Token("bad", "?", "?"))
PunctAt(cs, i, s) == IsA(i + Len(s), Token("p", s, s))
OpAt(cs, i, s) == IsA(i + Len(s), Token("op", s, s))

NeedGap == { "select", "from", "by", "limit", "offset" }
(* canonical values, as drv/project.go writes them; floats are not compared,   *)
(* nor strings with control characters                                        *)
Pad(n, k) == LET t == ToString(n) IN FoldLeft(LAMBDA a, i : "0" \o a, t, [ i \in 1..(k - Len(t)) |-> i ])
RECURSIVE TrimZeros(_)
TrimZeros(t) == IF SubSeq(t, Len(t), Len(t)) = "0" THEN TrimZeros(SubSeq(t, 1, Len(t) - 1)) ELSE t
DayText(v) == Pad(v[1], 4) \o "-" \o Pad(v[2], 2) \o "-" \o Pad(v[3], 2)
HourText(v) == Pad(v[1], 2) \o ":" \o Pad(v[2], 2) \o ":" \o Pad(v[3], 2)
               \o (IF v[4] = 0 THEN "" ELSE "." \o TrimZeros(Pad(v[4], 9)))
Odd(c) == c < 32 \/ c = 127
IntText(v) == (IF v[1] = -1 /\ Len(v) > 1 THEN "-" ELSE "")
              \o (IF Len(v) = 1 THEN "0" ELSE FoldLeft(LAMBDA a, d : a \o ToString(d), "", Tail(v)))
ValueText(lit) ==
  CASE lit.ty = "Int" -> IntText(lit.v)
    [] lit.ty = "Date" -> DayText(lit.v)
    [] lit.ty = "Time" -> HourText(lit.v)
    [] lit.ty = "DateTime" -> DayText(lit.v) \o "T" \o HourText(SubSeq(lit.v, 4, 7)) \o "Z"
    [] lit.ty = "String" -> IF \E i \in DOMAIN lit.v : Odd(lit.v[i]) THEN "" ELSE TextOf(lit.v)
    [] lit.ty = "Float" -> CASE lit.v = << 1 >> -> "+Inf" [] lit.v = << -1 >> -> "-Inf" [] lit.v = <<>> -> "NaN" [] OTHER -> ""
    [] OTHER -> ""
(* LIMIT and OFFSET only take integers that are written in decimal *)
IsRadix(cs, i) == At(cs, i) = 48 /\ Lower(At(cs, i + 1)) \in { 98, 111, 120 }
LitTok(cs, i, r) ==
  IF r.j = 0 \/ ~r.lit.ok THEN BadAt(i)
  ELSE IsA(r.j, [ k |-> "lit", l |-> "", t |-> "", v |-> ValueText(r.lit),
                  c |-> IF r.lit.ty = "Int" /\ IsRadix(cs, i) THEN "IntR" ELSE r.lit.ty ])

(* NAME:n without gaps *)
DateCount(cs, i) ==   \* the number behind the colon: [j, lit]
  LET s == IF At(cs, i) = 43 THEN i + 1 ELSE i
      w == WholeEnd(cs, s) IN
  IF w = 0 THEN [ j |-> 0, lit |-> NoLit ]
  ELSE IF ~AtBoundary(cs, w) THEN [ j |-> 0, lit |-> NoLit ]
  ELSE [ j |-> w, lit |-> IntLit(FALSE, StripLead(Vals(Keep(cs, s, w, Digits)))) ]

WordTok(cs, i) ==
  LET j == Span(cs, i, WordChars)
      w == SubSeq(cs, i, j - 1)
      t == TextOf(w)
      l == TextOf(Folded(w))
      n == IF l \in DateLiteralsN /\ At(cs, j) = 58 THEN DateCount(cs, j + 1) ELSE [ j |-> 0, lit |-> NoLit ]
  IN IF n.j # 0
     THEN IF n.lit.ok THEN IsA(n.j, [ k |-> "dtn", l |-> l, t |-> t, v |-> IntText(n.lit.v) ]) ELSE BadAt(i)
     ELSE IsA(j, Token(IF l \in NeedGap /\ SkipGaps(cs, j) = j THEN "tid" ELSE "id", l, t))

(* a parameter; gaps may stand behind the colon *)
ParTok(cs, i) ==
  LET s == SkipGaps(cs, i + 1)
      j == Span(cs, s, WordChars) IN
  IF j = s \/ At(cs, s) \in Digits THEN BadAt(i)
  ELSE IsA(j, Token("par", TextOf(Folded(SubSeq(cs, s, j - 1))), TextOf(SubSeq(cs, s, j - 1))))

(* a name in double quotes: no line end inside *)
NameTok(cs, i) ==
  LET q == QuotedAt(cs, i + 1, 34, <<>>) IN
  IF q.j = 0 \/ (q.j # 0 /\ \E k \in (i + 1)..(q.j - 2) : cs[k] \in { 10, 13 }) THEN BadAt(i)
  ELSE IsA(q.j, Token("qid", TextOf(Folded(q.v)), TextOf(q.v)))

WordStart == WordChars \ Digits
TokenAt(cs, i) ==
  LET c == cs[i] IN
  CASE c \in WordStart -> WordTok(cs, i)
    [] c \in Digits -> LitTok(cs, i, LiteralAt(cs, i))
    [] c = 39 -> LitTok(cs, i, StringAt(cs, i))
    [] c = 34 -> NameTok(cs, i)
    [] c = 58 -> ParTok(cs, i)
    [] c \in { 43, 45 } -> LitTok(cs, i, LiteralAt(cs, i))
    [] c = 46 /\ At(cs, i + 1) \in Digits -> LitTok(cs, i, LiteralAt(cs, i))
    [] c = 46 -> PunctAt(cs, i, ".") [] c = 44 -> PunctAt(cs, i, ",")
    [] c = 40 -> PunctAt(cs, i, "(") [] c = 41 -> PunctAt(cs, i, ")")
    [] c = 33 /\ At(cs, i + 1) = 61 -> OpAt(cs, i, "!=")
    [] c = 60 /\ At(cs, i + 1) = 61 -> OpAt(cs, i, "<=")
    [] c = 62 /\ At(cs, i + 1) = 61 -> OpAt(cs, i, ">=")
    [] c = 61 -> OpAt(cs, i, "=") [] c = 60 -> OpAt(cs, i, "<") [] c = 62 -> OpAt(cs, i, ">")
    [] OTHER -> BadAt(i)

(* i: where the next token starts; the rest of a text behind a bad one does     *)
(* not matter.  (A fold, for TLC is slow in deep recursions.)                   *)
ScanStep(cs, st, p) ==
  IF p # st.i THEN st
  ELSE LET r == TLCEval(TokenAt(cs, p)) IN
       [ i |-> IF r.tok.k = "bad" THEN 0 ELSE SkipGaps(cs, r.j), T |-> Append(st.T, r.tok) ]
Scan(cs) ==
  FoldLeft(LAMBDA st, p : ScanStep(cs, st, p), [ i |-> SkipGaps(cs, 1), T |-> <<>> ], [ p \in DOMAIN cs |-> p ]).T
=============================================================================
