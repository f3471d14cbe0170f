------------------------------ MODULE SoqlChars ------------------------------
(***************************************************************************)
(* Texts as sequences of code points, and recognizers over them.  A          *)
(* recognizer takes a text and a position (from 1) and gives the position    *)
(* after the longest match, or 0.                                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ s \in { SubSeq(Ascii, i, i) : i \in 1..95 } |->
              31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = s) ]
(* the code points of a string of printable ASCII characters *)
Cs(s) == [ i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)] ]

At(cs, i) == IF i \in DOMAIN cs THEN cs[i] ELSE -1
Digits == 48..57
OctDigits == 48..55
HexDigits == Digits \cup 65..70 \cup 97..102
DigitVal(c) == CASE c \in Digits -> c - 48 [] c \in 65..70 -> c - 55 [] OTHER -> c - 87
WordChars == Digits \cup 65..90 \cup 97..122 \cup { 36, 95 }
Blanks == { 9, 10, 11, 12, 13, 32, 133, 160 }
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lowers(cs) == [ i \in DOMAIN cs |-> Lower(cs[i]) ]

(* a boundary between a word character and another (or the end) *)
AtBoundary(cs, i) == (At(cs, i - 1) \in WordChars) # (At(cs, i) \in WordChars)

RECURSIVE Span(_, _, _)
Span(cs, i, S) == IF At(cs, i) \in S THEN Span(cs, i + 1, S) ELSE i

(* the characters of S in cs[i..j-1] *)
Keep(cs, i, j, S) == SelectSeq(SubSeq(cs, i, j - 1), LAMBDA c : c \in S)

IsText(cs, i, t) == /\ i + Len(t) - 1 <= Len(cs)
                    /\ \A k \in DOMAIN t : cs[i + k - 1] = t[k]
IsTextI(cs, i, t) == /\ i + Len(t) - 1 <= Len(cs)
                     /\ \A k \in DOMAIN t : Lower(cs[i + k - 1]) = t[k]
=============================================================================
