------------------------------ MODULE SoqlKeys ------------------------------
(***************************************************************************)
(* Keys (P24): the key of a name is the base 64 encoding (standard alphabet, *)
(* padded) of the UTF-8 encoding of each of its case-folded components,       *)
(* joined by dots.                                                            *)
(***************************************************************************)
EXTENDS SoqlChars

Digit64 == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
D64 == [ v \in 0..63 |-> SubSeq(Digit64, v + 1, v + 1) ]

(* a recorded name to code points; u{h} stands for the character with          *)
(* hexadecimal code h (drv/codec.go)                                           *)
RECURSIVE Points(_, _, _)
Points(cs, i, acc) ==
  IF i > Len(cs) THEN acc
  ELSE IF cs[i] = 117 /\ At(cs, i + 1) = 123
  THEN LET e == Span(cs, i + 2, HexDigits)
           v == FoldLeft(LAMBDA a, d : 16 * a + DigitVal(d), 0, SubSeq(cs, i + 2, e - 1)) IN
       Points(cs, e + 1, Append(acc, v))
  ELSE Points(cs, i + 1, Append(acc, cs[i]))

Utf8Of(c) ==
  CASE c < 128 -> << c >>
    [] c < 2048 -> << 192 + (c \div 64), 128 + (c % 64) >>
    [] c < 65536 -> << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    [] OTHER -> << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Utf8(cs) == FlattenSeq([ i \in DOMAIN cs |-> Utf8Of(cs[i]) ])

(* three bytes to four digits *)
Quad(b, i) ==
  LET n  == Len(b) - i + 1   \* bytes left
      x  == b[i]
      y  == IF n > 1 THEN b[i + 1] ELSE 0
      z  == IF n > 2 THEN b[i + 2] ELSE 0 IN
  D64[x \div 4] \o D64[16 * (x % 4) + (y \div 16)]
  \o (IF n > 1 THEN D64[4 * (y % 16) + (z \div 64)] ELSE "=")
  \o (IF n > 2 THEN D64[z % 64] ELSE "=")
Base64(b) == FoldLeft(LAMBDA a, k : a \o Quad(b, 3 * k - 2), "", [ k \in 1..((Len(b) + 2) \div 3) |-> k ])

ComponentKey(s) == Base64(Utf8(Points(Cs(s), 1, <<>>)))
(* the key of name n after a dot, tab: the keys of its components *)
JoinedKeys(n, tab) == FoldLeft(LAMBDA a, c : a \o "." \o tab[c], "", n)
=============================================================================
