----------------------------- MODULE SoqlLiteral -----------------------------
(***************************************************************************)
(* What a literal means, character by character (P20).                      *)
(*                                                                         *)
(* LitMeaning(cs): the meaning of the text cs as one literal, a record       *)
(* [ok, ty, v] with v a sequence of integers:                                *)
(*   Int       sign, decimal digits                                          *)
(*   Float     sign, decimal exponent, digits of 0.ddd * 10^exponent         *)
(*   String    code points                                                   *)
(*   Date      year, month, day                                              *)
(*   Time      hour, minute, second, nanosecond                              *)
(*   DateTime  year, month, day, hour, minute, second, nanosecond in UTC     *)
(*   Bool 0/1, Null; Infinity and NaN are floats with v <<sign>> and <<>>    *)
(***************************************************************************)
EXTENDS SoqlChars, SoqlRandom

NoLit == [ ok |-> FALSE, ty |-> "", v |-> <<>> ]
IsLit(ty, v) == [ ok |-> TRUE, ty |-> ty, v |-> v ]

-----------------------------------------------------------------------------
(* Numbers *)
RECURSIVE StripLead(_)
StripLead(d) == IF d # <<>> /\ d[1] = 0 THEN StripLead(Tail(d)) ELSE d
RECURSIVE StripTrail(_)
StripTrail(d) == IF d # <<>> /\ Last(d) = 0 THEN StripTrail(Front(d)) ELSE d

(* d * r + x, on decimal digit sequences without leading zeros *)
RECURSIVE MulAdd(_, _, _)
MulAdd(d, r, x) ==
  IF d = <<>> THEN IF x = 0 THEN <<>> ELSE Append(MulAdd(<<>>, r, x \div 10), x % 10)
  ELSE LET y == Last(d) * r + x IN Append(MulAdd(Front(d), r, y \div 10), y % 10)
RECURSIVE FromRadix(_, _, _)
FromRadix(cs, r, acc) ==
  IF cs = <<>> THEN acc ELSE FromRadix(Tail(cs), r, StripLead(MulAdd(acc, r, DigitVal(cs[1]))))

RECURSIVE LessEq(_, _)
(* of equally long digit sequences *)
LessEq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessEq(Tail(a), Tail(b))
AtMost(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LessEq(a, b))
MaxInt == << 9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7 >>
MinInt == << 9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8 >>

IntLit(neg, d) ==
  IF d = <<>> THEN IsLit("Int", << 1 >>)
  ELSE IF AtMost(d, IF neg THEN MinInt ELSE MaxInt)
  THEN IsLit("Int", << IF neg THEN -1 ELSE 1 >> \o d) ELSE NoLit

US == { 95 }   \* underscore
Vals(cs) == [ k \in DOMAIN cs |-> DigitVal(cs[k]) ]

(* 0, or digits that do not start with ... a zero stands alone *)
WholeEnd(cs, i) ==
  IF At(cs, i) = 48 THEN Span(cs, i + 1, US)
  ELSE IF At(cs, i) \in Digits THEN Span(cs, i + 1, Digits \cup US) ELSE 0
SignEnd(cs, i) == IF At(cs, i) \in { 43, 45 } THEN i + 1 ELSE i
(* an exponent at i: its end, or 0 *)
ExpEnd(cs, i) ==
  IF At(cs, i) \notin { 69, 101 } THEN 0
  ELSE LET s == SignEnd(cs, i + 1) IN
       IF At(cs, s) \in Digits THEN Span(cs, s, Digits \cup US) ELSE 0
RECURSIVE Num(_, _)
Num(d, acc) == IF d = <<>> THEN acc ELSE Num(Tail(d), acc * 10 + d[1])
ExpVal(cs, i, j) ==     \* of cs[i..j-1] = e[sign]digits
  LET s == SignEnd(cs, i + 1)
      d == StripLead(Vals(Keep(cs, s, j, Digits)))
      n == IF Len(d) > 6 THEN 999999 ELSE Num(d, 0)
  IN IF At(cs, i + 1) = 45 THEN -n ELSE n

(* Floats are those of double precision: what is not nearest to one of them   *)
(* is no literal, what is nearest to 0 is 0.                                  *)
Overflow == << 1, 7, 9, 7, 6, 9, 3, 1, 3, 4, 8, 6, 2, 3, 1, 5, 8, 0, 7, 9 >>
RECURSIVE AtLeast(_, _)
AtLeast(d, b) == IF b = <<>> THEN TRUE ELSE IF d = <<>> THEN FALSE
                 ELSE IF d[1] # b[1] THEN d[1] > b[1] ELSE AtLeast(Tail(d), Tail(b))
FloatLit(neg, int, frac, e) ==
  LET all == int \o frac
      d == StripTrail(StripLead(all))
      lead == Len(all) - Len(StripLead(all))
      x == Len(int) - lead + e
  IN IF d = <<>> \/ x <= -324 THEN IsLit("Float", << IF neg THEN -1 ELSE 1, 0 >>)
     ELSE IF x > 309 \/ (x = 309 /\ AtLeast(d, Overflow)) THEN NoLit
     ELSE IsLit("Float", << IF neg THEN -1 ELSE 1, x >> \o d)

(* [j, lit]: the number at position i ends before j; j = 0 if there is none   *)
NumberAt(cs, i) ==
  LET rad(c, r, S) ==
        IF At(cs, i) = 48 /\ Lower(At(cs, i + 1)) = c /\ At(cs, i + 2) \in S
        THEN LET j == Span(cs, i + 2, S \cup US) IN
             [ j |-> j, lit |-> IntLit(FALSE, FromRadix(Keep(cs, i + 2, j, S), r, <<>>)) ]
        ELSE [ j |-> 0, lit |-> NoLit ]
      b == rad(98, 2, { 48, 49 })
      o == rad(111, 8, OctDigits)
      x == rad(120, 16, HexDigits)
      neg == At(cs, i) = 45
      s == SignEnd(cs, i)
      w == WholeEnd(cs, s)
      (* digits . digits? exp? *)
      dot == w # 0 /\ At(cs, w) = 46
      fe == Span(cs, w + 1, Digits \cup US)
      (* . digits exp? *)
      dot0 == At(cs, s) = 46 /\ At(cs, s + 1) \in Digits \cup US
      fe0 == Span(cs, s + 1, Digits \cup US)
      ex(j) == LET e == ExpEnd(cs, j) IN IF e = 0 THEN j ELSE e
      ev(j) == IF ExpEnd(cs, j) = 0 THEN 0 ELSE ExpVal(cs, j, ExpEnd(cs, j))
      whole == Vals(Keep(cs, s, w, Digits))
  IN
  CASE b.j # 0 -> b [] o.j # 0 -> o [] x.j # 0 -> x
    [] dot -> [ j |-> ex(fe), lit |-> FloatLit(neg, whole, Vals(Keep(cs, w + 1, fe, Digits)), ev(fe)) ]
    [] dot0 -> [ j |-> ex(fe0),
                 lit |-> IF Keep(cs, s + 1, fe0, Digits) = <<>> THEN NoLit
                         ELSE FloatLit(neg, <<>>, Vals(Keep(cs, s + 1, fe0, Digits)), ev(fe0)) ]
    [] w # 0 /\ ExpEnd(cs, w) # 0 -> [ j |-> ex(w), lit |-> FloatLit(neg, whole, <<>>, ev(w)) ]
    [] w # 0 -> [ j |-> w, lit |-> IntLit(neg, StripLead(whole)) ]
    [] OTHER -> [ j |-> 0, lit |-> NoLit ]

-----------------------------------------------------------------------------
(* Dates and times *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                  [] m \in { 4, 6, 9, 11 } -> 30 [] OTHER -> 31
ValidDate(y, m, d) == m \in 1..12 /\ d \in 1..DaysIn(y, m)

TwoAt(cs, i) == At(cs, i) \in Digits /\ At(cs, i + 1) \in Digits
Two(cs, i) == DigitVal(cs[i]) * 10 + DigitVal(cs[i + 1])

(* shape of yyyy-mm-dd at i (4 or more year digits): position after, or 0 *)
DateEnd(cs, i) ==
  LET s == IF At(cs, i) = 45 THEN i + 1 ELSE i
      y == Span(cs, s, Digits) IN
  IF /\ y - s >= 4 /\ At(cs, y) = 45
     /\ At(cs, y + 1) \in { 48, 49 } /\ At(cs, y + 2) \in Digits /\ At(cs, y + 3) = 45
     /\ At(cs, y + 4) \in 48..51 /\ At(cs, y + 5) \in Digits
  THEN y + 6 ELSE 0
DateVal(cs, i) ==     \* only years of four digits are dates
  << Num(Vals(SubSeq(cs, i, i + 3)), 0), Two(cs, i + 5), Two(cs, i + 8) >>
DateOk(cs, i, j) == j = i + 10 /\ cs[i] # 45
                    /\ LET v == DateVal(cs, i) IN ValidDate(v[1], v[2], v[3])

(* shape of hh:mm[:ss[.f{1,9}]]: [j, v]; v = <<h, m, s, ns>> *)
RECURSIVE Pad9(_)
Pad9(d) == IF Len(d) < 9 THEN Pad9(Append(d, 0)) ELSE d
ClockAt(cs, i) ==
  IF ~( /\ At(cs, i) \in { 48, 49, 50 } /\ At(cs, i + 1) \in Digits /\ At(cs, i + 2) = 58
        /\ At(cs, i + 3) \in 48..53 /\ At(cs, i + 4) \in Digits )
  THEN [ j |-> 0, v |-> <<>> ]
  ELSE LET hm == << Two(cs, i), Two(cs, i + 3) >> IN
    IF ~(At(cs, i + 5) = 58 /\ At(cs, i + 6) \in 48..54 /\ At(cs, i + 7) \in Digits)
    THEN [ j |-> i + 5, v |-> hm \o << 0, 0 >> ]
    ELSE LET f0 == Span(cs, i + 9, Digits)
             f == IF f0 > i + 18 THEN i + 18 ELSE f0 IN
      IF At(cs, i + 8) # 46 \/ f = i + 9 THEN [ j |-> i + 8, v |-> hm \o << Two(cs, i + 6), 0 >> ]
      ELSE [ j |-> f, v |-> hm \o << Two(cs, i + 6), Num(Pad9(Vals(SubSeq(cs, i + 9, f - 1))), 0) >> ]
ClockOk(v) == v[1] < 24 /\ v[2] < 60 /\ v[3] < 60

(* the day after / before *)
NextDay(d) == IF d[3] < DaysIn(d[1], d[2]) THEN << d[1], d[2], d[3] + 1 >>
              ELSE IF d[2] < 12 THEN << d[1], d[2] + 1, 1 >> ELSE << d[1] + 1, 1, 1 >>
PrevDay(d) == IF d[3] > 1 THEN << d[1], d[2], d[3] - 1 >>
              ELSE IF d[2] > 1 THEN << d[1], d[2] - 1, DaysIn(d[1], d[2] - 1) >>
              ELSE << d[1] - 1, 12, 31 >>
(* minutes: local minus UTC *)
RECURSIVE ToUTC(_, _, _)
ToUTC(d, t, off) ==
  LET m == t[1] * 60 + t[2] - off IN
  IF m < 0 THEN ToUTC(PrevDay(d), t, off - 1440)
  ELSE IF m >= 1440 THEN ToUTC(NextDay(d), t, off + 1440)
  ELSE d \o << m \div 60, m % 60, t[3], t[4] >>

DateTimeAt(cs, i) ==
  LET d == DateEnd(cs, i) IN
  IF d = 0 \/ At(cs, d) # 84 THEN [ j |-> 0, lit |-> NoLit ]
  ELSE LET c == ClockAt(cs, d + 1) IN
    IF c.j = 0 THEN [ j |-> 0, lit |-> NoLit ]
    ELSE LET z == At(cs, c.j) = 90
             o == At(cs, c.j) \in { 43, 45 } /\ TwoAt(cs, c.j + 1) /\ At(cs, c.j + 3) = 58
                  /\ At(cs, c.j + 4) \in 48..53 /\ At(cs, c.j + 5) \in Digits
             off == IF z THEN 0
                    ELSE (Two(cs, c.j + 1) * 60 + Two(cs, c.j + 4)) * (IF At(cs, c.j) = 45 THEN -1 ELSE 1)
         IN IF ~z /\ ~o THEN [ j |-> 0, lit |-> NoLit ]
            ELSE [ j |-> IF z THEN c.j + 1 ELSE c.j + 6,
                   lit |-> IF ~DateOk(cs, i, d) \/ ~ClockOk(c.v) \/ off > 1440 \/ off < -1440 THEN NoLit
                           ELSE LET u == ToUTC(DateVal(cs, i), c.v, off) IN
                                IF u[1] \in 0..9999 THEN IsLit("DateTime", u) ELSE NoLit ]
DateAt(cs, i) ==
  LET d == DateEnd(cs, i) IN
  [ j |-> d, lit |-> IF d # 0 /\ DateOk(cs, i, d) THEN IsLit("Date", DateVal(cs, i)) ELSE NoLit ]
TimeAt(cs, i) ==
  LET c == ClockAt(cs, i) IN
  [ j |-> c.j, lit |-> IF c.j # 0 /\ ClockOk(c.v) THEN IsLit("Time", c.v) ELSE NoLit ]

-----------------------------------------------------------------------------
(* Strings *)
Rune(n) == IF n > 1114111 \/ n \in 55296..57343 THEN 65533 ELSE n
HexNum(cs, i, j) == FoldLeft(LAMBDA a, c : a * 16 + DigitVal(c), 0, SubSeq(cs, i, j - 1))
HexRun(cs, i, n) == \A k \in 0..(n - 1) : At(cs, i + k) \in HexDigits
(* the escape after a backslash at i: [j, v], j = 0 for none *)
Letters == << << 110, 10 >>, << 114, 13 >>, << 118, 11 >>, << 116, 9 >>, << 98, 8 >>, << 102, 12 >> >>
EscapeAt(cs, i) ==
  LET c == At(cs, i)
      l == SelectInSeq(Letters, LAMBDA p : p[1] = Lower(c))
      b == LET e == Span(cs, i + 2, HexDigits) IN IF e > i + 8 THEN i + 8 ELSE e
  IN
  CASE c \in { 92, 39, 34, 96 } -> [ j |-> i + 1, v |-> << c >> ]
    [] l # 0 -> [ j |-> i + 1, v |-> << Letters[l][2] >> ]
    [] c \in { 95, 37 } -> [ j |-> i + 1, v |-> << 92, c >> ]     \* kept for LIKE
    [] c = 117 /\ HexRun(cs, i + 1, 4) -> [ j |-> i + 5, v |-> << Rune(HexNum(cs, i + 1, i + 5)) >> ]
    [] c = 117 /\ At(cs, i + 1) = 123 /\ b > i + 2 /\ At(cs, b) = 125 ->
         [ j |-> b + 1, v |-> << Rune(HexNum(cs, i + 2, b)) >> ]
    [] c = 120 /\ HexRun(cs, i + 1, 2) -> [ j |-> i + 3, v |-> << HexNum(cs, i + 1, i + 3) >> ]
    [] c \in OctDigits /\ At(cs, i + 1) \in OctDigits /\ At(cs, i + 2) \in OctDigits ->
         [ j |-> i + 3, v |-> << DigitVal(c) * 64 + DigitVal(cs[i + 1]) * 8 + DigitVal(cs[i + 2]) >> ]
    [] OTHER -> [ j |-> 0, v |-> <<>> ]
RECURSIVE QuotedAt(_, _, _, _)
(* the rest of a text in quotes q *)
QuotedAt(cs, i, q, acc) ==
  CASE At(cs, i) = -1 -> [ j |-> 0, v |-> <<>> ]
    [] At(cs, i) = q -> [ j |-> i + 1, v |-> acc ]
    [] At(cs, i) = 92 -> LET e == EscapeAt(cs, i + 1) IN
         IF e.j = 0 THEN e ELSE QuotedAt(cs, e.j, q, acc \o e.v)
    [] OTHER -> QuotedAt(cs, i + 1, q, Append(acc, cs[i]))
StringAt(cs, i) ==
  IF At(cs, i) # 39 THEN [ j |-> 0, lit |-> NoLit ]
  ELSE LET q == QuotedAt(cs, i + 1, 39, <<>>) IN
       [ j |-> q.j, lit |-> IF q.j = 0 THEN NoLit ELSE IsLit("String", q.v) ]

-----------------------------------------------------------------------------
Words == << << Cs("infinity"), IsLit("Float", << 1 >>) >>, << Cs("+infinity"), IsLit("Float", << 1 >>) >>,
            << Cs("-infinity"), IsLit("Float", << -1 >>) >>, << Cs("nan"), IsLit("Float", <<>>) >>,
            << Cs("true"), IsLit("Bool", << 1 >>) >>, << Cs("false"), IsLit("Bool", << 0 >>) >>,
            << Cs("null"), IsLit("Null", <<>>) >> >>
WordAt(cs, i) ==
  LET k == SelectInSeq(Words, LAMBDA w : IsTextI(cs, i, w[1]) /\ At(cs, i + Len(w[1])) \notin WordChars) IN
  IF k = 0 THEN [ j |-> 0, lit |-> NoLit ] ELSE [ j |-> i + Len(Words[k][1]), lit |-> Words[k][2] ]

(* the kinds of literals in order; a kind that matches up to a word boundary  *)
(* decides, even when the value is impossible                                 *)
LiteralAt(cs, i) ==
  LET cut(r) == r.j # 0 /\ (r.lit.ok => AtBoundary(cs, r.j))
      (* an impossible value is only noticed at a boundary for dates, always for numbers *)
      stop(r) == IF r.j = 0 THEN FALSE ELSE AtBoundary(cs, r.j)
      dt == DateTimeAt(cs, i)  da == DateAt(cs, i)
      ti == TimeAt(cs, i)      nu == NumberAt(cs, i)
      st == StringAt(cs, i)
  IN CASE stop(dt) -> dt [] stop(da) -> da [] stop(ti) -> ti
       [] nu.j # 0 /\ (~nu.lit.ok \/ stop(nu)) -> nu
       [] st.j # 0 -> st
       [] OTHER -> WordAt(cs, i)

LitMeaning(cs) ==
  LET r == LiteralAt(cs, 1) IN IF r.j = Len(cs) + 1 THEN r.lit ELSE NoLit

-----------------------------------------------------------------------------
(* Cases: texts of literals *)
N2(n) == << 48 + (n \div 10), 48 + (n % 10) >>
N4(n) == N2(n \div 100) \o N2(n % 100)
Ds(s, k, n) == [ i \in 1..n |-> 48 + Below(D(s, k + i), 10) ]

Pieces ==
  << Cs("a"), Cs("B"), Cs(" "), << 10 >>, << 13, 10 >>, << 9 >>, Cs("\""), Cs("--"), Cs("/*"), Cs("*/"),
     Cs("%"), Cs("_"), << 233 >>, << 28450 >>, << 128512 >>, << 160 >>, Cs("0"), Cs("u0041"), Cs("(") , Cs(","), Cs(":p"),
     Cs("\\'"), Cs("\\\\"), Cs("\\\""), Cs("\\`"), Cs("\\n"), Cs("\\N"), Cs("\\r"), Cs("\\R"), Cs("\\t"), Cs("\\T"),
     Cs("\\b"), Cs("\\B"), Cs("\\f"), Cs("\\F"), Cs("\\v"), Cs("\\V"), Cs("\\_"), Cs("\\%"),
     Cs("\\u0041"), Cs("\\u00e9"), Cs("\\uD83D"), Cs("\\u{1F600}"), Cs("\\u{41}"), Cs("\\u{0}"), Cs("\\u{110000}"),
     Cs("\\x41"), Cs("\\xfF"), Cs("\\101"), Cs("\\777"), Cs("\\000"), Cs("\\377"),
     Cs("\\q"), Cs("\\u12"), Cs("\\u{}"), Cs("\\u{1234567}"), Cs("\\x4"), Cs("\\18"), Cs("\\U0041"), Cs("\\u{41"), Cs("'") >>
Quote(cs) == << 39 >> \o cs \o << 39 >>
NPieces == Len(Pieces)

Years == << 0, 1, 4, 100, 400, 1582, 1899, 1900, 1970, 1999, 2000, 2020, 2023, 2024, 2100, 9999 >>
NumHeads == << Cs("0"), Cs("1"), Cs("7"), Cs("10"), Cs("42"), Cs("907"), Cs("1_000"), Cs("1_"), Cs("0_"), Cs("00"), Cs("012"),
               Cs("9223372036854775807"), Cs("9223372036854775808"), Cs("9223372036854775809"), Cs("10000000000000000000"),
               Cs("123456789012345"), Cs("_1"), <<>> >>
NumFracs == << <<>>, <<>>, Cs("."), Cs(".5"), Cs(".0"), Cs(".25"), Cs(".0625"), Cs(".1_5"), Cs("._"), Cs("._5"), Cs(".00"), Cs(".5."), Cs(".000001") >>
NumExps == << <<>>, <<>>, Cs("e0"), Cs("e5"), Cs("E+3"), Cs("e-2"), Cs("e"), Cs("e+"), Cs("e1_0"), Cs("E-1_2"), Cs("e100"), Cs("e-100"), Cs("f"), Cs("d"), Cs("L"),
               Cs("e308"), Cs("e309"), Cs("E-330"), Cs("e-320"), Cs("e9999999999") >>
Signs == << <<>>, Cs("-"), Cs("+"), Cs("--"), Cs("+-") >>
Radixes == << Cs("0x"), Cs("0X"), Cs("0o"), Cs("0O"), Cs("0b"), Cs("0B"), Cs("-0x"), Cs("0") >>
RadDigits == << Cs("0"), Cs("1"), Cs("7"), Cs("101"), Cs("777"), Cs("ff"), Cs("DEADbeef"), Cs("7fffffffffffffff"), Cs("8000000000000000"),
                Cs("1_0"), Cs("_1"), Cs("1_"), Cs("12"), Cs("8"), Cs("g"), <<>>, Cs("777777777777777777777"), Cs("1000000000000000000000"),
                Cs("00000000000000000000000000001"), Cs("1.5"), Cs("1e1") >>
Offs == << Cs("Z"), Cs("Z"), Cs("+00:00"), Cs("-00:00"), Cs("+09:00"), Cs("-08:00"), Cs("+05:30"), Cs("-03:30"), Cs("+14:00"), Cs("-12:00"), Cs("+23:59"), Cs("-23:59"),
           Cs("z"), Cs("+9:00"), Cs("+0900"), <<>>, Cs(" Z"), Cs("+09:60") >>
Fracs == << <<>>, <<>>, Cs(".0"), Cs(".5"), Cs(".123"), Cs(".000000001"), Cs(".999999999"), Cs(".1234567890"), Cs("."), Cs("_5") >>
Hours == << 0, 1, 9, 11, 12, 19, 20, 23, 24, 29 >>
Mins == << 0, 1, 29, 30, 31, 59, 60 >>
Secs == << 0, 1, 30, 59, 60, 61, 69, 70 >>

Clock(s) ==
  N2(Pick(s, 1, Hours)) \o Cs(":") \o N2(Pick(s, 2, Mins))
  \o IF Pct(s, 3, 30) THEN <<>> ELSE Cs(":") \o N2(Pick(s, 4, Secs)) \o Pick(s, 5, Fracs)
DateText(y, m, d) == N4(y) \o Cs("-") \o N2(m) \o Cs("-") \o N2(d)
GoodDay(s) == LET y == Pick(s, 1, Years) m == 1 + Below(D(s, 2), 12) IN
              DateText(y, m, IF Pct(s, 3, 60) THEN DaysIn(y, m) ELSE Pick(s, 4, << 1, 1, 15, 28, 29, 30, 31 >>))
GoodClock(s) ==
  N2(Pick(s, 1, SubSeq(Hours, 1, 8))) \o Cs(":") \o N2(Pick(s, 2, SubSeq(Mins, 1, 6)))
  \o IF Pct(s, 3, 30) THEN <<>> ELSE Cs(":") \o N2(Pick(s, 4, SubSeq(Secs, 1, 4))) \o Pick(s, 5, SubSeq(Fracs, 1, 7))

(* families: size (0: endless) and the k-th text *)
LitSize(f) ==
  CASE f = "pair" -> NPieces * NPieces
    [] f = "date" -> Len(Years) * 20 * 40
    [] f = "number" -> Len(Signs) * Len(NumHeads) * Len(NumFracs) * Len(NumExps)
    [] f = "radix" -> Len(Radixes) * Len(RadDigits)
    [] f = "clock" -> Len(Hours) * Len(Mins) * Len(Secs) * Len(Fracs)
    [] OTHER -> 0
Dg(k, div, base) == (k \div div) % base
LitCase(f, s, k) ==
  CASE f = "pair" -> Quote(Pieces[1 + Dg(k, 1, NPieces)] \o Pieces[1 + Dg(k, NPieces, NPieces)])
    [] f = "date" -> DateText(Years[1 + Dg(k, 800, Len(Years))], Dg(k, 40, 20), Dg(k, 1, 40))
    [] f = "number" ->
        LET a == Len(Signs) b == a * Len(NumHeads) c == b * Len(NumFracs) IN
        Signs[1 + Dg(k, 1, a)] \o NumHeads[1 + Dg(k, a, Len(NumHeads))]
        \o NumFracs[1 + Dg(k, b, Len(NumFracs))] \o NumExps[1 + Dg(k, c, Len(NumExps))]
    [] f = "radix" -> Radixes[1 + Dg(k, 1, Len(Radixes))] \o RadDigits[1 + Dg(k, Len(Radixes), Len(RadDigits))]
    [] f = "clock" ->
        LET a == Len(Hours) b == a * Len(Mins) c == b * Len(Secs) IN
        N2(Hours[1 + Dg(k, 1, a)]) \o Cs(":") \o N2(Mins[1 + Dg(k, a, Len(Mins))]) \o Cs(":")
        \o N2(Secs[1 + Dg(k, b, Len(Secs))]) \o Fracs[1 + Dg(k, c, Len(Fracs))]
    [] f = "string" -> Quote(FlattenSeq([ i \in 1..Below(D(s, 1), 8) |->
                          IF Pct(s, 100 + i, 85) THEN Pieces[1 + Below(D(s, i), 52)] ELSE Pick(s, i, Pieces) ]))
    [] f = "int" -> Pick(s, 1, SubSeq(Signs, 1, 3)) \o << 49 + Below(D(s, 2), 9) >> \o Ds(s, 10, Below(D(s, 3), 20))
    [] f = "float" -> Pick(s, 1, SubSeq(Signs, 1, 3)) \o << 48 + Below(D(s, 2), 10) >> \o Cs(".")
                      \o Ds(s, 10, Below(D(s, 3), 14))
                      \o (IF Pct(s, 4, 50) THEN Cs("e") \o Pick(s, 5, SubSeq(Signs, 1, 3)) \o Ds(s, 40, 1 + Below(D(s, 6), 2)) ELSE <<>>)
    [] f = "hex" -> Pick(s, 1, << Cs("0x"), Cs("0X") >>) \o
                    [ i \in 1..(1 + Below(D(s, 2), 17)) |-> Pick(s, 10 + i, Cs("0123456789abcdefABCDEF")) ]
    [] f = "datetime" -> GoodDay(D(s, 1)) \o Cs("T") \o GoodClock(D(s, 2)) \o Pick(s, 3, SubSeq(Offs, 1, 12))
    [] f = "datetime2" -> GoodDay(D(s, 1)) \o Pick(s, 4, << Cs("T"), Cs("T"), Cs("T"), Cs("t"), Cs(" ") >>) \o Clock(D(s, 2)) \o Pick(s, 3, Offs)
    [] f = "time" -> IF Pct(s, 9, 60) THEN GoodClock(s) ELSE Clock(s)
    [] f = "word" -> LET w == Pick(s, 1, Words)[1] \o Pick(s, 3, << <<>>, <<>>, <<>>, Cs("x"), Cs("_"), Cs("1") >>) IN
                     [ i \in DOMAIN w |-> IF w[i] \in 97..122 /\ Pct(s, 10 + i, 40) THEN w[i] - 32 ELSE w[i] ]

(* a case: code points of the literal and the place where it is used *)
LiteralTypes == { "Int", "Float", "String", "Date", "Time", "DateTime", "Bool", "Null" }
(* the decimal digits of a binary floating point number are only known up to  *)
(* 15 of them, fewer near 0                                                   *)
Imprecise(e) == e.ty = "Float" /\ Len(e.v) > 2 /\ (Len(e.v) > 17 \/ e.v[2] < -306)
(* the parameters of a call: bare words are names there                      *)
InCall(o) == o.tpl \in { 2, 4 }
(* a literal followed by the start of a comment or a blank is not one literal, *)
(* but may still be one and something harmless                                 *)
Judged(cs) == LET r == LiteralAt(cs, 1) IN
              r.j \in 2..Len(cs) => cs[r.j] \notin { 45, 47 } \cup Blanks
LiteralOk(o) ==
  LET e == LitMeaning(o.cs) IN
  IF ~Judged(o.cs) THEN TRUE
  ELSE IF InCall(o) /\ e.ok /\ Lower(o.cs[1]) \in 97..122 THEN o.out = "ok" /\ o.ty = "Field"
  ELSE IF ~e.ok THEN o.out # "ok" \/ o.ty \notin LiteralTypes
  ELSE o.out = "ok" /\ o.ty = e.ty /\ (o.v = e.v \/ Imprecise(e))
=============================================================================
