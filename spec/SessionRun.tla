------------------------------ MODULE SessionRun ------------------------------
(***************************************************************************)
(* Writes the sessions to run: every history of V_DEPTH steps over three      *)
(* texts, V_LONG random long ones over nine, and V_CONC concurrent programs.   *)
(* The texts of a group are easily confused: they differ in one token, in     *)
(* letter case, in their tail, or one of them is rejected.                    *)
(***************************************************************************)
EXTENDS SoqlGen, Json, IOUtils
VARIABLES file, done
SeedNo == atoi(IOEnv.V_SEED)
Out    == IOEnv.V_OUT
DepthN == atoi(IOEnv.V_DEPTH)
Groups == atoi(IOEnv.V_GROUPS)
LongN  == atoi(IOEnv.V_LONG)
LongSteps == atoi(IOEnv.V_STEPS)
ConcN  == atoi(IOEnv.V_CONC)

S == INSTANCE SoqlSession WITH Texts <- {}, Depth <- 0, Variant <- "", h <- 0, cell <- 0, heap <- 0, hist <- 0

Text(T, style) == [ T |-> T, style |-> style ]
OfClass(c) == SelectSeq(PlainLits, LAMBDA t : t.c = c)
Confuse(s, T) ==
  LET i == 1 + Below(D(s, 1), Len(T))
      lits == { k \in DOMAIN T : T[k].k = "lit" }
      l == IF lits = {} THEN i ELSE CHOOSE k \in lits : Cardinality({ j \in lits : j < k }) = Below(D(s, 2), Cardinality(lits)) IN
  CASE Below(D(s, 3), 6) \in { 0, 1 } /\ lits # {} -> Text([ T EXCEPT ![l] = Pick(s, 4, OfClass(T[l].c) \o << Lit("Int", "3", "3") >>) ], 0)
    [] Below(D(s, 3), 6) = 2 -> Text(T, 1)
    [] Below(D(s, 3), 6) = 3 -> Text(T \o << Kw("limit"), Lit("Int", "7", "7") >>, 0)
    [] Below(D(s, 3), 6) = 4 -> Text(SubSeq(T, 1, Len(T) - 1), 0)
    [] OTHER -> Text(Mutate1(D(s, 5), T), 0)
(* texts that only the normalizer rejects, late or early, and that share what   *)
(* they declare with T                                                          *)
RECURSIVE DepthAt(_, _, _)
DepthAt(T, i, d) == IF i = 0 THEN d
                    ELSE DepthAt(T, i - 1, d + (IF T[i].k = "p" /\ T[i].l = "(" THEN 1 ELSE IF T[i].k = "p" /\ T[i].l = ")" THEN -1 ELSE 0))
TopWords(T, from, ws) == { i \in from..Len(T) : T[i].k = "id" /\ T[i].l \in ws /\ DepthAt(T, i, 0) = 0 }
Named(t) == t.k \in { "id", "qid" }
Semantic(s, T) ==
  LET fs == TopWords(T, 1, { "from" })
      f == IF fs = {} THEN 0 ELSE Min(fs)
      es == TopWords(T, f + 2, { "where", "with", "group", "having", "order", "limit", "offset", "for" })
      e == IF es = {} THEN Len(T) ELSE Min(es) - 1
      als == { i \in (f + 2)..e : Named(T[i]) /\ Named(T[i - 1]) /\ T[i].l \notin { "tracking", "viewstat" } }
      first(t) == SubSeq(T, 1, 1) \o t \o SubSeq(T, 2, Len(T)) IN
  IF f = 0 \/ f >= Len(T) THEN T \o << Pu(")") >>
  ELSE CASE Below(D(s, 1), 8) \in { 0, 1, 2, 3 } /\ als # {} ->
              SubSeq(T, 1, e) \o << Pu(","), T[f + 1], Pu("."), Kw("twice"), T[CHOOSE i \in als : TRUE] >> \o SubSeq(T, e + 1, Len(T))
         [] Below(D(s, 1), 8) = 4 -> first(<< Kw("id"), Kw("f1"), Pu(","), Kw("name"), Kw("f1"), Pu(",") >>)
         [] Below(D(s, 1), 8) = 5 -> first(<< Kw("count"), Pu("("), Lit("Int", "1", "1"), Pu(")"), Pu(",") >>)
         [] Below(D(s, 1), 8) = 6 -> first(<< Kw("fields"), Pu("("), Pu(")"), Pu(",") >>)
         [] OTHER -> SubSeq(T, 1, e) \o << Pu(","), Kw("nosuchobject"), Pu("."), Kw("rel"), Kw("again") >> \o SubSeq(T, e + 1, Len(T))
Reject(s, T) ==
  CASE Below(D(s, 1), 8) = 0 -> T \o << Pu(")") >>
    [] Below(D(s, 1), 8) = 1 -> SubSeq(T, 1, 1 + Below(D(s, 2), Len(T)))
    [] Below(D(s, 1), 8) = 2 -> T \o << Pu(","), Kw("nosuchobject"), Pu("."), Kw("rel"), Pu("."), Kw("rel") >>
    [] Below(D(s, 1), 8) = 3 -> Mutate(D(s, 3), T)
    [] OTHER -> Semantic(D(s, 4), T)
Group(g) ==
  LET s == Seed(SeedNo, 5000 + g)
      T == GenQuery(D(s, 1), Profile(Pick(s, 2, << "rich", "rich", "subs", "all" >>))) IN
  << Text(T, 0), Confuse(D(s, 3), T),
     IF Pct(s, 4, 60) THEN Text(Reject(D(s, 5), T), 0) ELSE Confuse(D(s, 6), T) >>

Short == SetToSeq(S!Histories(<<>>, DepthN, 1..3))
RECURSIVE Long(_, _, _, _)
Long(s, g, n, texts) ==
  IF n = 0 THEN <<>>
  ELSE LET a == Below(D(s, 1), 10)
           live == { i \in DOMAIN g : g[i].as # "scrambled" }
           j == IF live = {} THEN 0 ELSE CHOOSE i \in live : Cardinality({ x \in live : x < i }) = Below(D(s, 2), Cardinality(live))
           op == CASE a < 5 \/ live = {} -> [ a |-> "parse", k |-> 1 + Below(D(s, 3), texts) ]
                   [] a = 5 -> [ a |-> "restore", k |-> j ]
                   [] a = 6 -> [ a |-> "read", k |-> j ]
                   [] OTHER -> [ a |-> "scramble", k |-> j ]
       IN << op >> \o Long(D(s, 4), S!SStep(g, op), n - 1, texts)

(* a concurrent program: what each thread does on its own, one after the other  *)
Conc(c) ==
  LET s == Seed(SeedNo, 9000 + c)
      threads == 2 + Below(D(s, 1), 7) IN
  [ i \in 1..threads |-> Long(D(s, 10 + i), <<>>, 2 + Below(D(s, 40 + i), 5), 3) ]

Init == done = FALSE /\ file \in { "short", "long", "conc", "texts" }
Write(name, seq) == ndJsonSerialize(Out \o "." \o name, seq)
Next ==
  /\ ~done
  /\ CASE file = "short" -> DepthN = 0 \/ Write("short", [ i \in DOMAIN Short |-> [ ops |-> Short[i] ] ])
       [] file = "long" -> LongN = 0 \/ Write("long", [ i \in 1..LongN |-> [ ops |-> Long(Seed(SeedNo, 7000 + i), <<>>, LongSteps, 9) ] ])
       [] file = "conc" -> ConcN = 0 \/ Write("conc", [ i \in 1..ConcN |-> [ threads |-> Conc(i) ] ])
       [] file = "texts" -> Write("texts", [ g \in 1..Groups |-> [ texts |-> Group(g) ] ])
  /\ done' = TRUE
  /\ UNCHANGED file
=============================================================================
