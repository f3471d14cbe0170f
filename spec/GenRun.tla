------------------------------- MODULE GenRun -------------------------------
(***************************************************************************)
(* Writes the cases of a plan, a sequence of [f, w, n]: n cases of family f   *)
(* with argument w.  Family "random" draws from profile w; the others are    *)
(* the exhaustive families of SoqlEnum: n = 0 stands for all of them, less    *)
(* than the size for evenly spread ones, starting at a random one.           *)
(* One behaviour per batch of cases.                                         *)
(***************************************************************************)
EXTENDS SoqlEnum, SoqlLiteral, Json, IOUtils
VARIABLES batch, done
SeedNo == atoi(IOEnv.V_SEED)
Out    == IOEnv.V_OUT
Plan   == JsonDeserialize(IOEnv.V_PLAN)
BatchSize == 200

SizeFull(e) == CASE e.f = "random" -> 0 [] e.f = "lit" -> LitSize(e.w)
                 [] OTHER -> EnumSize(e.f, e.w)
SizeOf(e) == LET z == SizeFull(e) IN IF z = 0 THEN e.n ELSE IF e.n = 0 \/ e.n > z THEN z ELSE e.n
RECURSIVE Offset(_)
Offset(k) == IF k = 1 THEN 0 ELSE Offset(k - 1) + SizeOf(Plan[k - 1])
Batches(e) == (SizeOf(e) + BatchSize - 1) \div BatchSize

Index(e, k, j) ==
  LET z == SizeFull(e)
      step == z \div SizeOf(e)
  IN IF z = 0 THEN 0 ELSE Below(Seed(SeedNo, k), step) + step * j

CaseOf(e, k, j, id) ==   \* j from 0
  LET s == Seed(SeedNo, j + 1009 * k) IN
  CASE e.f = "random" -> [ id |-> id, T |-> GenQuery(s, Profile(e.w)) ]
    [] e.f = "lit" -> [ id |-> id, cs |-> LitCase(e.w, s, Index(e, k, j)), tpl |-> Below(D(s, 77), 6) ]
    [] OTHER -> [ id |-> id, T |-> EnumCase(e.f, e.w, Index(e, k, j)) ]

Init == \E k \in DOMAIN Plan : \E b \in 0..(Batches(Plan[k]) - 1) :
          batch = << k, b >> /\ done = FALSE
Next == /\ ~done
        /\ done' = LET k == batch[1]
                       e == Plan[k]
                       lo == batch[2] * BatchSize
                       hi == IF lo + BatchSize < SizeOf(e) THEN lo + BatchSize ELSE SizeOf(e) IN
                   ndJsonSerialize(Out \o "." \o ToString(k) \o "." \o ToString(batch[2]),
                     [ j \in 1..(hi - lo) |->
                        CaseOf(e, k, lo + j - 1, Offset(k) + lo + j) ])
        /\ UNCHANGED batch
=============================================================================
