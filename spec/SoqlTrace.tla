------------------------------ MODULE SoqlTrace ------------------------------
(***************************************************************************)
(* Conformance: walks over the observations recorded by the driver, and     *)
(* compares each with the reference meaning of its token sequence.           *)
(* One behaviour per chunk of the file; `bad` collects the broken slices.    *)
(***************************************************************************)
EXTENDS SoqlProps, SoqlPlan, SoqlJson, SoqlPlace, SoqlScan, SoqlOutcome, Json, IOUtils
VARIABLES chunk, i, cnt

Prop == IOEnv.V_PROP
Chunks == atoi(IOEnv.V_CHUNKS)
Batches == atoi(IOEnv.V_BATCHES)

Ref(T) ==
  LET g == ParseTokens(T) IN
  IF ~g.ok THEN [ out |-> "syntax", v |-> <<>>, r |-> <<>> ]
  ELSE LET n == Normalize(g.v) IN
       IF ~n.ok THEN [ out |-> "error", v |-> g.v, r |-> <<>> ]
       ELSE [ out |-> "ok", v |-> g.v, r |-> n.r ]

(* name -> holds; one record per property *)
All(ps, P(_)) == \A k \in DOMAIN ps : P(ps[k])

SlicesOf(prop, ps, o, e) ==
  LET m == o.m[1] IN
  CASE prop = "P04" -> [ ok |-> TRUE ]
    [] prop = "P05" ->
        [ fields |-> All(ps, ClauseSelect), alias |-> All(ps, ClauseAlias),
          group |-> All(ps, ClauseGroup), order |-> All(ps, ClauseOrder),
          rest |-> All(ps, ClauseRest), cond |-> All(ps, ClauseCond), bare |-> All(ps, ClauseBare) ]
    [] prop = "P06" -> [ cond |-> All(ps, CondStructure) ]
    [] prop = "P07" -> [ free |-> All(ps, NotEliminated), equiv |-> All(ps, NotEquivalent) ]
    [] prop = "P08" -> [ pushed |-> All(ps, FilterPushed) ]
    [] prop = "P09" -> [ rest |-> All(ps, FilterRest), exact |-> All(ps, FilterExact) ]
    [] prop = "P10" ->
        [ fields |-> All(ps, NamesSelect), group |-> All(ps, NamesGroup),
          order |-> All(ps, NamesOrder), cond |-> All(ps, NamesCond) ]
    [] prop = "P11" ->
        [ set |-> All(ps, ObjectsSet), order |-> All(ps, ObjectsOrder),
          alias |-> All(ps, ObjectsAlias), query |-> All(ps, ObjectsQuery),
          clauses |-> All(ps, ObjectsClauses) ]
    [] prop = "P12" ->
        [ query |-> IdsQuery(ps, m), view |-> IdsView(ps, m),
          fieldview |-> All(ps, IdsFieldView), column |-> IdsColumn(ps, m),
          alias |-> All(ps, IdsAlias) ]
    [] prop = "P13" ->
        [ closure |-> All(ps, ColumnsClosure), nodup |-> All(ps, ColumnsNoDup),
          object |-> All(ps, ColumnsPerObject), index |-> All(ps, ColumnsIndex) ]
    [] prop = "P14" ->
        [ query |-> GraphQuery(ps, m), view |-> GraphView(ps, m), parent |-> GraphParent(ps) ]
    [] prop = "P15" ->
        [ object |-> All(ps, FlagsObject), graph |-> All(ps, LAMBDA p : FlagsGraph(p, m)) ]
    [] prop = "P16" -> [ agg |-> All(ps, AggFlags) ]
    [] prop = "P17" -> [ used |-> MetaUsed(e.v, m), source |-> MetaSource(ps, m), time |-> MetaTime(o.tm) ]
    [] prop = "P18" -> [ bytes |-> o.j = "same", value |-> o.j = "same" /\ o.jq = o.nq, meta |-> o.jm = o.nm ]
    [] prop = "P21" -> [ correlated |-> All(ps, Correlated), columns |-> All(ps, ColumnsClosure), index |-> All(ps, ColumnsIndex) ]
    [] prop = "P24" -> [ objects |-> KeysObjects(ps), items |-> KeysItems(ps), columns |-> KeysColumns(ps) ]
    [] prop = "P26" -> [ objects |-> All(ps, PlanObjects), graph |-> All(ps, LAMBDA p : PlanGraph(p, m)) ]
    [] prop = "P22" -> [ implicit |-> All(ps, AliasImplicit), unique |-> All(ps, AliasUnique) ]

(* rejections that the property is about, by reference outcome *)
Rejecting(prop) ==
  CASE prop = "P04" -> { "syntax" }
    [] prop \in { "P10", "P11", "P16", "P21", "P22" } -> { "error" }
    [] OTHER -> {}

(* subqueries are about objects below that of the enclosing query *)
RECURSIVE Descends(_)
Descends(r) ==
  /\ \A k \in DOMAIN r.fields : r.fields[k].ty = "SubQuery" =>
       /\ Len(r.fields[k].sub[1].from[1].n) > Len(r.from[1].n)
       /\ IsPrefix(r.from[1].n, r.fields[k].sub[1].from[1].n)
  /\ \A k \in DOMAIN RefSubs(r) : Descends(RefSubs(r)[k])

Crash == { "panic", "timeout" }

(* P02, P03: every thread of a recorded program is a session of its own         *)
S == INSTANCE SoqlSession WITH Texts <- {}, Depth <- 0, Variant <- "", h <- 0, cell <- 0, heap <- 0, hist <- 0
RECURSIVE SessionStuck(_, _, _, _)
SessionStuck(h, steps, k, fresh) ==   \* the first step that is not allowed, or 0
  IF k > Len(steps) THEN 0
  ELSE IF ~S!SAllowed(h, steps[k], steps[k].new, ToSet(steps[k].chg), fresh) THEN k
  ELSE SessionStuck(S!SStep(h, steps[k]), steps, k + 1, fresh)
SessionFailed(o) ==
  (IF o.race THEN { "race" } ELSE {})
  \cup { "step " \o ToString(SessionStuck(<<>>, o.threads[th], 1, o.fresh)) :
           th \in { j \in DOMAIN o.threads : SessionStuck(<<>>, o.threads[j], 1, o.fresh) # 0 } }
Slack == 200   \* kilobytes, noise of the measurement (some 10 per phase)

(* P27 is about results, whatever the text *)
JsonFailed(o) ==
  IF o.out # "ok" THEN {}
  ELSE IF o.j # "ok" THEN { "marshal" }
  ELSE LET f == TLCEval(JsonOf(o.q[1], o.m[1]))
           g == ToSet(o.jl) IN
       (IF f \subseteq g THEN {} ELSE { "missing" }) \cup (IF g \subseteq f THEN {} ELSE { "extra" })
FailedOf(prop, o, e) ==
  IF o.out \in Crash THEN { o.out }
  ELSE IF prop = "P04"
  THEN IF (e.out = "syntax") # (o.out = "syntax") THEN { "accepts" } ELSE {}
  ELSE IF e.out # "syntax" /\ "cs" \in DOMAIN o /\ ~(Clear(e.v) /\ (e.out = "ok" => Descends(e.r))) THEN {}
  ELSE IF e.out # "syntax" /\ ~Declared(e.v) THEN {}
  ELSE IF e.out # "ok"
  THEN IF e.out \in Rejecting(prop) /\ o.out = "ok" THEN { "rejects" } ELSE {}
  ELSE IF o.out # "ok" THEN { "accepts" }
  ELSE IF ~WellFormed(o.q[1]) THEN { "malformed" }
  ELSE LET ps == Pairs(e.r, o.q[1])
           s  == SlicesOf(prop, ps, o, e) IN
       IF ~All(ps, LAMBDA p : p.ok) THEN { "nesting" }
       ELSE { k \in DOMAIN s : ~s[k] }

Everything == { "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12",
                "P13", "P14", "P15", "P16", "P17", "P21", "P22", "P24", "P26" }
Failed(o) ==
  IF o.out \in Crash THEN { o.out }
  ELSE IF o.out = "skipped" THEN {}
  ELSE IF Prop = "P20" THEN IF LiteralOk(o) THEN {} ELSE { "value" }
  ELSE IF Prop \in { "P02", "P03" } THEN SessionFailed(o)
  ELSE IF Prop = "P23" THEN IF S!FootprintOk(o.phases, Slack) THEN {} ELSE { "footprint" }
  ELSE IF Prop = "P01" THEN IF OutcomeOk(o) THEN {} ELSE { "outcome" }
  ELSE IF Prop \in { "P19", "P25" }
  THEN IF ~SameOutcome(o) THEN { "outcome" } ELSE IF ~SameResult(o) THEN { "result" } ELSE {}
  ELSE IF Prop = "P27" THEN JsonFailed(o)
  ELSE IF Prop = "P28" THEN IF ParseTokens(o.T).ok THEN PlaceFailed(o) ELSE {}
  ELSE LET e == Ref(IF "cs" \in DOMAIN o THEN Scan(o.cs) ELSE o.T) IN
  IF Prop = "ALL"
  THEN UNION { { p \o "/" \o k : k \in FailedOf(p, o, e) } : p \in Everything }
  ELSE FailedOf(Prop, o, e)

(* one step: the next batch of the chunk *)
Init == chunk \in 0..(Chunks - 1) /\ i = chunk
        /\ cnt = [ ok |-> 0, error |-> 0, syntax |-> 0, bad |-> 0 ]
Next ==
  IF i < Batches
  THEN \E obs \in { ndJsonDeserialize(IOEnv.V_OBS \o "." \o ToString(i)) } :
       \E f \in { TLCEval([ k \in DOMAIN obs |-> Failed(obs[k]) ]) } :
       LET n(P(_)) == Cardinality({ k \in DOMAIN obs : P(k) }) IN
       /\ \A k \in DOMAIN obs :
            IF f[k] = {} THEN TRUE
            ELSE PrintT("FAIL|" \o ToString(obs[k].id) \o "|" \o ToString(f[k]))
       /\ cnt' = [ ok     |-> cnt.ok + n(LAMBDA k : obs[k].out = "ok"),
                   error  |-> cnt.error + n(LAMBDA k : obs[k].out = "error"),
                   syntax |-> cnt.syntax + n(LAMBDA k : obs[k].out = "syntax"),
                   bad    |-> cnt.bad + n(LAMBDA k : f[k] # {}) ]
       /\ i' = i + Chunks
       /\ UNCHANGED chunk
  ELSE /\ i < Batches + Chunks
       /\ PrintT("DONE|" \o ToString(cnt.ok) \o "|" \o ToString(cnt.error) \o "|"
                 \o ToString(cnt.syntax) \o "|" \o ToString(cnt.bad))
       /\ i' = Batches + Chunks
       /\ UNCHANGED << chunk, cnt >>
=============================================================================
