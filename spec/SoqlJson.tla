------------------------------- MODULE SoqlJson -------------------------------
(***************************************************************************)
(* The JSON form of a result (P27), as the set of its leaves: where a leaf is *)
(* (a path of member names and positions) and what it says.  Members with      *)
(* nothing to say (false, 0, empty) have no leaf, except values of literals.    *)
(* Strings are marked by a quote, numbers by #; = stands for the time of the    *)
(* call, its duration and the text of the query (drv/json.go).                  *)
(***************************************************************************)
EXTENDS SoqlBase

JStr(p, x)  == IF x = "" THEN {} ELSE { << p, "\"" \o x >> }
JNum(p, n)  == IF n = 0 THEN {} ELSE { << p, "#" \o ToString(n) >> }
JBig(p, x)  == IF x = "0" THEN {} ELSE { << p, "#" \o x >> }
JBool(p, b) == IF b THEN { << p, "true" >> } ELSE {}
JNames(p, n) == UNION { JStr(p \o "/" \o ToString(k), n[k]) : k \in DOMAIN n }

JOpcodes == ( "operand" :> "FieldInfo" @@ "and" :> "And" @@ "or" :> "Or" @@ "not" :> "Not"
           @@ "=" :> "Eq" @@ "!=" :> "NotEq" @@ "<" :> "Lt" @@ "<=" :> "Le" @@ ">" :> "Gt" @@ ">=" :> "Ge"
           @@ "like" :> "Like" @@ "not like" :> "NotLike" @@ "in" :> "In" @@ "not in" :> "NotIn"
           @@ "includes" :> "Includes" @@ "excludes" :> "Excludes" @@ "noop" :> "Noop" @@ "unknown" :> "Unknown" )

RECURSIVE JField(_, _), JQuery(_, _), JValue(_, _), JConds(_, _)
(* the value of a literal *)
JValue(p, f) ==
  CASE f.ty \in { "Int" } -> { << p, "#" \o f.v >> }
    [] f.ty = "Float" ->
        { << p, CASE f.v = "+Inf" -> "\"Infinity" [] f.v = "-Inf" -> "\"-Infinity" [] f.v = "NaN" -> "\"NaN"
                  [] OTHER -> "#" \o f.v >> }
    [] f.ty = "Bool" -> { << p, f.v >> }
    [] f.ty = "String" -> { << p, "\"" \o f.v >> }
    [] f.ty = "Date" -> { << p, "\"" \o f.v \o "T00:00:00Z" >> }
    [] f.ty = "DateTime" -> { << p, "\"" \o f.v >> }
    [] f.ty = "Time" -> { << p, "\"1970-01-01T" \o f.v \o "Z" >> }
    [] f.ty = "DateTimeLiteralName" -> JStr(p \o "/name", f.n[1]) \cup JBig(p \o "/n", f.v)
    [] f.ty = "List" ->
        IF f.its = <<>> THEN { << p, "[]" >> } ELSE
        UNION { LET q == p \o "/" \o ToString(k)
                    it == f.its[k] IN
                JStr(q \o "/type", it.ty)
                \cup (IF it.ty = "ParameterizedValue" THEN { << q \o "/value", "\"" \o it.o >> }
                      ELSE JValue(q \o "/value", it)) : k \in DOMAIN f.its }
    [] OTHER -> {}
JFields(p, fs) == UNION { JField(p \o "/" \o ToString(k), fs[k]) : k \in DOMAIN fs }
JField(p, f) ==
  JStr(p \o "/type", f.ty) \cup JNames(p \o "/name", f.n) \cup JValue(p \o "/value", f)
  \cup JStr(p \o "/aliasName", f.at)
  \cup UNION { JField(p \o "/parameters/" \o ToString(k), f.ps[k]) : k \in DOMAIN f.ps }
  \cup UNION { JQuery(p \o "/subQuery", f.sub[k]) : k \in DOMAIN f.sub }
  \cup JBool(p \o "/notSelected", f.ns) \cup JBool(p \o "/aggregated", f.ag)
  \cup JNum(p \o "/columnId", f.cid) \cup JNum(p \o "/colIndex", f.ci) \cup JNum(p \o "/viewId", f.vid)
  \cup JStr(p \o "/key", f.k)
JConds(p, cs) ==
  UNION { LET q == p \o "/" \o ToString(k) IN
          JStr(q \o "/opcode", JOpcodes[cs[k].op])
          \cup UNION { JField(q \o "/value", cs[k].f[j]) : j \in DOMAIN cs[k].f } : k \in DOMAIN cs }
JOrder(p, os) ==
  UNION { LET q == p \o "/" \o ToString(k) IN
          JField(q \o "/field", os[k].f) \cup JBool(q \o "/desc", os[k].desc) \cup JBool(q \o "/nullsLast", os[k].nl)
          : k \in DOMAIN os }
JPage(p, off, lim) ==
  JBig(p \o "/offset", off.v) \cup JStr(p \o "/offsetParamName", off.p)
  \cup JBig(p \o "/limit", lim.v) \cup JStr(p \o "/limitParamName", lim.p)
JFor(p, f) ==
  JBool(p \o "/view", f.view) \cup JBool(p \o "/reference", f.ref) \cup JBool(p \o "/update", f.upd)
  \cup JBool(p \o "/updateTracking", f.trk) \cup JBool(p \o "/updateViewstat", f.vst)
JObject(p, o) ==
  LET q == p \o "/perObjectQuery" IN
  JNames(p \o "/name", o.n) \cup JStr(p \o "/aliasName", o.at)
  \cup JBool(p \o "/hasConditions", o.hc) \cup JBool(p \o "/innerJoin", o.ij)
  \cup JNum(p \o "/viewId", o.vid) \cup JNum(p \o "/parentViewId", o.pvid) \cup JStr(p \o "/key", o.k)
  \cup JFields(q \o "/fields", o.pf) \cup JConds(q \o "/where", o.pw) \cup JOrder(q \o "/orderBy", o.po)
  \cup JPage(q \o "/offsetAndLimit", o.poff, o.plim) \cup JFor(q \o "/for", o.pfor)
  \cup JNames(q \o "/from/1/name", o.pn) \cup JStr(q \o "/from/1/aliasName", o.pat)
  \cup JBool(q \o "/from/1/hasConditions", o.phc) \cup JBool(q \o "/from/1/innerJoin", o.pij)
  \cup JNum(q \o "/from/1/viewId", o.pv) \cup JNum(q \o "/from/1/parentViewId", o.ppv) \cup JStr(q \o "/from/1/key", o.pk)
JQuery(p, q) ==
  JFields(p \o "/fields", q.fields)
  \cup UNION { JObject(p \o "/from/" \o ToString(k), q.from[k]) : k \in DOMAIN q.from }
  \cup JConds(p \o "/where", q.where) \cup JFields(p \o "/groupBy", q.group) \cup JConds(p \o "/having", q.having)
  \cup JOrder(p \o "/orderBy", q.order) \cup JPage(p \o "/offsetAndLimit", q.off, q.lim) \cup JFor(p \o "/for", q.for)
  \cup JBool(p \o "/isAggregation", q.agg) \cup JBool(p \o "/isCorelated", q.cor)
  \cup JConds(p \o "/postProcessWhere", q.ppw) \cup JNum(p \o "/queryId", q.qid)
JSet(p, s) == { << p \o "/" \o s[k], "{}" >> : k \in DOMAIN s }
JMeta(p, m) ==
  JStr(p \o "/version", m.ver) \cup { << p \o "/date", "=" >>, << p \o "/source", "=" >>, << p \o "/elapsedTime", "=" >> }
  \cup JNum(p \o "/maxQueryDepth", m.mqd) \cup JNum(p \o "/maxViewDepth", m.mvd)
  \cup JNum(p \o "/nextQueryId", m.nq) \cup JNum(p \o "/nextViewId", m.nv) \cup JNum(p \o "/nextColumnId", m.nc)
  \cup UNION { LET g == m.qg[k]
                   q == p \o "/queryGraph/" \o ToString(g.id) IN
               JNum(q \o "/parentQueryId", g.par) \cup JNum(q \o "/depth", g.d) \cup JBool(q \o "/isConditional", g.cond)
               : k \in DOMAIN m.qg }
  \cup UNION { LET g == m.vg[k]
                   q == p \o "/viewGraph/" \o ToString(g.id) IN
               JStr(q \o "/name", g.n) \cup JNum(q \o "/parentViewId", g.par) \cup JNum(q \o "/queryId", g.qid)
               \cup JNum(q \o "/depth", g.d) \cup JNum(q \o "/queryDepth", g.qd) \cup JBool(q \o "/many", g.many)
               \cup JBool(q \o "/innerJoin", g.ij) \cup JBool(q \o "/nonResult", g.nr) : k \in DOMAIN m.vg }
  \cup JSet(p \o "/functions", m.fn) \cup JSet(p \o "/parameters", m.par) \cup JSet(p \o "/dateTimeLiterals", m.dtl)

JsonOf(q, m) == JQuery("$", q) \cup JMeta("$/meta", m)
=============================================================================
