---------------------------- MODULE TimeSeqTrace ----------------------------
(* Conformance: the time (or refusal) the real code answered to every request is the one the
   specification predicts, and the same name always is the same object.                        *)
EXTENDS TimeSeq, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, st, verdict
tvars == <<sp, steps, inst, ivl, last, hist, tr, st, verdict>>

Do(e) == CASE e.op = "specify" -> Specify(e.s, e.c)
           [] e.op = "instant" -> Instant(e.s, e.key)
           [] e.op = "interval" -> Interval(e.a, e.b)
           [] e.op = "eval" -> Eval(e.a, e.k)
           [] e.op = "evali" -> EvalI(e.v, e.k)
SameKey(x, y) == x.a = y.a /\ Norm(x.p, x.q) = Norm(y.p, y.q)
SameInst(x, y) == x.s = y.s /\ SameKey(x.key, y.key)
SameName(x, y) == IF x.op # y.op THEN FALSE
                  ELSE IF x.op = "instant" THEN SameInst(x, y)
                  ELSE SameInst(inst[x.a], inst[y.a]) /\ SameInst(inst[x.b], inst[y.b])
\* requests for an object: equal names <=> equal objects
Identity(ev, m) == ev[m].op \notin {"instant", "interval"} \/ ev[m].obs = <<"error">> \/
   \A j \in 1..(m - 1) : (ev[j].op = ev[m].op /\ ev[j].obs # <<"error">>) => (SameName(ev[j], ev[m]) <=> ev[j].obj = ev[m].obj)
Edges(e) == e.op = "eval" /\ sp[inst[e.a].s].kind = "constant" /\ OnEdge(sp[inst[e.a].s], Value(inst[e.a].key, e.k))
EdgesI(e) == e.op = "evali" /\ ivl[e.v].s # 0 /\ sp[ivl[e.v].s].kind = "constant"
             /\ (OnEdge(sp[ivl[e.v].s], Value(ivl[e.v].a, e.k)) \/ OnEdge(sp[ivl[e.v].s], Value(ivl[e.v].b, e.k)))
Clause(e) ==
   IF e.obs = <<"error">> /\ (Edges(e) \/ EdgesI(e)) THEN "ok"
   \* two spellings of one instant may differ by rounding: an interval that small is as good as refused
   ELSE IF last'.res = Err /\ e.op = "evali" /\ ToString(e.obs) = "<<0, 1>>" THEN "ok"
   ELSE IF last'.res = Err /\ e.obs # Err THEN "an instant that is not defined was answered"
   ELSE IF last'.res # Err /\ e.obs = Err THEN "a valid request was refused"
   ELSE IF ToString(last'.res) # ToString(e.obs) THEN "the time answered is wrong"
   ELSE "ok"
TInit == Init /\ tr \in 1..Len(TLog) /\ st = 1 /\ verdict = "ok"
TNext == /\ st <= Len(TLog[tr].ev) /\ verdict = "ok"
         /\ LET e == TLog[tr].ev[st] IN
            /\ Do(e)
            /\ verdict' = IF Clause(e) # "ok" THEN Clause(e)
                          ELSE IF ~Identity(TLog[tr].ev, st) THEN "names and objects do not correspond" ELSE "ok"
            /\ st' = st + 1
            /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> st, clause |-> verdict', expected |-> last'.res, got |-> e.obs])>>))
            /\ ((verdict' = "ok" /\ st = Len(TLog[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED <<tr, hist>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
