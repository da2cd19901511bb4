---------------------------- MODULE CochainTrace ----------------------------
(* Conformance of recorded executions of the real cochain stores with Cochain. *)
EXTENDS Cochain
\* conformance: a recorded execution of the real store --------------------------------
Log == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, i, verdict
tvars == <<store, auto, locked, hist, tr, i, verdict>>

PairsToFun(p) == [t \in {p[j][1] : j \in 1..Len(p)} |->
                    (CHOOSE j \in 1..Len(p) : p[j][1] = t) ]
ObsStore(e) == LET idx == PairsToFun(e.store) IN [t \in DOMAIN idx |-> e.store[idx[t]][2]]

\* twice the linear interpolation numerator: value at t2/2 between neighbours a<b, scaled by 2(b-a)
Below(f, t2) == {x \in DOMAIN f : 2 * x <= t2}
Above(f, t2) == {x \in DOMAIN f : 2 * x >= t2}
InterpClause(f, e) ==
  LET b == Below(f, e.t2)  a == Above(f, e.t2) IN
  IF Cardinality(DOMAIN f) < 2 /\ e.res = "error" THEN "ok"   \* nothing to interpolate
  ELSE IF (\E x \in DOMAIN f : 2 * x = e.t2)
  THEN IF e.res # "ok" THEN "interpolation at a stored time must return it"
       ELSE IF e.num60 # 5040 * f[CHOOSE x \in DOMAIN f : 2 * x = e.t2] THEN "interpolation at a stored time wrong" ELSE "ok"
  ELSE IF b = {} \/ a = {} THEN IF e.res # "error" THEN "interpolation outside the stored range must be refused" ELSE "ok"
  ELSE LET lo == Max(b)  hi == Min(a) IN
       IF e.res # "ok" THEN "interpolation inside the stored range must be available"
       ELSE \* e.num60 = 5040 * value ; value = (f[lo]*(2hi - t2) + f[hi]*(t2 - 2lo)) / (2(hi-lo))
            IF e.num60 * (hi - lo) # 2520 * (f[lo] * (2*hi - e.t2) + f[hi] * (e.t2 - 2*lo))
            THEN "interpolated value is not the linear one between the neighbouring stored times" ELSE "ok"

StepClause(e, g) ==
  CASE e.op = "set" ->
         IF locked THEN IF e.res # "locked" THEN "set on a locked store must be refused"
                        ELSE IF g # store THEN "a refused set changed the store" ELSE "ok"
         ELSE IF e.res # "ok" THEN "set failed"
         ELSE IF ~SetOK(store, g, e.t, e.v, auto) THEN "set: stored map is not the old one plus the new value (up to auto-cleaning)"
         ELSE "ok"
    [] e.op = "cleanNewest" -> IF e.res # "ok" THEN "clean() failed" ELSE IF g # CleanNewestOf(store) THEN "clean() must keep exactly the newest" ELSE "ok"
    [] e.op = "cleanN" -> IF e.res # "ok" THEN "clean(-n) failed" ELSE IF g # CleanKeep(store, e.n) THEN "clean(-n) must keep exactly the n newest" ELSE "ok"
    [] e.op = "cleanT" -> IF e.res # "ok" THEN "clean(t) failed" ELSE IF g # Restrict(store, DOMAIN store \ {e.t}) THEN "clean(t) must drop exactly t" ELSE "ok"
    [] e.op = "cleanAll" -> IF e.res # "ok" THEN "clean('all') failed" ELSE IF DOMAIN g # {} THEN "clean('all') must drop everything" ELSE "ok"
    [] e.op = "auto" -> IF g # store THEN "changing the setting changed the store" ELSE "ok"
    [] e.op = "lock" -> IF g # store THEN "locking changed the store" ELSE "ok"
    [] e.op = "interp" -> IF g # store THEN "interpolation changed the store" ELSE InterpClause(store, e)
    [] OTHER -> "unknown operation"

ObsClause(e, g) ==
  IF e.newest # Newest(g) THEN "newest is not the largest stored time"
  ELSE IF e.len # Cardinality(DOMAIN g) THEN "len is not the number of stored times"
  ELSE IF e.viewok # TRUE THEN "a view at an abstract time instant disagrees with its base"
  ELSE IF e.missing # "refused" THEN "reading a time that is not stored must be refused"
  ELSE IF e.newestread # TRUE THEN "form[None] does not read the newest stored time"
  ELSE "ok"

TInit == /\ tr \in 1..Len(Log) /\ i = 1 /\ verdict = "ok"
         /\ store = Empty /\ auto = Log[tr].auto /\ locked = FALSE /\ hist = <<>>
TNext == /\ i <= Len(Log[tr].ev) /\ verdict = "ok"
         /\ LET e == Log[tr].ev[i]  g == ObsStore(e)
                c == StepClause(e, g)
            IN /\ verdict' = IF c # "ok" THEN c ELSE ObsClause(e, g)
               /\ store' = g
               /\ auto' = IF e.op = "auto" THEN e.n ELSE auto
               /\ locked' = IF e.op = "lock" THEN e.b ELSE locked
               /\ i' = i + 1
               /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> i, clause |-> verdict'])>>))
               /\ ((verdict' = "ok" /\ i = Len(Log[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED <<tr, hist>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
