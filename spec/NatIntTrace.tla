---------------------------- MODULE NatIntTrace ----------------------------
(* Conformance: the natural boundary terms real meshes return, cell by cell, paired with the test fields. *)
EXTENDS NatInt, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, l, verdict
tvars == <<nvars, tr, l, verdict>>
Clause(c, e) ==
  IF e.op = "config" THEN IF e.why # "" THEN "a mesh was not made" ELSE "ok"
  ELSE IF e.why # "" THEN "a natural boundary term was not made"
  ELSE IF ~e.zero THEN "a natural boundary term reaches degrees of freedom of cells without faces in the section"
  ELSE IF e.vals # Exp(c, e) THEN "a natural boundary term is not the one of the integration by parts"
  ELSE "ok"
TInit == NInit /\ tr \in 1..Len(TLog) /\ l = 1 /\ verdict = "ok"
TNext == /\ verdict = "ok" /\ l <= Len(TLog[tr].ev)
         /\ LET e == TLog[tr].ev[l] c == Clause(TLog[tr].ev[1], e) IN
            /\ verdict' = c
            /\ IF c = "ok" THEN (l < Len(TLog[tr].ev) \/ PrintT(<<"OKT", ToJson(tr)>>))
               ELSE PrintT(<<"BAD", ToJson([trace |-> tr, step |-> l, clause |-> c])>>)
         /\ l' = l + 1
         /\ UNCHANGED <<nvars, tr>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
