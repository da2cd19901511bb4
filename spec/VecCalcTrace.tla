---------------------------- MODULE VecCalcTrace ----------------------------
(* Conformance: the fields real objects stand for, by their values. *)
EXTENDS VecCalc, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, l, verdict, O
tvars == <<vvars, tr, l, verdict, O>>
Clause(e) == IF e.op = "at" THEN IF e.why # "" THEN "a field has no values" ELSE IF e.vals # Vals(O[e.a], e) THEN "a field has other values" ELSE "ok"
             ELSE IF e.why # "" THEN "an operation offered for a field is refused"
             ELSE IF e.got # Made(O, e).rank THEN "an operation gives a field of another rank" ELSE "ok"
TInit == VInit /\ tr \in 1..Len(TLog) /\ l = 1 /\ verdict = "ok" /\ O = <<>>
TNext == /\ verdict = "ok" /\ l <= Len(TLog[tr].ev)
         /\ LET e == TLog[tr].ev[l] c == Clause(e) IN
            /\ verdict' = c
            /\ O' = IF e.op = "at" \/ c # "ok" THEN O ELSE Append(O, TLCEval(Made(O, e)))
            /\ IF c = "ok" THEN (l < Len(TLog[tr].ev) \/ PrintT(<<"OKT", ToJson(tr)>>))
               ELSE PrintT(<<"BAD", ToJson([trace |-> tr, step |-> l, clause |-> c])>>)
         /\ l' = l + 1
         /\ UNCHANGED <<vvars, tr>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
