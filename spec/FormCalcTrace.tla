---------------------------- MODULE FormCalcTrace ----------------------------
(* Conformance: what real forms on real meshes tell about the fields reduced on them. *)
EXTENDS FormCalc, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, l, verdict
tvars == <<fvars, tr, l, verdict>>
Poly1(s) == TLCEval([i \in DOMAIN s |-> PolyOf(s[i])])
SetOf(s) == {s[i] : i \in DOMAIN s}
Clause(c, fs, st, e) ==
  IF e.why # "" THEN "a form does not tell what it is asked"
  ELSE IF e.op \in {"config", "set", "reduce"} THEN "ok"
  ELSE IF e.op = "rec" /\ c.route = "tris" THEN LET opts == TLCEval(TriRec(c, Of(c, st, e, e.t))) G == {SetOf(e.got[i]) : i \in DOMAIN e.got} IN
       IF Len(e.got) # Cardinality(Tris(c)) THEN "a form is not reconstructed in every element once"
       ELSE IF ~ (G \subseteq UNION opts /\ \A r \in opts : r \cap G # {}) THEN "a reconstructed form is not the field" ELSE "ok"
  ELSE IF e.op = "rec" THEN
       IF Len(e.got) # Cardinality(Cells(c)) THEN "a form is not reconstructed in every element once"
       ELSE IF {SetOf(e.got[i]) : i \in DOMAIN e.got} # RecOf(c, Of(c, st, e, e.t)) THEN "a reconstructed form is not the field" ELSE "ok"
  ELSE IF ~Tells(c, e.got, Exp(c, fs, st, e), e) THEN "a quantity of a form is not that of the field" ELSE "ok"
TInit == FInit /\ tr \in 1..Len(TLog) /\ l = 1 /\ verdict = "ok"
TNext == /\ verdict = "ok" /\ l <= Len(TLog[tr].ev)
         /\ LET e == TLog[tr].ev[l] c == Clause(cfg, fld, store, e) IN
            /\ verdict' = c
            /\ cfg' = IF e.op = "config" THEN e ELSE cfg
            /\ fld' = IF e.op = "config" THEN <<<<>>, <<>>, <<>>>> ELSE IF e.op = "set" THEN [fld EXCEPT ![e.f] = Poly1(e.comps)] ELSE fld
            /\ store' = IF e.op = "config" THEN <<<<>>, <<>>, <<>>>> ELSE IF e.op = "reduce" THEN
                        [store EXCEPT ![e.f] = TLCEval([s \in (DOMAIN @) \cup {e.t} |-> IF s = e.t THEN Stills(fld[e.f], e.t) ELSE store[e.f][s]])] ELSE store
            /\ IF c = "ok" THEN (l < Len(TLog[tr].ev) \/ PrintT(<<"OKT", ToJson(tr)>>))
               ELSE PrintT(<<"BAD", ToJson([trace |-> tr, step |-> l, clause |-> c])>>)
         /\ l' = l + 1
         /\ UNCHANGED <<vvars, log, tr>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
