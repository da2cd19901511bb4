--------------------------- MODULE WeakFormTrace ---------------------------
(* Conformance: the formulation the real code returned is the one the specification derives, all
   earlier formulations are as they were, and unknowns, test forms and boundary conditions go along. *)
EXTENDS WeakForm, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, st, verdict
tvars == <<wfs, last, hist, tr, st, verdict>>

\* a formulation in which an unknown no longer occurs is refused
Occurs(w, u) == \E q \in 1..Len(w) : \E k \in 0..(NT(w[q]) - 1) : LET t == At(w[q], k)[2] IN Has(t.f0, u) \/ Has(t.f1, u)
RECURSIVE Raw(_)
Raw(f) == IF f[1] \in {"at", "sdiv", "ddt"} THEN FALSE ELSE IF f[1] \in {"r", "t"} THEN TRUE
          ELSE IF f[1] \in {"plus", "minus", "x"} THEN Raw(f[2]) /\ Raw(f[3]) ELSE IF f[1] = "mul" THEN Raw(f[3]) ELSE Raw(f[2])
\* discretizing a second time is not always supported
Fresh(w) == \A q \in 1..Len(w) : \A k \in 0..(NT(w[q]) - 1) : Raw(At(w[q], k)[2].f0) /\ Raw(At(w[q], k)[2].f1)
\* a factor inside a sum is not always understood when testing
RECURSIVE Inside(_)
Inside(f) == IF f[1] = "mul" THEN TRUE ELSE IF f[1] \in {"r", "t"} THEN FALSE
             ELSE IF f[1] \in {"plus", "minus", "x"} THEN Inside(f[2]) \/ Inside(f[3]) ELSE Inside(f[2])
Simple(p) == \A q \in 1..Len(p) : \A side \in {p[q].l, p[q].r} : \A j \in 1..Len(side) :
               LET f == side[j][2] IN ~Inside(IF f[1] = "mul" THEN f[3] ELSE f)
Covers(w) == \A u \in Conf.unk : Occurs(w, u)
\* cross products exist only between some spaces; a commutation that needs another one is refused
Clause(e, w) ==
  IF w = None THEN IF e.res = "ok" THEN "a derivation that does not apply was performed" ELSE "ok"
  ELSE IF e.res # "ok" THEN IF (e.op = "comm" /\ ~e.should) \/ ~Covers(w) \/ (e.op = "pde" /\ ~Simple(e.pde)) \/ (e.op = "td" /\ ~Fresh(wfs[e.src])) THEN "ok" ELSE "a derivation that applies was refused"
  ELSE IF Len(e.wf) # Len(w) THEN "the number of equations changed"
  ELSE IF \E q \in 1..Len(w) : Len(e.wf[q].l) # Len(w[q].l) \/ Len(e.wf[q].r) # Len(w[q].r) THEN "terms are lost, added or on the wrong side"
  ELSE IF \E q \in 1..Len(w) : [j \in 1..NT(w[q]) |-> At(w[q], j - 1)[1]] # [j \in 1..NT(w[q]) |-> At(e.wf[q], j - 1)[1]] THEN "a sign is wrong"
  ELSE IF ~Same(e.wf, w) THEN "a term is not the derived one"
  ELSE IF e.changed # 0 THEN "an earlier formulation changed"
  ELSE IF e.unk # "same" THEN "the unknowns are not passed on"
  ELSE IF ~e.bc THEN "the boundary conditions are not passed on"
  ELSE IF ~e.test THEN "the test forms are not passed on"
  ELSE IF ~e.index THEN "indexing a term does not give that term"
  ELSE "ok"
TInit == Init /\ tr \in 1..Len(TLog) /\ st = 1 /\ verdict = "ok"
TNext == /\ st <= Len(TLog[tr].ev) /\ verdict = "ok"
         /\ LET e == TLog[tr].ev[st]
                w == IF e.op = "pde" THEN TestPde(e.pde) ELSE IF wfs[e.src] = None THEN None ELSE Do(e, wfs[e.src])
            IN /\ wfs' = Append(wfs, IF e.res = "ok" THEN w ELSE None)
               /\ verdict' = Clause(e, w)
               /\ last' = last /\ hist' = hist
               /\ st' = st + 1
               /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> st, clause |-> verdict', expected |-> w])>>))
               /\ ((verdict' = "ok" /\ st = Len(TLog[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED tr
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
