--------------------------- MODULE DynSystemTrace ---------------------------
(* Conformance: the system the real code makes at a step is the one the formulation prescribes: its blocks are
   the sums of the prescribed matrices, at the prescribed instants, under the prescribed conditions, whatever was
   called before. *)
EXTENDS DynSystem, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, l, verdict
tvars == <<avars, tr, l, verdict>>
All(s) == \A j \in 1..Len(s) : s[j]
All2(s) == \A j \in 1..Len(s) : All(s[j])
\* the same sum: entry by entry, in any order
SameBagD(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Cardinality({m \in 1..Len(s) : s[m] = s[j]}) = Cardinality({m \in 1..Len(t) : t[m] = s[j]})
SameX(a, b) == /\ a.x = b.x /\ Len(a.b) = Len(b.b) /\ Len(a.A) = Len(b.A)
               /\ \A q \in 1..Len(a.b) : SameBagD(a.b[q], b.b[q])
               /\ \A q \in 1..Len(a.A) : \A j \in 1..Len(a.A[q]) : SameBagD(a.A[q][j], b.A[q][j])
HasEss(bc) == \E j \in 1..Len(bc) : bc[j][2][1] = "tr" /\ bc[j][2][2] \in Range(Conf.xs)
ClauseD(f, e) ==
  IF e.op = "fem" THEN
     IF e.res # "ok" THEN "a system was not implemented" ELSE "ok"
  ELSE LET S == System(f.wf, f.td, f.bcs) IN
  IF S = None THEN "the formulation reached is another one"
  ELSE IF e.res # "ok" THEN "a system was not made at a step"
  ELSE IF ~SameX(Conc(S, f.pl, e.k), e.exp) THEN "the formulation reached is another one"
  ELSE IF ~e.shape THEN "the shape of the system at a step is wrong"
  ELSE IF Len(e.A) # Len(S.A) \/ Len(e.b) # Len(S.b) THEN "the shape of the system at a step is wrong"
  ELSE IF ~All2(e.A) THEN "a block of the matrix at a step is wrong"
  ELSE IF ~All(e.b) THEN "an entry of the right hand side at a step is wrong"
  ELSE IF ~e.x THEN "the solution of a step does not become the unknowns at its time"
  ELSE IF e.fixed > 0 /\ ~HasEss(f.bcs) THEN "rows are taken without an essential condition"
  ELSE "ok"
TInit == AInit /\ tr \in 1..Len(TLog) /\ l = 1 /\ verdict = "ok"
TNext == /\ verdict = "ok" /\ l <= Len(TLog[tr].ev)
         /\ LET e == TLog[tr].ev[l] c == ClauseD(TLog[tr].ev[1], e) IN
            /\ verdict' = IF c = "ok" THEN "ok" ELSE c
            /\ IF c = "ok" THEN (l < Len(TLog[tr].ev) \/ PrintT(<<"OKT", ToJson(tr)>>))
               ELSE PrintT(<<"BAD", ToJson([trace |-> tr, step |-> l, clause |-> c])>>)
         /\ l' = l + 1
         /\ UNCHANGED <<avars, tr>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
