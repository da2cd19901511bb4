--------------------------- MODULE AlgSystemTrace ---------------------------
(* Conformance: the linear system the real code assembles from a formulation is the one of the
   specification: every block of A, every entry of b, the unknowns and the place of every condition. *)
EXTENDS AlgSystem, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, verdict
tvars == <<avars, tr, verdict>>
Cnt(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Cnt(s, s[j]) = Cnt(t, s[j])
SameSeq(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : s[j] = t[j]
Clause(S, e) ==
  IF S = None THEN IF e.res = "ok" THEN "a system was made of a formulation that is not of the form A x = b" ELSE "ok"
  ELSE IF e.res # "ok" THEN "a formulation of the form A x = b was refused"
  ELSE IF ~SameSeq(S.x, e.x) THEN "the unknowns are not those of the formulation"
  ELSE IF Len(e.A) # Len(S.A) \/ Len(e.b) # Len(S.b) \/ \E q \in 1..Len(S.A) : Len(e.A[q]) # Len(S.A[q]) THEN "the system has the wrong shape"
  ELSE IF \E q \in 1..Len(S.A) : \E j \in 1..Len(S.A[q]) : ~SameBag(S.A[q][j], e.A[q][j]) THEN "a block of A is wrong"
  ELSE IF \E q \in 1..Len(S.b) : ~SameBag(S.b[q], e.b[q]) THEN "an entry of b is wrong"
  ELSE IF ~SameBag(S.bc, e.bc) THEN "a boundary condition is not imposed where it belongs"
  ELSE IF ~e.bcok THEN "a natural condition does not point to its entry of b"
  ELSE IF ~e.index THEN "indexing the matrix proxy does not give its terms"
  ELSE IF ~e.deg THEN "a degree is wrong"
  ELSE IF ~e.again THEN "assembling again gives another system"
  ELSE "ok"
TInit == AInit /\ tr \in 1..Len(TLog) /\ verdict = "ok"
TNext == /\ verdict = "ok"
         /\ LET e == TLog[tr] S == System(e.wf, e.td, e.bcs) c == Clause(S, e) IN
            /\ verdict' = IF c = "ok" THEN "done" ELSE c
            /\ IF c = "ok" THEN PrintT(<<"OKT", ToJson(tr)>>)
               ELSE PrintT(<<"BAD", ToJson([trace |-> tr, step |-> 1, clause |-> c, expected |-> S])>>)
         /\ UNCHANGED <<avars, tr>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
