-------------------------- MODULE LocalSystemTrace --------------------------
(* Conformance: what the real local matrices, vectors and linear systems were seen to be. *)
EXTENDS LocalSystem, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, i, verdict
tvars == <<gms, objs, hist, tr, i, verdict>>

Blockwise(ch, x, j) == [e \in 1..NE |-> [l \in 1..NL(ch[j]) |-> x[gms[ch[j]][e][l] + SumND(ch, j - 1) + 1]]]
MayRefuse(k) == Tainted(k) /\ ~Shows(k)
RECURSIVE AnyMay(_)
AnyMay(k) == IF Shows(k) THEN \E j \in objs[k].deps : MayRefuse(j) ELSE MayRefuse(k)
Name(k) == objs[k].op
Clause(e) ==
   IF e.op = "setup" THEN "ok"
   ELSE IF e.mut THEN "an operation changed data it was given"
   ELSE IF e.op = "read"
   THEN IF e.res = "refused" THEN IF AnyMay(e.i) THEN "ok" ELSE "an object (" \o Name(e.i) \o ") cannot be assembled"
        ELSE IF e.obs # Asm(e.i) THEN "an object (" \o Name(e.i) \o (IF objs[e.i].cust THEN ", customized" ELSE IF Tainted(e.i) THEN ", with customized parts" ELSE "") \o ") assembles to something else"
        ELSE "ok"
   ELSE IF e.op = "find"
   THEN IF e.res = "refused" THEN "degrees of freedom cannot be found"
        ELSE IF SetOf(e.obs) # SetOf(e.ds) THEN "other degrees of freedom were found" ELSE "ok"
   ELSE IF e.op = "update"
   THEN IF e.res = "refused" THEN "the solution is not written back"
        ELSE IF \E j \in DOMAIN objs[e.i].c : e.obs[j] # Blockwise(objs[e.i].c, e.x, j) THEN "the solution is written back to other degrees of freedom" ELSE "ok"
   ELSE IF Refused(e) THEN IF e.res = "ok" THEN e.op \o " on a matrix that is not square is not refused" ELSE "ok"
   ELSE IF e.res = "refused" THEN e.op \o " is refused" ELSE "ok"

TInit == /\ tr \in 1..Len(TLog) /\ i = 1 /\ verdict = "ok" /\ gms = <<>> /\ objs = <<>> /\ hist = <<>>
TNext == /\ i <= Len(TLog[tr].ev) /\ verdict = "ok"
         /\ LET e == TLog[tr].ev[i]  c == Clause(e) IN
            /\ verdict' = c
            /\ gms' = IF e.op = "setup" THEN e.gms ELSE gms
            /\ hist' = IF e.op = "ls" THEN Append(hist, e) ELSE hist
            /\ objs' = IF e.op = "setup" \/ c # "ok" THEN objs ELSE Apply(e)
            /\ i' = i + 1
            /\ (c # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> i, clause |-> c])>>))
            /\ ((c = "ok" /\ i = Len(TLog[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED tr
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
