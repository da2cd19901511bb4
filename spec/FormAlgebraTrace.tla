------------------------- MODULE FormAlgebraTrace -------------------------
(* Conformance: for every recorded expression the real form must live in the space the algebra
   says, refused ones must be refused, and the linguistic representation must be a faithful name. *)
EXTENDS FormAlgebra
Log == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, st, verdict
tvars == <<pool, hist, tr, st, verdict>>

Seen(e) == S(e.kind, e.k, e.or, e.lvl)
OpenOK(p, s) == IF p \in {"scalar", "vector"} THEN s.kind = "Lambda" /\ s.lvl = 0 /\ Proxy(s) = p ELSE p = "?"
Leafset(e) == {e.leaves[j] : j \in 1..Len(e.leaves)}
Clause(e, x) ==
  IF x.t = Refused THEN IF e.res = "ok" THEN "an operator that is not defined there must be refused" ELSE "ok"
  ELSE IF x.t.kind = "open" THEN IF e.res # "ok" \/ OpenOK(x.t.ori, Seen(e)) THEN "ok" ELSE "result has the wrong type"
  ELSE IF e.res # "ok" THEN "an operator that is defined there was refused"
  ELSE IF Seen(e) # x.t THEN "the result is not in the space the operator maps to"
  ELSE IF e.mut THEN "applying an operator changed an operand"
  ELSE IF ~x.at /\ Leafset(e) # x.leaves THEN "elementary forms are not the root forms of the expression"
  ELSE IF e.space # "same" THEN "the same space requested again is not the same object"
  ELSE "ok"
\* lin[j] is the index of the first entry with the same linguistic representation
Names(ev, m) == \A j \in 1..(m - 1) :
   (ev[j].res = "ok" /\ ev[m].res = "ok" /\ ~pool[j].at /\ ~pool'[m].at /\ pool[j].t.kind # "open" /\ pool'[m].t.kind # "open") =>
      /\ (ev[j].lin = ev[m].lin => ToString(pool[j].val) = ToString(pool'[m].val))
      /\ ((ev[j].op = ev[m].op /\ ev[j].a = ev[m].a /\ ev[j].b = ev[m].b /\ ev[j].op # "root") => ev[j].lin = ev[m].lin)

TInit == tr \in 1..Len(Log) /\ st = 1 /\ verdict = "ok" /\ pool = <<>> /\ hist = <<>>
TNext == /\ st <= Len(Log[tr].ev) /\ verdict = "ok"
         /\ LET e == Log[tr].ev[st]
                x == IF e.op = "root" THEN RootEntry(st, S(e.rkind, e.rk, e.ror, 0)) ELSE Entry(e.op, pool[e.a], pool[e.b])
                x2 == IF x.t.kind = "open" /\ e.res = "ok" THEN [x EXCEPT !.t = Seen(e)] ELSE x
                c == Clause(e, x)
            IN /\ pool' = Append(pool, x2)
               /\ verdict' = IF c # "ok" THEN c ELSE IF Names(Log[tr].ev, st) THEN "ok"
                             ELSE "two different expressions share one representation (or one expression has two)"
               /\ st' = st + 1
               /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> st, clause |-> verdict'])>>))
               /\ ((verdict' = "ok" /\ st = Len(Log[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED <<tr, hist>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
