------------------------- MODULE BoundarySystemTrace -------------------------
(* Conformance: the systems the real code assembled under boundary conditions. *)
EXTENDS BoundarySystem, IOUtils
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, st, obs0, verdict
tvars == <<dom, asked, hist, tr, st, obs0, verdict>>
Boxes == obs0.boxes
\* the rows of the degrees of freedom of b: kind, right hand side (times 4 W^2 or 2 W^2), difference to the free system (times 4 W)
BCells == LET cs == Comps(dom.n, dom.n - 1, "outer") IN
   UNION {UNION {{<<e, c, t>> : t \in Idx(dom.p, cs[c])} : c \in DOMAIN cs} : e \in DOMAIN Boxes}
Dof(x) == LET cs == Comps(dom.n, dom.n - 1, "outer")
          IN obs0.gm[x[1]][obs0.ln[x[2]][Flat(x[3], Shape(dom.p, cs[x[2]]))] + 1]
CellOk(e, o, x, row) ==
   LET S == SidesOf(dom, Boxes[x[1]], x[2], x[3])
       essential == \E y \in S : ~InSection(dom, y, 1)
       f == [y \in S |-> Push(dom, Boxes[x[1]], y[2], y[3], e.k)]
   IN IF essential THEN IF row[1] # "unit" THEN "no essential condition on a degree of freedom of the section"
                        ELSE IF row[2] # Flux(dom, Boxes[x[1]], x[2], x[3], e.k) THEN "the essential condition is not that of the time"
                        ELSE "ok"
      ELSE IF S = {} THEN "ok"
      ELSE IF row[1] # "same" THEN "an equation outside of the essential section is another one"
      ELSE IF row[3] # Tot(S, f) THEN "the natural condition is not that of the time"
      ELSE "ok"
\* cells nowhere on the boundary
InnerDofs == {Dof(x) : x \in BCells} \ {Dof(x) : x \in {y \in BCells : SidesOf(dom, Boxes[y[1]], y[2], y[3]) # {}}}
EvalOk(e, o) ==
   LET bad == {x \in BCells : SidesOf(dom, Boxes[x[1]], x[2], x[3]) # {} /\ CellOk(e, o, x, o.rows[Dof(x) + 1]) # "ok"}
   IN IF bad # {} THEN LET x == CHOOSE y \in bad : TRUE IN CellOk(e, o, x, o.rows[Dof(x) + 1])
      ELSE IF \E g \in InnerDofs : o.rows[g + 1][1] # "same" \/ o.rows[g + 1][3] # 0 THEN "an equation of the interior is another one"
      ELSE IF ~o.others THEN "an equation of the other unknown is another one"
      ELSE IF ~o.solved THEN "what was taken for the solution does not solve the system"
      ELSE IF ~o.kept THEN "the solution did not become the cochain of its time"
      ELSE "ok"
Clause(e) == IF ~e.obs.ok THEN "a legal request was refused" ELSE IF e.op = "config" THEN "ok" ELSE EvalOk(e, e.obs)
BoxesOk(d, bx) == {bx[i] : i \in DOMAIN bx} = Elements(d) /\ Len(bx) = NumElements(d)
TInit == Init /\ tr \in 1..Len(TLog) /\ st = 1 /\ obs0 = [ok |-> FALSE] /\ verdict = "ok"
TNext == /\ st <= Len(TLog[tr].ev) /\ verdict = "ok"
         /\ LET e == TLog[tr].ev[st] IN
            /\ dom' = IF e.op = "config" THEN e.dom ELSE dom
            /\ obs0' = IF e.op = "config" /\ e.obs.ok THEN e.obs ELSE obs0
            /\ asked' = {}
            /\ verdict' = IF e.op = "config" /\ e.obs.ok /\ ~BoxesOk(e.dom, e.obs.boxes) THEN "the elements do not tile the domain as laid out" ELSE Clause(e)
            /\ st' = st + 1
            /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> st, clause |-> verdict'])>>))
            /\ ((verdict' = "ok" /\ st = Len(TLog[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED <<tr, hist>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
