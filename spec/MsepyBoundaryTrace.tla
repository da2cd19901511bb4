------------------------- MODULE MsepyBoundaryTrace -------------------------
(* Conformance: what the real boundary sections and boundary integrals were seen to be. *)
EXTENDS MsepyBoundary, IOUtils
SetOf(s) == {s[i] : i \in DOMAIN s}
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, st, pts, verdict
tvars == <<dom, asked, hist, tr, st, pts, verdict>>
Box(e) == pts[e + 1]                       \* the box of element e (from 0)
\* sides as the code names them: element, axis (from 0), end (0 or 1)
Side(x) == <<Box(x[1]), x[2] + 1, x[3] + 1>>
SectionFaces(o) ==
   LET secs == <<o.whole, o.one, o.two>> IN
   IF \E j \in 1..3 : Cardinality(SetOf(secs[j])) # Len(secs[j]) THEN "a section has a side twice"
   ELSE IF \E j \in 1..3 : {Side(x) : x \in SetOf(secs[j])} # SectionSides(dom, j - 1) THEN "a section consists of other sides"
   ELSE "ok"
Dofs(e, o) ==
   LET cs == Comps(dom.n, e.k, e.o)
       exp(a, s) == {o.ln[x[1]][Flat(x[2], Shape(dom.p, cs[x[1]]))] : x \in OnSide(dom.p, cs, a, s)}
       faces == SetOf(o.faces)           \* <<element, axis, end, local dofs>>
       all == UNION {{<<f[1], l>> : l \in SetOf(f[4])} : f \in faces}
   IN IF {Side(f) : f \in faces} # SectionSides(dom, e.sec) THEN "a section consists of other sides"
      ELSE IF \E f \in faces : SetOf(f[4]) # exp(f[2] + 1, f[3] + 1) \/ Len(f[4]) # Cardinality(SetOf(f[4])) THEN "other degrees of freedom lie on a side"
      ELSE IF SetOf(o.dofs) # {o.gm[x[1] + 1][x[2] + 1] : x \in all} THEN "other degrees of freedom lie on a section"
      ELSE IF Len(o.dofs) # Len(o.places) \/ \E i \in DOMAIN o.dofs : o.gm[o.places[i][1] + 1][o.places[i][2] + 1] # o.dofs[i]
           THEN "two objects found on a section do not correspond"
      ELSE IF SetOf(o.places) # all THEN "objects are found at other places"
      ELSE "ok"
NaturalOk(e, o) ==
   LET cs == Comps(2, e.k, e.o)
       want(el, c, t) == Natural(dom, e.k, e.o, e.fs, e.sec, Box(el - 1), c, t)
   IN IF \E el \in DOMAIN o.bi : Len(o.bi[el]) # NumLocal(<<1, 1>>, cs) THEN "the boundary integral has the wrong shape"
      ELSE IF \E el \in DOMAIN o.bi : \E c \in DOMAIN cs : \E t \in Idx(<<1, 1>>, cs[c]) :
              o.bi[el][o.ln[c][Flat(t, Shape(<<1, 1>>, cs[c]))] + 1] # want(el, c, t)
      THEN "the boundary integral of a form is wrong"
      ELSE "ok"
Clause(e) ==
   IF e.op = "config" THEN IF e.obs.ok THEN "ok" ELSE "a legal boundary section was refused"
   ELSE IF ~e.obs.ok THEN "a legal request was refused"
   ELSE IF e.op = "faces" THEN SectionFaces(e.obs)
   ELSE IF e.op = "dofs" THEN Dofs(e, e.obs)
   ELSE NaturalOk(e, e.obs)
BoxesOk(d, bx) == {bx[i] : i \in DOMAIN bx} = Elements(d) /\ Len(bx) = NumElements(d)
TInit == Init /\ tr \in 1..Len(TLog) /\ st = 1 /\ pts = <<>> /\ verdict = "ok"
TNext == /\ st <= Len(TLog[tr].ev) /\ verdict = "ok"
         /\ LET e == TLog[tr].ev[st] IN
            /\ dom' = IF e.op = "config" THEN e.dom ELSE dom
            /\ pts' = IF e.op = "config" /\ e.obs.ok THEN e.obs.boxes ELSE pts
            /\ asked' = {}
            /\ verdict' = IF e.op = "config" /\ e.obs.ok /\ ~BoxesOk(e.dom, e.obs.boxes) THEN "the elements do not tile the domain as laid out" ELSE Clause(e)
            /\ st' = st + 1
            /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> st, clause |-> verdict'])>>))
            /\ ((verdict' = "ok" /\ st = Len(TLog[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED <<tr, hist>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
