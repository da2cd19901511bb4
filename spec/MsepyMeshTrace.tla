--------------------------- MODULE MsepyMeshTrace ---------------------------
(* Conformance: what the real code answered about its meshes and spaces.  Elements and degrees of
   freedom are numbered as the code likes; the numbering has to fit the specification.         *)
EXTENDS MsepyMesh, IOUtils
SetOf(s) == {s[i] : i \in DOMAIN s}
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
CONSTANT Judge          \* which clauses decide: subset of {"mesh", "dofs", "derivative"}
VARIABLES tr, st, verdict
tvars == <<dom, asked, hist, tr, st, verdict>>

\* all pts: sequence over elements of the coordinates (one tuple per half-lattice point, first axis fastest)
HShape(p) == [a \in DOMAIN p |-> 2 * p[a] + 1]
At(e, p, h) == e[Flat(h, HShape(p))]
Straight(d) == d.bend = 0
ExtentOf(ext, d, a) == IF Straight(d) THEN Extent(d, a) ELSE ext[a]
WrapO(ext, d, pt) == [a \in 1..d.n |-> IF Per(d, a) /\ pt[a] = ExtentOf(ext, d, a) THEN 0 ELSE pt[a]]
BoxOf(d, p, e) == LET z == At(e, p, [a \in Axes(d.n) |-> 0])
                      u == At(e, p, [a \in Axes(d.n) |-> 2 * p[a]])
                  IN [a \in Axes(d.n) |-> <<z[a], u[a]>>]
GeoOk(d, p, pts) ==
   IF Len(pts) # NumElements(d) THEN "the number of elements is wrong"
   ELSE IF ~Straight(d) THEN "ok"
   ELSE IF {BoxOf(d, p, pts[e]) : e \in DOMAIN pts} # Elements(d) THEN "the elements do not tile the domain as laid out"
   ELSE IF \E e \in DOMAIN pts : \E h \in Prod([a \in Axes(d.n) |-> 0..(2 * p[a])]) :
              At(pts[e], p, h) # Point(BoxOf(d, p, pts[e]), p, h) THEN "an element is not mapped along its axes"
   ELSE "ok"
One(d) == [a \in Axes(d.n) |-> 1]
\* a numbering (per element, per local number) names the cells of the domain: same number iff same cell, 0..N-1
CellOf(x, d, p, pe, ext, t) == <<ext, WrapO(x, d, At(pe, p, Half(t, ext)))>>
NumberingOk(ext, d, p, cs, pts, num, ln) ==
   LET places == UNION {UNION {{<<e, c, t>> : t \in Idx(p, cs[c])} : c \in DOMAIN cs} : e \in DOMAIN pts}
       pairs == {<<CellOf(ext, d, p, pts[x[1]], cs[x[2]], x[3]), num[x[1]][ln[x[2]][Flat(x[3], Shape(p, cs[x[2]]))] + 1]>> : x \in places}
       cells == {x[1] : x \in pairs}
       nums == {x[2] : x \in pairs}
   IN IF Cardinality(pairs) > Cardinality(nums) THEN "one number for several cells"
      ELSE IF Cardinality(pairs) > Cardinality(cells) THEN "several numbers for one cell"
      ELSE "ok"
Contiguous(num) == LET nums == UNION {SetOf(num[e]) : e \in DOMAIN num} IN nums = 0..(Cardinality(nums) - 1)
FlatNum(p, cs) == [c \in DOMAIN cs |-> [i \in 1..Size(p, cs[c]) |-> Before(p, cs, c) + i - 1]]
LocalOk(p, cs, ln, shp, off) ==
   /\ Len(ln) = Len(cs)
   /\ \A c \in DOMAIN cs : Len(ln[c]) = Size(p, cs[c]) /\ shp[c] = Shape(p, cs[c])
   /\ {ln[x[1]][x[2]] : x \in UNION {{c} \X (1..Size(p, cs[c])) : c \in DOMAIN cs}} = off..(off + NumLocal(p, cs) - 1)
   /\ Len(cs) > 0
\* incidence in the code's own local numbering
IncExpect(n, k, o, p, lnc, lnr) ==
   LET C == Comps(n, k, o)  R == Comps(n, k + 1, o)
       ren(ln, cs) == [m \in 0..(NumLocal(p, cs) - 1) |->
                         LET c == CHOOSE x \in DOMAIN cs : Before(p, cs, x) <= m /\ m < Before(p, cs, x) + Size(p, cs[x])
                         IN ln[c][m - Before(p, cs, c) + 1]]
       rr == ren(lnr, R)
       rc == ren(lnc, C)
   IN {<<rr[x[1]], rc[x[2]], x[3]>> : x \in Incidence(n, k, o, p)}

\* a bundle space of k-forms has one copy of the components per axis, a copy has its own degree
Deg(r, j) == IF r.kind = "bundle" THEN [a \in DOMAIN r.p |-> r.p[((a + j - 2) % Len(r.p)) + 1]] ELSE r.p
RECURSIVE Local(_, _, _)
Local(r, cs, j) == IF j = 0 THEN 0 ELSE NumLocal(Deg(r, j), cs) + Local(r, cs, j - 1)
Dofs(d, r, o, cs, J) ==
   IF Len(o.ln) # Cardinality(J) THEN "the local numbering has the wrong parts"
   ELSE IF \E j \in J : ~LocalOk(Deg(r, j), cs, o.ln[j], o.shp[j], Local(r, cs, j - 1)) THEN "the local numbering is wrong"
   ELSE IF o.nld # Local(r, cs, Cardinality(J)) THEN "the number of local degrees of freedom is wrong"
   ELSE IF Len(o.gm) # Len(o.pts[1]) \/ \E e \in DOMAIN o.gm : Len(o.gm[e]) # o.nld THEN "the gathering matrix has the wrong shape"
   ELSE IF o.ndofs # Cardinality(UNION {SetOf(o.gm[e]) : e \in DOMAIN o.gm}) THEN "the number of degrees of freedom is wrong"
   ELSE IF ~Contiguous(o.gm) THEN "the numbers are not 0..N-1"
   ELSE LET nums(j) == UNION {UNION {{o.gm[e][o.ln[j][c][m] + 1] : m \in DOMAIN o.ln[j][c]} : c \in DOMAIN cs} : e \in DOMAIN o.gm}
            res == {NumberingOk(o.ext[j], d, Deg(r, j), cs, o.pts[j], o.gm, o.ln[j]) : j \in J}
        IN IF \E j \in J, i \in J : i # j /\ nums(j) \cap nums(i) # {} THEN "degrees of freedom of different axes share a number"
           ELSE IF res # {"ok"} THEN CHOOSE x \in res : x # "ok"
           ELSE "ok"
Derivative(d, r, o, cs, J) ==
   IF r.k = d.n THEN "ok"
   ELSE IF Len(o.ln) # Cardinality(J) \/ Len(o.lnd) # Cardinality(J) THEN "ok"      \* not for this clause
   ELSE IF o.incshape # <<Local(r, Comps(d.n, r.k + 1, r.o), Cardinality(J)), o.nld>> THEN "the incidence matrix has the wrong shape"
   ELSE IF SetOf(o.inc) # UNION {IncExpect(d.n, r.k, r.o, Deg(r, j), o.ln[j], o.lnd[j]) : j \in J}
        \/ Len(o.inc) # Cardinality(SetOf(o.inc)) THEN "the incidence matrix is not the signed boundary"
   ELSE "ok"
Space(d, r, o) ==
   LET cs == Comps(d.n, r.k, r.o)
       J == 1..(IF r.kind = "bundle" THEN d.n ELSE 1)
       f == IF "dofs" \in Judge THEN Dofs(d, r, o, cs, J) ELSE "ok"
   IN IF f # "ok" THEN f
      ELSE IF "derivative" \in Judge THEN Derivative(d, r, o, cs, J) ELSE "ok"

Map(d, o) ==      \* element map: -1 for nobody
   LET mid(e, a, s) == WrapO(o.ext, d, At(o.pts[e], One(d), [i \in Axes(d.n) |-> IF i = a THEN 2 * (s - 1) ELSE 1]))
   IN IF Len(o.map) # Len(o.pts) THEN "the element map has the wrong shape"
      ELSE IF \E e \in DOMAIN o.pts, a \in Axes(d.n), s \in {1, 2} :
                LET nb == {c \in DOMAIN o.pts : mid(c, a, 3 - s) = mid(e, a, s)}
                IN o.map[e][2 * (a - 1) + s] # (IF nb = {} THEN -1 ELSE (CHOOSE c \in nb : TRUE) - 1) THEN "a neighbour in the element map is wrong"
      ELSE "ok"
\* numbering of corners, edges and sides = numbering of the lattice of degree 1; attachment = its inverse
Attach(num, att) ==
   LET inv(x) == {<<e - 1, m - 1>> : e \in {i \in DOMAIN num : TRUE}, m \in 1..Len(num[1])} IN
   /\ Len(att) = Cardinality(UNION {SetOf(num[e]) : e \in DOMAIN num})
   /\ \A x \in 1..Len(att) : SetOf(att[x]) = {<<e, m>> \in inv(x) : num[e + 1][m + 1] = x - 1}
Topo(d, o) ==
   LET g == GeoOk(d, One(d), o.pts)
       m == Map(d, o)
       part(w, k) == IF o[w].num = <<>> THEN "ok"
                     ELSE IF NumberingOk(o.ext, d, One(d), Comps(d.n, k, "inner"), o.pts, o[w].num, FlatNum(One(d), Comps(d.n, k, "inner"))) # "ok"
                          THEN w \o ": " \o NumberingOk(o.ext, d, One(d), Comps(d.n, k, "inner"), o.pts, o[w].num, FlatNum(One(d), Comps(d.n, k, "inner")))
                     ELSE IF ~Contiguous(o[w].num) THEN w \o ": the numbers are not 0..N-1"
                     ELSE IF ~Attach(o[w].num, o[w].att) THEN w \o ": the attachment is not the inverse of the numbering"
                     ELSE "ok"
   IN IF g # "ok" THEN g ELSE IF m # "ok" THEN m
      ELSE IF d.n >= 2 /\ o.corner.num = <<>> /\ ~SelfTouch(d) THEN "corners were refused"
      ELSE IF d.n = 3 /\ (o.edge.num = <<>> \/ o.side.num = <<>>) /\ ~SelfTouch(d) THEN "edges or sides were refused"
      ELSE IF part("corner", 0) # "ok" THEN part("corner", 0)
      ELSE IF d.n < 3 THEN "ok"
      ELSE IF part("edge", 1) # "ok" THEN part("edge", 1)
      ELSE part("side", 2)

\* a chain of gathering matrices: side by side in every element, one number per number of a part
Chain(e, o) ==
   LET parts == o.parts
       cnt == TLCEval([i \in DOMAIN parts |-> Cardinality(UNION {SetOf(parts[i][x]) : x \in DOMAIN parts[i]})])
       off == TLCEval([i \in DOMAIN parts |-> SumTo(cnt, i - 1)])
       row(x) == LET RECURSIVE J(_)
                     J(i) == IF i = 0 THEN <<>> ELSE J(i - 1) \o [l \in DOMAIN parts[i][x] |-> parts[i][x][l] + off[i]]
                 IN J(Len(parts))
       want == TLCEval([x \in DOMAIN parts[1] |-> row(x)])
       n == SumTo(cnt, Len(cnt))
       pairs == TLCEval(UNION {{<<o.got[x][l], want[x][l]>> : l \in DOMAIN o.got[x]} : x \in DOMAIN o.got})
   IN IF Len(o.got) # Len(parts[1]) \/ \E x \in DOMAIN o.got : Len(o.got[x]) # Len(want[x]) THEN "a chain has the wrong shape"
      ELSE IF o.ndofs # n THEN "a chain has the wrong number of degrees of freedom"
      ELSE IF e.how = 1 /\ \E x \in DOMAIN o.got : o.got[x] # want[x] THEN "a chain does not number its parts one after the other"
      ELSE IF \E x \in DOMAIN o.got : \E l \in DOMAIN o.got[x] : o.got[x][l] \notin 0..(n - 1) THEN "the numbers of a chain are not 0..N-1"
      ELSE IF Cardinality(pairs) # n \/ Cardinality({q[1] : q \in pairs}) # n THEN "a chain has one number for several degrees of freedom"
      ELSE "ok"

MayRefuse(d, r) == \/ SelfTouch(d) /\ d.n = 3
Clause(e) ==
   IF e.op = "config" THEN IF e.obs.ok THEN "ok" ELSE "a legal mesh was refused"
   ELSE IF ~e.obs.ok THEN IF MayRefuse(dom, e) THEN "ok" ELSE "a legal request was refused"
   ELSE IF e.op = "topology" THEN Topo(dom, e.obs)
   ELSE IF e.op = "chain" THEN IF "dofs" \in Judge THEN Chain(e, e.obs) ELSE "ok"
   ELSE Space(dom, e, e.obs)
Do(e) == IF e.op = "config" THEN Config(e.dom) ELSE Ask(e)
TInit == Init /\ tr \in 1..Len(TLog) /\ st = 1 /\ verdict = "ok"
TNext == /\ st <= Len(TLog[tr].ev) /\ verdict = "ok"
         /\ LET e == TLog[tr].ev[st] IN
            /\ (IF e.op = "config" THEN dom' = e.dom ELSE dom' = dom) /\ asked' = {}
            /\ verdict' = Clause(e)
            /\ st' = st + 1
            /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> st, clause |-> verdict'])>>))
            /\ ((verdict' = "ok" /\ st = Len(TLog[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED <<tr, hist>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
