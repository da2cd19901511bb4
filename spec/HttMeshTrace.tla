---------------------------- MODULE HttMeshTrace ----------------------------
(* Recorded sessions with static msehtt meshes against HttMesh.  Only what Judge names is judged.   *)
EXTENDS HttMesh, IOUtils
CONSTANT Judge
VARIABLES tr, st, verdict, cx, pt, sec
tvars == <<mesh, asked, hist, tr, st, verdict, cx, pt, sec>>
TLog == JsonDeserialize(IOEnv.PHV_TRACE)
Rng(q) == {q[i] : i \in DOMAIN q}
J(x) == x \in Judge
RingsOf(o) == [i \in DOMAIN o.els |-> [j \in DOMAIN o.els[i].vs |-> o.els[i].vs[j]]]
PosRing(e) == [j \in DOMAIN e.xy |-> <<e.xy[j][1], e.xy[j][2]>>]
VPos(o) == UNION {{<<e.vs[j], <<e.xy[j][1], e.xy[j][2]>>>> : j \in DOMAIN e.vs} : e \in Rng(o.els)}
PtOf(o) == LET V == VPos(o) IN TLCEval([n \in {x[1] : x \in V} |-> (CHOOSE x \in V : x[1] = n)[2]])
\* q lies strictly between the ends of the edge a--b (positions)
Between(a, b, q) == q # a /\ q # b /\ Cross(a, b, q) = 0
                    /\ \A c \in 1..2 : MinOf(a[c], b[c]) <= q[c] /\ q[c] <= MaxOf(a[c], b[c])
Hanging(c, p) == \E ed \in OuterEdges(c) : \E v \in AllVerts(c) : Between(p[ed[1]], p[ed[2]], p[v])
\* an edge with one element lies on an edge of the given mesh with one element
BaseSingles(R) == {<<h[1], h[2]>> : h \in Singles(R)}
OnBase(a, b, R) == \E h \in BaseSingles(R) : \A q \in {a, b} : q = h[1] \/ q = h[2] \/ Between(h[1], h[2], q)
ConfigOk(e, o) ==
   LET R0 == {Ring(e.mesh, e.mesh.elems[i]) : i \in DOMAIN e.mesh.elems}
       c == RingsOf(o)  V == VPos(o)  p == PtOf(o)
       kind(r) == <<Len(r), Pts(r)>>
   IN IF Len(o.els) # o.total THEN "the mesh has other elements than it says, or shared ones"
      ELSE IF ~o.exact THEN "an element is at another place than its description says"
      ELSE IF Cardinality(V) # Cardinality({x[1] : x \in V}) THEN "one vertex is at two places"
      ELSE IF Cardinality(V) # Cardinality({x[2] : x \in V}) THEN "two vertices are at one place"
      ELSE IF \E x \in Rng(o.els) : ~(Area2(PosRing(x)) > 0) THEN "an element is turned over"
      ELSE IF SumF(DOMAIN o.els, LAMBDA i : Area2(PosRing(o.els[i]))) # SumF(R0, Area2) THEN "the elements do not fill the domain"
      ELSE IF ExactlyKnown(e.ts, e.trf) /\ (LET X == Refined(e.mesh, e.ts, e.trf) IN Cardinality(X) # Len(o.els) \/ {kind(r) : r \in X} # {kind(PosRing(x)) : x \in Rng(o.els)})
           THEN "the mesh has other elements than the given one splits into"
      ELSE IF ~Conforming(c) \/ Hanging(c, p) THEN "the mesh is not conforming"
      ELSE IF \E ed \in OuterEdges(c) : ~OnBase(p[ed[1]], p[ed[2]], R0) THEN "the mesh has a boundary where the domain has none"
      ELSE IF e.ren /\ ~o.plain /\ ~e.saved THEN "the elements are not renumbered"
      ELSE IF {x.rank : x \in Rng(o.els)} # 0..(o.size - 1) THEN "a process has no element"
      ELSE "ok"
Id(r) == <<r.kind, r.a, r.b, r.m>>
\* ---------------------------------------------------------------- numbering of the degrees of freedom
Tables(e, els) ==
   IF Len(els) # Len(cx) \/ \E i \in DOMAIN els : {Id(r) : r \in Rng(els[i])} # CellsOf(cx, e.deg, e.k, i) \/ Len(els[i]) # Cardinality(CellsOf(cx, e.deg, e.k, i))
   THEN "the degrees of freedom of an element are other cells" ELSE "ok"
Numbering(e, o) ==
   LET all == UNION {Rng(x) : x \in Rng(o.els)}
       G == {r.g : r \in all}
   IN IF {<<r.g, Id(r)>> : r \in all} # {<<g, CHOOSE d \in {Id(r) : r \in {s \in all : s.g = g}} : TRUE>> : g \in G}
      THEN "two cells share a number"
      ELSE IF Cardinality(G) # Cardinality({Id(r) : r \in all}) THEN "one cell has two numbers"
      ELSE IF G # 0..(Cardinality(G) - 1) \/ o.n # Cardinality(G) THEN "the numbers are not consecutive"
      ELSE IF Cardinality(G) # NumCells(cx, e.deg, e.k) THEN "the number of degrees of freedom is wrong"
      ELSE "ok"
Matching(o) ==
   LET all == UNION {Rng(x) : x \in Rng(o.els)}  G == {r.g : r \in all} IN
   IF Cardinality({<<r.g, r.s>> : r \in all}) # Cardinality(G) THEN "the elements see a shared cell the other way round"
   ELSE IF Cardinality({<<r.g, r.v>> : r \in all}) # Cardinality(G) THEN "the elements reduce a field to different values on a shared cell"
   ELSE "ok"
\* ---------------------------------------------------------------- the exterior derivative
Row1(e, i, lo, r, row) ==
   \* a 1-cell: from one 0-cell to another
   IF Len(row) # 2 \/ {row[1][2], row[2][2]} # {1, -1} THEN FALSE
   ELSE r.kind = "i" \/
        LET plus == IF row[1][2] = 1 THEN row[1][1] ELSE row[2][1]
            minus == IF row[1][2] = 1 THEN row[2][1] ELSE row[1][1]
            node(m) == IF m = 0 THEN <<"v", r.a, r.a, 0>> ELSE IF m = e.deg THEN <<"v", r.b, r.b, 0>> ELSE <<"e", r.a, r.b, m>>
        IN <<Id(lo[plus]), Id(lo[minus])>> = IF r.s = 1 THEN <<node(r.m), node(r.m - 1)>> ELSE <<node(r.m - 1), node(r.m)>>
EntriesIn(mat, j) == UNION {{<<i, mat[i][x][2]>> : x \in {y \in DOMAIN mat[i] : mat[i][y][1] = j}} : i \in DOMAIN mat}
Col2(e, i, lo, up, mat, j) ==
   LET E == EntriesIn(mat, j)  r == lo[j] IN
   IF r.kind = "e" THEN Cardinality(E) = 1 /\ \A x \in E : x[2] = r.s * Dir(cx[i], <<r.a, r.b>>) * up[x[1]].s
   ELSE Cardinality(E) = 2 /\ SumF(E, LAMBDA x : x[2] * up[x[1]].s) = 0
Incidence(e, o) ==
   IF \E i \in DOMAIN o.up : Len(o.mat[i]) # Len(o.up[i]) THEN "the incidence matrix has another shape"
   ELSE IF ~o.int \/ \E i \in DOMAIN o.mat : \E j \in DOMAIN o.mat[i] : \E x \in Rng(o.mat[i][j]) : x[2] \notin {1, -1} \/ x[1] > Len(o.els[i])
   THEN "the incidence matrix has other entries than 1, -1"
   ELSE IF e.k = 0 /\ \E i \in DOMAIN o.mat : \E j \in DOMAIN o.mat[i] : ~Row1(e, i, o.els[i], o.up[i][j], o.mat[i][j])
   THEN "the derivative of a 0-form is not the difference along a cell"
   ELSE IF e.k = 1 /\ \E i \in DOMAIN o.mat : \E j \in DOMAIN o.mat[i] :
             Len(o.mat[i][j]) \notin (IF Len(cx[i]) = 4 THEN {4} ELSE {3, 4}) THEN "a 2-cell is bounded by a wrong number of 1-cells"
   ELSE IF e.k = 1 /\ \E i \in DOMAIN o.mat : Cardinality({j \in DOMAIN o.mat[i] : Len(o.mat[i][j]) = 3}) # (IF Len(cx[i]) = 4 THEN 0 ELSE e.deg)
   THEN "a 2-cell is bounded by a wrong number of 1-cells"
   ELSE IF e.k = 1 /\ \E i \in DOMAIN o.mat : \E j \in DOMAIN o.els[i] : ~Col2(e, i, o.els[i], o.up[i], o.mat[i], j)
   THEN "the derivative of a 1-form is not the circulation around a cell"
   ELSE IF \E b \in Rng(o.stokes) : ~b THEN "the derivative does not commute with the reduction"
   ELSE "ok"
\* ---------------------------------------------------------------- inner products
Small(r) == [i \in DOMAIN r |-> <<r[i][1] \div 48, r[i][2] \div 48>>]
Fits(r) == \A i \in DOMAIN r : r[i][1] % 48 = 0 /\ r[i][2] % 48 = 0
MassOk(e, o) ==
   LET r(i) == [j \in DOMAIN cx[i] |-> pt[cx[i][j]]] IN
   IF \E i \in DOMAIN o.els : ~o.els[i].sym \/ ~o.els[i].pos THEN "a mass matrix is not symmetric positive definite"
   ELSE IF e.k = 2 /\ e.deg = 1 THEN "ok"
   ELSE IF \E i \in DOMAIN o.els : o.els[i].v[1] # Area2(r(i)) THEN "the mass of a constant field is not the area"
   ELSE IF e.k = 1 /\ \E i \in DOMAIN o.els : o.els[i].v[2] # 0 \/ o.els[i].v[3] # Area2(r(i)) THEN "the mass of a constant field is not the area"
   ELSE IF e.k = 0 /\ \E i \in DOMAIN o.els : Fits(r(i)) /\ \E c \in 1..2 : o.els[i].v[1 + c] # Moment6(Small(r(i)), c) THEN "the mass of a linear field is wrong"
   ELSE "ok"
\* ---------------------------------------------------------------- boundary sections
SectionOk(e, o) ==
   LET E == SectionEdges(cx, pt, e) IN
   IF Cardinality(Rng(o.faces)) # Len(o.faces) THEN "a section has a face twice"
   ELSE IF {<<f[1], <<f[2], f[3]>>>> : f \in Rng(o.faces)} # {<<Owner(cx, ed), ed>> : ed \in E} THEN "a section consists of other faces"
   ELSE IF o.n # Cardinality(E) THEN "a section miscounts its faces"
   ELSE "ok"
BdofsOk(e, o) ==
   LET E == SectionEdges(cx, pt, sec)
       loc == {<<d.e, <<d.kind, d.a, d.b, d.m>>>> : d \in Rng(o.local)}
       want == UNION {{<<Owner(cx, ed), c>> : c \in CellsOn(cx, e.deg, e.k, {ed})} : ed \in E}
       glob == {<<d.kind, d.a, d.b, d.m>> : d \in Rng(o.glob)}
   IN IF o.dup \/ Cardinality(loc) # Len(o.local) \/ Cardinality(glob) # Len(o.glob) THEN "a section lists a degree of freedom twice"
      ELSE IF loc # want THEN "other local degrees of freedom lie on a section"
      ELSE IF glob # CellsOn(cx, e.deg, e.k, E) THEN "other global degrees of freedom lie on a section"
      ELSE IF ~o.same THEN "the processes do not agree on a section"
      ELSE "ok"
First(a, b) == IF a # "ok" THEN a ELSE b
Clause(e) ==
   IF e.op = "config" THEN (IF e.obs.ok THEN (IF J("mesh") THEN ConfigOk(e, e.obs) ELSE "ok")
                           ELSE "a legal mesh was refused")
   ELSE IF ~e.obs.ok THEN "a legal request was refused"
   ELSE IF e.op = "space" THEN
        LET t == Tables(e, e.obs.els) IN
        IF t # "ok" THEN (IF J("number") \/ J("deriv") THEN t ELSE "ok")
        ELSE First(IF J("number") THEN First(Numbering(e, e.obs), Matching(e.obs)) ELSE "ok",
                   IF J("deriv") /\ e.k < 2 THEN Incidence(e, e.obs) ELSE "ok")
   ELSE IF e.op = "mass" THEN (IF J("mass") THEN MassOk(e, e.obs) ELSE "ok")
   ELSE IF e.op = "section" THEN (IF J("section") THEN SectionOk(e, e.obs) ELSE "ok")
   ELSE (IF J("section") THEN BdofsOk(e, e.obs) ELSE "ok")
TInit == Init /\ tr \in 1..Len(TLog) /\ st = 1 /\ verdict = "ok" /\ cx = <<>> /\ pt = <<>> /\ sec = <<>>
TNext == /\ st <= Len(TLog[tr].ev) /\ verdict = "ok"
         /\ LET e == TLog[tr].ev[st] IN
            /\ cx' = IF e.op = "config" /\ e.obs.ok THEN RingsOf(e.obs) ELSE cx
            /\ pt' = IF e.op = "config" /\ e.obs.ok THEN PtOf(e.obs) ELSE pt
            /\ sec' = IF e.op = "section" THEN [kind |-> e.kind, arg |-> e.arg, neg |-> e.neg] ELSE sec
            /\ verdict' = Clause(e)
            /\ st' = st + 1
            /\ (verdict' # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> st, clause |-> verdict'])>>))
            /\ ((verdict' = "ok" /\ st = Len(TLog[tr].ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ UNCHANGED <<mesh, asked, hist, tr>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
