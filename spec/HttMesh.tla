------------------------------ MODULE HttMesh ------------------------------
(* Static msehtt meshes of the plane: triangles, quadrilaterals and rectangles glued along whole edges.

   The user names the elements and the vertices and lists the vertices of every element going round it
   counter-clockwise, starting anywhere.  The library may split every element (ts: a triangle into three
   quadrilaterals about its centroid, a quadrilateral into four), or split chosen quadrilaterals into
   four triangles about the centre and bisect triangles further (trf).  The outcome is a conforming mesh
   of the same domain again.

   A k-form of degree p lives on a finer cell complex: every edge is cut into p cells, every element into
   p x p cells; the degrees of freedom are the k-cells of that complex, shared by the elements around
   them.  The exterior derivative is the incidence of the complex, boundary sections consist of the edges
   with one element, and the degrees of freedom on a section are the cells on its edges.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS MaxOps, Rec, Sizes, MaxTs, Degrees, Kinds,
          MinElems,                \* meshes generated have at least that many elements
          Ops                      \* what is asked of the meshes
VARIABLES mesh, asked, hist
vars == <<mesh, asked, hist>>
S == 2304                                   \* coordinates are multiples of 1/S
None == [elems |-> <<>>]

\* ------------------------------------------------------------------ plane geometry
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Nxt(r, i) == r[IF i = Len(r) THEN 1 ELSE i + 1]
Convex(r) == \A i \in DOMAIN r : Cross(r[i], Nxt(r, i), Nxt(Tail(r) \o <<r[1]>>, i)) > 0
SumF(T, F(_)) == FoldSet(LAMBDA x, a : a + F(x), 0, T)
\* twice the area
Area2(r) == SumF(2..(Len(r) - 1), LAMBDA i : Cross(r[1], r[i], r[i + 1]))
\* six times the integral of a coordinate (c = 1, 2)
Moment6(r, c) == SumF(2..(Len(r) - 1), LAMBDA i : Cross(r[1], r[i], r[i + 1]) * (r[1][c] + r[i][c] + r[i + 1][c]))
MidP(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
Centre(r) == <<SumF(DOMAIN r, LAMBDA i : r[i][1]) \div Len(r), SumF(DOMAIN r, LAMBDA i : r[i][2]) \div Len(r)>>
Prev(r, i) == r[IF i = 1 THEN Len(r) ELSE i - 1]
\* the splits
Split(r) == {<<r[i], MidP(r[i], Nxt(r, i)), Centre(r), MidP(Prev(r, i), r[i])>> : i \in DOMAIN r}
Crossed(r) == {<<r[i], Nxt(r, i), Centre(r)>> : i \in DOMAIN r}
RECURSIVE SplitN(_, _)
SplitN(R, n) == IF n = 0 THEN R ELSE SplitN(UNION {Split(r) : r \in R}, n - 1)
Pts(r) == {r[i] : i \in DOMAIN r}
Abs(x) == IF x < 0 THEN -x ELSE x
MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b

\* ------------------------------------------------------------------ a complex: a sequence of rings of vertex names
Edge(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
EdgesOf(r) == {Edge(r[i], Nxt(r, i)) : i \in DOMAIN r}
AllEdges(cx) == UNION {EdgesOf(cx[i]) : i \in DOMAIN cx}
AllVerts(cx) == UNION {Pts(cx[i]) : i \in DOMAIN cx}
Around(cx, ed) == {i \in DOMAIN cx : ed \in EdgesOf(cx[i])}
OuterEdges(cx) == {ed \in AllEdges(cx) : Cardinality(Around(cx, ed)) = 1}
\* +1: the ring runs from the smaller name to the larger one
Dir(r, ed) == LET i == CHOOSE j \in DOMAIN r : Edge(r[j], Nxt(r, j)) = ed IN IF r[i] = ed[1] THEN 1 ELSE -1
Conforming(cx) == \A ed \in AllEdges(cx) : LET A == Around(cx, ed) IN
                     Cardinality(A) \in {1, 2} /\ (Cardinality(A) = 2 => \E i, j \in A : Dir(cx[i], ed) + Dir(cx[j], ed) = 0)

\* ------------------------------------------------------------------ the cells of degree p
\* <<kind, a, b, m>>: a vertex, the m-th cell of an edge counted from its smaller name, an inner cell
OnEdge(p, k, ed) == IF k = 0 THEN {<<"e", ed[1], ed[2], m>> : m \in 1..(p - 1)}
                    ELSE IF k = 1 THEN {<<"e", ed[1], ed[2], m>> : m \in 1..p} ELSE {}
NInner(p, k) == IF k = 0 THEN (p - 1) * (p - 1) ELSE IF k = 1 THEN 2 * p * (p - 1) ELSE p * p
Inner(p, k, i) == {<<"i", i, 0, m>> : m \in 1..NInner(p, k)}
Corners(k, V) == IF k = 0 THEN {<<"v", v, v, 0>> : v \in V} ELSE {}
CellsOf(cx, p, k, i) == Corners(k, Pts(cx[i])) \cup UNION {OnEdge(p, k, ed) : ed \in EdgesOf(cx[i])} \cup Inner(p, k, i)
CellsOn(cx, p, k, E) == Corners(k, UNION {{ed[1], ed[2]} : ed \in E}) \cup UNION {OnEdge(p, k, ed) : ed \in E}
NumCells(cx, p, k) == Cardinality(UNION {CellsOf(cx, p, k, i) : i \in DOMAIN cx})
Chi(cx) == Cardinality(AllVerts(cx)) - Cardinality(AllEdges(cx)) + Len(cx)

\* ------------------------------------------------------------------ sections of the boundary
\* pt: positions (times S) of the vertices; in the plane at most one element lies at an outer edge
Owner(cx, ed) == CHOOSE i \in DOMAIN cx : ed \in EdgesOf(cx[i])
\* from and to, going round the element
From(cx, pt, ed) == IF Dir(cx[Owner(cx, ed)], ed) = 1 THEN <<pt[ed[1]], pt[ed[2]]>> ELSE <<pt[ed[2]], pt[ed[1]]>>
Facing(f, n) == LET dx == f[2][1] - f[1][1]  dy == f[2][2] - f[1][2]      \* the outward normal is (dy, -dx)
                IN dy * n[2] + dx * n[1] = 0 /\ dy * n[1] - dx * n[2] > 0
\* side of the (scaled) point q relative to the line through the points a and b (not scaled)
SideOf(a, b, q) == (b[1] - a[1]) * (q[2] - S * a[2]) - (b[2] - a[2]) * (q[1] - S * a[1])
Within(a, b, q) == \A c \in 1..2 : S * MinOf(a[c], b[c]) <= q[c] /\ q[c] <= S * MaxOf(a[c], b[c])
OnLine(l, q) == SideOf(l[1], l[2], q) = 0
OnSegment(l, q) == OnLine(l, q) /\ Within(l[1], l[2], q)
InPoly(g, q) == \A i \in DOMAIN g : SideOf(g[i], Nxt(g, i), q) >= 0
Takes(kind, x, f) == IF kind = "ounv" THEN Facing(f, x)
                     ELSE \A j \in 1..2 : IF kind = "line" THEN OnLine(x, f[j])
                                          ELSE IF kind = "segment" THEN OnSegment(x, f[j]) ELSE InPoly(x, f[j])
SectionEdges(cx, pt, s) ==
   {ed \in OuterEdges(cx) : s.kind = "all" \/ (s.neg # (\E i \in DOMAIN s.arg : Takes(s.kind, s.arg[i], From(cx, pt, ed))))}

\* ------------------------------------------------------------------ what becomes of a given mesh
\* a given mesh: names and xy of its vertices, elems [name, type, vs]
At(m, v) == <<S * m.xy[v][1], S * m.xy[v][2]>>
Ring(m, e) == TLCEval([i \in DOMAIN e.vs |-> At(m, e.vs[i])])
Given(m) == [i \in DOMAIN m.elems |-> Ring(m, m.elems[i])]
\* refinement by a threshold: 10 minus the distance (in the maximum norm) from c/2, looked at in some points
Measure(c, q) == 10 * S - MaxOf(Abs(q[1] - (S \div 2) * c[1]), Abs(q[2] - (S \div 2) * c[2]))
Looked(r, rcm) == IF rcm = "center" THEN {Centre(r)} ELSE Pts(r) \cup {Centre(r)} \cup {MidP(r[i], Nxt(r, i)) : i \in DOMAIN r}
Reaches(r, t) == \E q \in Looked(r, t.rcm) : Measure(t.c, q) >= S * t.th[1]
Refined(m, ts, t) == TLCEval(
   LET R == {Ring(m, m.elems[i]) : i \in DOMAIN m.elems} IN
   SplitN(IF t.th = <<>> THEN R ELSE UNION {IF Reaches(r, t) THEN Crossed(r) ELSE {r} : r \in R}, ts))
ExactlyKnown(ts, t) == Len(t.th) < 2

\* ------------------------------------------------------------------ generation
Pick(X) == IF Rec THEN (IF X = {} THEN {} ELSE {RandomElement(X)}) ELSE X
Vid(nx, i, j) == j * (nx + 1) + i + 1
GridCorner(nx, i, j) == <<Vid(nx, i, j), Vid(nx, i + 1, j), Vid(nx, i + 1, j + 1), Vid(nx, i, j + 1)>>
Rot(r, k) == [i \in DOMAIN r |-> r[((i + k - 1) % Len(r)) + 1]]
Tris(r, kind) == IF kind = "t0" THEN <<<<r[1], r[2], r[3]>>, <<r[1], r[3], r[4]>>>>
                 ELSE <<<<r[1], r[2], r[4]>>, <<r[2], r[3], r[4]>>>>
Upright(xy, r) == xy[r[1]][2] = xy[r[2]][2] /\ xy[r[2]][1] = xy[r[3]][1] /\ xy[r[3]][2] = xy[r[4]][2] /\ xy[r[4]][1] = xy[r[1]][1]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* names that are all different: multiples modulo a prime
Named(mul, off, i) == (mul * i + off) % 97
\* the cells of the grid before vertices move: squares, or shapes that are alike in angles or in a diagonal
Square3 == <<<<3, 0>>, <<0, 3>>>>
Frames == {Square3, <<<<3, 0>>, <<0, 1>>>>, <<<<2, -1>>, <<1, 2>>>>, <<<<1, -1>>, <<2, 2>>>>, <<<<3, 0>>, <<1, 1>>>>, <<<<2, 0>>, <<1, 1>>>>}
Moved(b, nx, ny, mv) == [v \in 1..((nx + 1) * (ny + 1)) |->
   LET i == (v - 1) % (nx + 1)  j == (v - 1) \div (nx + 1) IN
   <<i * b[1][1] + j * b[2][1] + mv[v][1], i * b[1][2] + j * b[2][2] + mv[v][2]>>]
CellRings(nx, ny) == [c \in 1..(nx * ny) |-> GridCorner(nx, (c - 1) % nx, (c - 1) \div nx)]
Polys(r, kind, xy) == IF kind = "no" THEN <<>>
                      ELSE IF kind = "rect" /\ Upright(xy, r) THEN <<[type |-> "rect", vs |-> r]>>
                      ELSE IF kind \in {"rect", "quad"} THEN <<[type |-> "quad", vs |-> r]>>
                      ELSE [i \in 1..2 |-> [type |-> "tri", vs |-> Tris(r, kind)[i]]]
Build(nx, ny, kinds, b, mv, rots, vm, em) ==
   LET rings == CellRings(nx, ny)
       xy0 == Moved(b, nx, ny, mv)
       fine == \A c \in DOMAIN rings : Convex([i \in 1..4 |-> xy0[rings[c][i]]])
       xy == IF fine THEN xy0 ELSE Moved(b, nx, ny, [v \in 1..((nx + 1) * (ny + 1)) |-> <<0, 0>>])
       ps == Cat([c \in DOMAIN rings |-> Polys(rings[c], kinds[c], xy)])
   IN [names |-> [v \in DOMAIN xy |-> Named(vm[1], vm[2], v)], xy |-> xy,
       elems |-> [i \in DOMAIN ps |-> [name |-> Named(em[1], em[2], i), type |-> ps[i].type,
                                       vs |-> IF ps[i].type = "rect" THEN ps[i].vs ELSE Rot(ps[i].vs, rots[i])]]]
RandFun(D, R) == TLCEval([x \in D |-> RandomElement(R)])
Steps == {<<0, 0>>, <<0, 0>>, <<1, 0>>, <<-1, 1>>, <<0, 1>>, <<1, -1>>, <<0, -1>>}
RandMesh(mix) == \E nx \in {RandomElement(Sizes)} : \E ny \in {RandomElement(Sizes)} :
   \E kinds \in {RandFun(1..(nx * ny), IF mix = "quad" THEN {"quad", "quad", "no", "rect"} \ (IF RandomElement(1..2) = 1 THEN {"no"} ELSE {})
                                       ELSE (IF mix = "rects" THEN {"rect", "quad", "no"} ELSE Kinds) \ (IF RandomElement(1..3) > 1 THEN {"no"} ELSE {}))} :
   \E mv \in {IF RandomElement(1..3) = 1 THEN [v \in 1..16 |-> <<0, 0>>] ELSE RandFun(1..16, Steps)} :
   \E rots \in {RandFun(1..18, 0..3)} : \E vm \in {<<RandomElement({1, 5, 13, 31, 60, 96}), RandomElement(0..96)>>} :
   \E em \in {<<RandomElement({1, 7, 24, 45, 88}), RandomElement(0..96)>>} :
   \E b \in {IF RandomElement(1..2) = 1 THEN Square3 ELSE RandomElement(Frames)} :
      LET m == Build(nx, ny, kinds, b, mv, rots, vm, em)
          q == IF mix = "quad" THEN [m EXCEPT !.elems = [i \in DOMAIN m.elems |-> [m.elems[i] EXCEPT !.type = "quad"]]] ELSE m
      IN Len(q.elems) >= MinElems /\ mesh' = q
NoTrf == [c |-> <<0, 0>>, th |-> <<>>, rcm |-> "center"]
Trfs == {[c |-> <<x, y>>, th |-> th, rcm |-> r] : x \in 0..13, y \in 0..13, r \in {"center", "middle", "default"},
            th \in {<<5>>, <<8>>, <<9>>, <<10>>, <<9, 10>>, <<5, 7>>, <<6, 8, 9>>, <<3, 5>>, <<2, 4, 6>>, <<4, 8>>, <<0, 1, 2, 3>>}}
\* the coordinates of the mesh are multiples of 2^-sc
Tiny(m) == IF RandomElement(1..4) = 1 THEN RandomElement({4, 14, 17}) ELSE 0
ConfigEv(route, ts, ren, strs, saved, t) ==
   [op |-> "config", route |-> route, ts |-> ts, sc |-> Tiny(mesh), ren |-> ren, strs |-> strs, saved |-> saved, trf |-> t, mesh |-> mesh']
Dirs == {<<0, 1>>, <<1, 0>>, <<0, -1>>, <<-1, 0>>, <<1, 3>>, <<-1, 3>>, <<3, -1>>, <<-3, -1>>, <<1, 1>>, <<1, -2>>, <<-1, -1>>, <<3, 1>>}
Pt == (-1..10) \X (-1..10)
OnMesh == {mesh.xy[v] : v \in DOMAIN mesh.xy}
TwoPts == {<<a, b>> : a \in {RandomElement(OnMesh)}, b \in {RandomElement(OnMesh)}} \cup {<<a, b>> : a \in {RandomElement(Pt)}, b \in {RandomElement(Pt)}}
Lines == {l \in TwoPts : l[1] # l[2]}
Grid == {<<<<0, 0>>, <<9, 0>>>>, <<<<0, 0>>, <<0, 6>>>>, <<<<3, 0>>, <<3, 6>>>>, <<<<1, 3>>, <<5, 3>>>>, <<<<6, 0>>, <<6, 9>>>>}
Boxes == {<<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>>> : x \in {RandomElement(-1..6)}, y \in {RandomElement(-1..6)}, w \in {3, RandomElement(1..9)}, h \in {3, RandomElement(1..9)}}
         \cup {<<<<-1, -1>>, <<RandomElement(3..10), -1>>, <<-1, RandomElement(2..10)>>>>}
SecKinds == {"all", "ounv", "ounv", "line", "segment", "polygon"}
SomeOf(X) == LET x == RandomElement(X) y == RandomElement(X) IN IF RandomElement(1..2) = 1 \/ x = y THEN <<x>> ELSE <<x, y>>
Arg(kind) == IF kind = "all" THEN <<>> ELSE IF kind = "ounv" THEN SomeOf(Dirs)
             ELSE IF kind = "polygon" THEN SomeOf(Boxes) ELSE SomeOf(IF RandomElement(1..2) = 1 \/ Lines = {} THEN Grid ELSE Lines)
Ors == {"inner", "outer"}
Room == Len(hist) < MaxOps
Log(e) == hist' = IF Rec THEN Append(hist, e) ELSE hist
LastOf(op) == hist[CHOOSE i \in DOMAIN hist : hist[i].op = op /\ \A j \in (i + 1)..Len(hist) : hist[j].op # op]
SectionsSince == Cardinality({i \in DOMAIN hist : hist[i].op = "section" /\ \A j \in i..Len(hist) : hist[j].op # "config"})
Init == mesh = None /\ asked = {} /\ hist = <<>>
\* the outcome of asking is determined by the mesh: nothing else changes
GridMesh(nx, ny) == [names |-> [v \in 1..((nx + 1) * (ny + 1)) |-> v],
                     xy |-> [v \in 1..((nx + 1) * (ny + 1)) |-> <<(v - 1) % (nx + 1), (v - 1) \div (nx + 1)>>],
                     elems |-> [c \in 1..(nx * ny) |-> [name |-> c, type |-> "rect", vs |-> GridCorner(nx, (c - 1) % nx, (c - 1) \div nx)]]]
\* a structured mesh by the other backend, taken over
ConfigureGrid == \E nx \in {RandomElement(IF MinElems > 8 THEN 5..6 ELSE 1..6)} : \E ny \in {RandomElement(IF MinElems > 8 THEN 6..7 ELSE 1..7)} : \E ts \in {RandomElement(0..1)} :
   \E t \in Pick({x \in Trfs : x.rcm = "center" /\ x.c[1] % 2 = 0 /\ x.c[2] % 2 = 0} \cup {NoTrf}) : \E keep \in {RandomElement(BOOLEAN)} :
      /\ nx * ny >= MinElems /\ mesh' = TLCEval(GridMesh(nx, ny)) /\ asked' = {}
      /\ LET u == IF keep THEN NoTrf ELSE t IN
         Log([op |-> "config", route |-> "crazy", sc |-> Tiny(mesh), ts |-> IF nx * ny > 6 \/ u.th # <<>> THEN 0 ELSE ts, ren |-> RandomElement(BOOLEAN), strs |-> FALSE, saved |-> FALSE, trf |-> u, mesh |-> mesh'])
Configure == /\ RandomElement(1..4) = 1 /\ Room /\ (mesh = None \/ Ops = {} \/ RandomElement(1..6) = 1) /\ ConfigureGrid
ConfigureFree == /\ Room /\ (mesh = None \/ Ops = {} \/ RandomElement(1..6) = 1)
             /\ \E mix \in (IF Ops = {} /\ Rec /\ RandomElement(1..3) = 1 THEN {"quad"} ELSE Pick(IF Ops = {"mass"} THEN {"quad", "rects"} ELSE {"mixed", "quad"})) :
                /\ RandMesh(mix)
                /\ \E route \in Pick({"phm"} \cup (IF mix = "quad" THEN {"dict"} ELSE {})
                                    \cup (IF \E i \in DOMAIN mesh'.elems : mesh'.elems[i].type = "rect" THEN {} ELSE {"vtu"})) :
                   \E ts \in Pick(0..MaxTs) : \E t \in Pick(IF route = "dict" /\ RandomElement(1..4) > 1 THEN (IF RandomElement(1..2) = 1 THEN Trfs ELSE {x \in Trfs : x.th = <<10>>}) ELSE {NoTrf}) :
                   \E ren \in Pick(BOOLEAN) : \E strs \in Pick(BOOLEAN) : \E sv \in Pick(IF RandomElement(1..4) = 1 THEN {TRUE} ELSE {FALSE}) :
                      LET big == ts = 2 /\ (Len(mesh'.elems) > 6 \/ (Ops # {} /\ Len(mesh'.elems) > 2))
                          n == IF Len(t.th) > 1 THEN MinOf(ts, 0) ELSE IF big \/ (t.th # <<>>) THEN MinOf(ts, 1) ELSE ts IN
                      Log(ConfigEv(route, n, ren, strs, sv, t))
             /\ asked' = {}
AskSpace == /\ "space" \in Ops /\ Room /\ mesh # None
            /\ \E k \in Pick(0..2) : \E o \in Pick(Ors) : \E p \in Pick(Degrees) :
                  Log([op |-> "space", k |-> k, o |-> o, deg |-> p]) /\ asked' = {<<k, o, p>>}
            /\ UNCHANGED mesh
AskMass == /\ "mass" \in Ops /\ Room /\ mesh # None
           /\ \A i \in DOMAIN hist : (hist[i].op = "config" /\ \A j \in i..Len(hist) : j = i \/ hist[j].op # "config") => hist[i].trf.th = <<>>
           /\ \A i \in DOMAIN mesh.elems : mesh.elems[i].type # "tri"
           /\ \E k \in Pick(0..2) : \E o \in Pick(Ors) : \E p \in Pick(Degrees) :
                 Log([op |-> "mass", k |-> k, o |-> o, deg |-> p]) /\ asked' = {<<k, o, p>>}
           /\ UNCHANGED mesh
AskSection == /\ "section" \in Ops /\ Room /\ mesh # None /\ SectionsSince < 4
              \* geometric objects of plane regions have to be of reasonable size
              /\ \E kind \in Pick(IF LastOf("config").sc > 4 THEN {"all", "ounv"} ELSE SecKinds) : \E neg \in Pick(BOOLEAN) :
                   \E sec \in {[op |-> "section", kind |-> kind, arg |-> Arg(kind), neg |-> IF kind = "all" THEN FALSE ELSE neg]} :
                   \E k \in Pick(0..1) : \E o \in Pick(Ors) : \E p \in Pick(Degrees) :
                      hist' = hist \o <<sec, [op |-> "bdofs", k |-> k, o |-> o, deg |-> p]>>
              /\ UNCHANGED <<mesh, asked>>
Next == \/ Configure \/ ConfigureFree \/ AskSpace \/ AskMass \/ AskSection
        \/ Rec /\ Len(hist) >= MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ design: every mesh of a small grid
DesignMesh(nx, ny, kinds, mv, k, w) == Build(nx, ny, kinds, IF w = <<1, -1>> THEN <<<<3, 0>>, <<1, 2>>>> ELSE Square3, mv, [i \in 1..18 |-> (i * k) % 4], <<5, 3 * k>>, <<1, k>>)
DNext == \/ /\ mesh = None /\ asked = {}
            /\ \E nx \in Sizes : \E ny \in Sizes : \E k \in 0..2 : \E w \in {<<0, 0>>, <<1, -1>>, <<-1, 1>>} : \E last \in Kinds :
                 asked' = {<<nx, ny, k, w, last>>}
            /\ UNCHANGED <<mesh, hist>>
         \/ /\ mesh = None
            /\ \E a \in asked : \E kinds \in {f \in [1..(a[1] * a[2]) -> Kinds] : f[1] = a[5]} :
                 LET m == DesignMesh(a[1], a[2], kinds, [v \in 1..16 |-> IF v % 2 = 1 THEN <<0, 0>> ELSE a[4]], a[3], a[4]) IN
                 Len(m.elems) > 0 /\ mesh' = TLCEval(m)
            /\ UNCHANGED <<asked, hist>>
DSpec == Init /\ [][DNext]_vars
Cx == TLCEval([i \in DOMAIN mesh.elems |-> [j \in DOMAIN mesh.elems[i].vs |-> mesh.names[mesh.elems[i].vs[j]]]])
PosOf(n) == At(mesh, CHOOSE v \in DOMAIN mesh.names : mesh.names[v] = n)
Known == mesh # None
NamesDiffer == Known => \A v, w \in DOMAIN mesh.names : v # w => mesh.names[v] # mesh.names[w]
IsComplex == Known => Conforming(Cx) /\ \A i \in DOMAIN mesh.elems : Area2(Ring(mesh, mesh.elems[i])) > 0
\* subdivision for forms of any degree does not change the topology
EulerHolds == Known => \A p \in Degrees : NumCells(Cx, p, 0) - NumCells(Cx, p, 1) + NumCells(Cx, p, 2) = Chi(Cx)
\* the boundary is closed: an even number of outer edges at every vertex
BoundaryClosed == Known => LET O == TLCEval(OuterEdges(Cx)) IN \A v \in AllVerts(Cx) : Cardinality({ed \in O : v \in {ed[1], ed[2]}}) % 2 = 0
\* splitting: same area, still convex, conforming by position
HalfEdges(R) == UNION {{<<r[i], Nxt(r, i)>> : i \in DOMAIN r} : r \in R}
Singles(R) == LET H == TLCEval(HalfEdges(R)) IN {h \in H : <<h[2], h[1]>> \notin H}
PosComplex(R) == (\A r \in R : Area2(r) > 0) /\ Cardinality(HalfEdges(R)) = SumF(R, Len)   \* every directed edge occurs once
SplitIsFine == Known => LET R0 == {Ring(mesh, mesh.elems[i]) : i \in DOMAIN mesh.elems} IN
   \A n \in 1..MaxTs : LET R == TLCEval(SplitN(R0, n)) IN
      /\ PosComplex(R)
      /\ SumF(R, Area2) = SumF(R0, Area2)
      /\ Cardinality(Singles(R)) = (IF n = 1 THEN 2 ELSE 4) * Cardinality(Singles(R0))
CrossIsFine == Known /\ (\A i \in DOMAIN mesh.elems : Len(mesh.elems[i].vs) = 4) =>
   LET m == mesh IN \A t \in {[c |-> <<x, y>>, th |-> <<h>>, rcm |-> r] : x \in {0, 9}, y \in {6}, h \in {6, 8}, r \in {"center", "middle"}} :
      LET R == Refined(m, 0, t)  R0 == Refined(m, 0, NoTrf) IN PosComplex(R) /\ SumF(R, Area2) = SumF(R0, Area2) /\ Singles(R) = Singles(R0)
\* every outer edge faces exactly one way, and a mesh is enclosed: the sections by all normals are a partition
Normals == Known => LET PT == TLCEval([n \in AllVerts(Cx) |-> PosOf(n)])  C == Cx IN
   \A ed \in OuterEdges(C) : Cardinality({n \in Dirs \cup {<<2, 1>>, <<-2, 1>>, <<2, -1>>, <<-2, -1>>, <<1, 2>>, <<-1, 2>>, <<-1, -2>>, <<-1, 1>>, <<1, -3>>, <<-1, -3>>, <<-3, 1>>} :
        Facing(From(C, PT, ed), n)}) <= 1
=============================================================================
