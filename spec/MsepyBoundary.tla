---------------------------- MODULE MsepyBoundary ----------------------------
(* Sections of the boundary of a msepy domain, the degrees of freedom on them and what natural
   boundary conditions contribute.

   The boundary of a domain consists of the sides of elements nobody lies beyond.  One section covers
   the chosen sides of the regions, the other one the rest; together they are the boundary and they
   share no side.  The degrees of freedom of a k-form on a section are the k-cells lying on its sides.
   The boundary integral of a form over a section with a given (linear) field is, degree of freedom by
   degree of freedom, the sum over the sides of the section: every side counts, also when a degree of
   freedom lies on several.                                                                       *)
EXTENDS MsepyMesh
CONSTANT Fields        \* coefficients of the linear fields
\* dom carries in addition: cover (per region, per axis and end: 0/1), p the degree of the forms

RegionOf(d, b) == [a \in Axes(d.n) |-> b[a][1] \div W]
RegionNo(d, r) == CHOOSE i \in DOMAIN RegionSeq(d) : RegionSeq(d)[i] = r
\* the sides of elements on the boundary
OuterSides(d) == {x \in Elements(d) \X Axes(d.n) \X {1, 2} : Neighbour(d, x[1], x[2], x[3]) = {}}
\* a side of a region nobody is beyond
Beyond(d, r, a, s) == LET q == [r EXCEPT ![a] = IF s = 2 THEN (IF Per(d, a) THEN (@ + 1) % (Extent(d, a) \div W) ELSE @ + 1)
                                                ELSE (IF Per(d, a) THEN (@ + (Extent(d, a) \div W) - 1) % (Extent(d, a) \div W) ELSE @ - 1)]
                      IN q \in RegionSet(d)
OuterRegionSides(d) == {x \in (DOMAIN RegionSeq(d)) \X Axes(d.n) \X {1, 2} : ~Beyond(d, RegionSeq(d)[x[1]], x[2], x[3])}
InSection(d, x, sec) ==
   \/ sec = 0
   \/ (sec = 1) = (d.cover[RegionNo(d, RegionOf(d, x[1]))][2 * (x[2] - 1) + x[3]] = 1)
SectionSides(d, sec) == {x \in OuterSides(d) : InSection(d, x, sec)}
\* local degrees of freedom <<component, index>> on the side s of axis a
OnSide(p, cs, a, s) == UNION {{<<c, t>> : t \in {u \in Idx(p, cs[c]) : a \notin cs[c] /\ u[a] = (IF s = 1 THEN 0 ELSE p[a])}} : c \in DOMAIN cs}

\* ------------------------------------------------------------ boundary integrals, 2-d, degree 1
\* the field g on a side is linear; all values are multiplied by 6 W^2 (0-forms) or 2 W (1-forms)
At2(f, x, y) == f[1] * W + f[2] * x + f[3] * y                          \* W times the value
Corner2(b, a, s, e) == [i \in 1..2 |-> IF i = a THEN b[i][s] ELSE b[i][e]]
Sign(s) == IF s = 2 THEN 1 ELSE -1
\* the normal / tangential part of a vector field on the side (a, s)
Part(o, fs, a, s, x, y) ==
   IF o = "inner" THEN Sign(s) * At2(fs[a], x, y)
   ELSE IF a = 2 THEN Sign(s) * At2(fs[1], x, y) ELSE -Sign(s) * At2(fs[2], x, y)
\* what the side contributes to the 0-form degree of freedom at its end e, times 6 W^2
Vertex(o, fs, b, a, s, e) ==
   LET l == b[3 - a][2] - b[3 - a][1]
       me == Corner2(b, a, s, e)
       other == Corner2(b, a, s, 3 - e)
   IN l * (2 * Part(o, fs, a, s, me[1], me[2]) + Part(o, fs, a, s, other[1], other[2]))
\* what it contributes to the 1-form degree of freedom on it, times 2 W
Edge(o, fs, b, a, s) ==
   LET m == Corner2(b, a, s, 1)  q == Corner2(b, a, s, 2)
       sg == IF o = "outer" THEN Sign(s) ELSE IF a = 1 THEN Sign(s) ELSE -Sign(s)
   IN sg * (At2(fs[1], m[1], m[2]) + At2(fs[1], q[1], q[2]))
RECURSIVE Tot(_, _)
Tot(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Tot(S \ {x}, f)
Ends(b, a, t) == IF a = 1 THEN t[2] + 1 ELSE t[1] + 1
\* the entry of the degree of freedom <<c, t>> of element b
Natural(d, k, o, fs, sec, b, c, t) ==
   LET cs == Comps(2, k, o)
       S == {x \in SectionSides(d, sec) : x[1] = b /\ <<c, t>> \in OnSide(<<1, 1>>, cs, x[2], x[3])}
       f == [x \in S |-> IF k = 0 THEN Vertex(o, fs, b, x[2], x[3], Ends(b, x[2], t)) ELSE Edge(o, fs, b, x[2], x[3])]
   IN Tot(S, f)

\* --------------------------------------------------------------------- transitions
Cover(d, S) == [i \in DOMAIN RegionSeq(d) |-> [j \in 1..(2 * d.n) |->
                  IF <<i, ((j - 1) \div 2) + 1, ((j - 1) % 2) + 1>> \in S THEN 1 ELSE 0]]
Plus(d, S, p) == [kind |-> d.kind, n |-> d.n, ns |-> d.ns, per |-> d.per, bend |-> d.bend, lay |-> d.lay, cover |-> Cover(d, S), p |-> p]
Orders(n, k) == k < n
Asks(d) == {[op |-> "faces"]}
   \cup {[op |-> "dofs", k |-> k, o |-> o, sec |-> s] : k \in 0..(d.n - 1), o \in {"inner", "outer"}, s \in 0..2}
   \cup (IF d.n = 2 /\ \A a \in 1..2 : d.p[a] = 1
         THEN {[op |-> "natural", k |-> k, o |-> o, sec |-> s, fs |-> <<f, g>>] : k \in 0..1, o \in {"inner", "outer"}, s \in 0..2, f \in Fields, g \in Fields} ELSE {})
Pick1(d) == IF RandomElement(1..2) = 1 THEN Asks(d) ELSE
            LET N == {x \in Asks(d) : x.op = "natural"} IN IF N = {} THEN Asks(d) ELSE N
Subsets(S) == IF Rec THEN {RandomSubset(RandomElement(0..Cardinality(S)), S)} ELSE SUBSET S
BNext == \/ /\ Room
            /\ (dom = None \/ (Rec /\ asked # {} /\ RandomElement(1..5) = 1))
            /\ \E f \in Pick(DOMAIN Doms) : \E d \in Pick({x \in SmallOnes(Doms[f]) : ~SelfTouch(x)}) : \E S \in Subsets(OuterRegionSides(d)) :
                 \E p \in Pick(Degs[d.n]) : Config(Plus(d, S, p)) /\ Log([op |-> "config", dom |-> Plus(d, S, p), layouts |-> Layouts(d)])
         \/ /\ Room /\ dom # None
            /\ \E r \in Pick(IF Rec THEN Pick1(dom) ELSE Asks(dom)) : Ask(r) /\ Log(r)
         \/ Rec /\ Len(hist) = MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
BSpec == Init /\ [][BNext]_vars

\* --------------------------------------------------------------------- properties
\* a side of an element is on the boundary exactly when it is part of an outer side of its region
SidesOfRegions == (dom # None /\ asked = {}) => OuterSides(dom) = {x \in Elements(dom) \X Axes(dom.n) \X {1, 2} :
      /\ <<RegionNo(dom, RegionOf(dom, x[1])), x[2], x[3]>> \in OuterRegionSides(dom)
      /\ x[1][x[2]][x[3]] = (RegionOf(dom, x[1])[x[2]] + x[3] - 1) * W}
Partition == (dom # None /\ asked = {}) => /\ SectionSides(dom, 1) \cup SectionSides(dom, 2) = OuterSides(dom)
                           /\ SectionSides(dom, 1) \cap SectionSides(dom, 2) = {}
\* the integrals of a constant field over the whole boundary: the 0-form entries add up to nothing
Closed == \A r \in {x \in asked : x.op = "natural" /\ x.k = 0 /\ x.sec = 0} :
            ((\A j \in DOMAIN dom.cover : \A m \in DOMAIN dom.cover[j] : dom.cover[j][m] = 0)      \* no matter which section
             /\ \A i \in 1..2 : r.fs[i][2] = 0 /\ r.fs[i][3] = 0) =>
              LET S == Elements(dom) \X Idx(<<1, 1>>, {})
                  f == [x \in S |-> Natural(dom, 0, r.o, r.fs, 0, x[1], 1, x[2])] IN
              Tot(S, f) = 0
=============================================================================
