------------------------------ MODULE MsepyMesh ------------------------------
(* The mesh and the degrees of freedom of the msepy implementation.

   A domain is a set of axis-aligned regions (grid positions) of unit size; every region is cut
   into elements by one list of relative lengths per axis; axes may be periodic.  In a space of
   k-forms of degree p an element carries one degree of freedom per k-cell of its p-lattice.
   Two local degrees of freedom are one global degree of freedom exactly when they sit on the same
   k-cell of the domain, and the exterior derivative maps a cell to the signed sum of the cells
   around it.  Everything here is exact integer geometry: a region is W wide, a cell is identified
   with its extent (the axes it extends along) and its midpoint.

   Transitions: Config (a new domain replaces the current one) and the requests a user makes of it
   (element map, corners / edges / sides, spaces of any kind, orientation and degree) in any order
   and any number of times: the answer depends on the domain and the request, never on what was
   asked before.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Doms,      \* families (a sequence of sets) of domains to choose from: [kind, n, ns, per, bend, lay]
          MaxElems,  \* number of elements of the domains chosen
          Degs,      \* degrees to choose from (per dimension): function n -> set of tuples
          Ops,       \* what is asked for: subset of {"topology", "space"}
          MaxOps, Rec
W == 144
VARIABLES dom, asked, hist
vars == <<dom, asked, hist>>

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Cut(lay, i) == (W \div SumTo(lay, Len(lay))) * SumTo(lay, i)       \* position of the i-th cut of a region
Axes(n) == 1..n
Tuples(n, S) == [1..n -> S]
RECURSIVE Prod(_)
Prod(ss) == IF ss = <<>> THEN {<<>>} ELSE {Append(t, x) : t \in Prod(SubSeq(ss, 1, Len(ss) - 1)), x \in ss[Len(ss)]}
RECURSIVE Times(_, _)
Times(s, i) == IF i = 0 THEN 1 ELSE s[i] * Times(s, i - 1)
Flat(t, shape) == LET RECURSIVE F(_)
                      F(a) == IF a > Len(t) THEN 0 ELSE t[a] + shape[a] * F(a + 1)
                  IN F(1) + 1                                        \* position (from 1), first index fastest

\* --------------------------------------------------------------------- domains
\* grid positions of the regions, in the order of the region numbers
RegionSeq(d) ==
   IF d.kind = "step" THEN IF d.n = 2 THEN <<<<1, 0>>, <<1, 1>>, <<0, 1>>>> ELSE <<<<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>>>>
   ELSE IF d.kind = "cyl"                                    \* 3 x 3 blocks around the cylinder
        THEN LET z == IF d.n = 2 THEN <<>> ELSE <<0>>
             IN <<<<0, 0>> \o z, <<1, 0>> \o z, <<2, 0>> \o z, <<0, 1>> \o z, <<2, 1>> \o z, <<0, 2>> \o z, <<1, 2>> \o z, <<2, 2>> \o z>>
   ELSE LET all == Prod([a \in Axes(d.n) |-> 0..(d.ns[a] - 1)])
        IN [i \in 1..Cardinality(all) |-> CHOOSE t \in all : Flat(t, d.ns) = i]
RegionSet(d) == {RegionSeq(d)[i] : i \in DOMAIN RegionSeq(d)}
Layouts(d) == [i \in DOMAIN RegionSeq(d) |-> [a \in Axes(d.n) |-> d.lay[a][RegionSeq(d)[i][a] + 1]]]
Extent(d, a) == IF d.kind = "step" THEN (IF a = 3 THEN W ELSE 2 * W) ELSE IF d.kind = "cyl" THEN (IF a = 3 THEN W ELSE 3 * W) ELSE d.ns[a] * W
Per(d, a) == d.per /\ (d.kind \notin {"step", "cyl"} \/ a = 3)
Ivals(d, r, a) == LET l == d.lay[a][r[a] + 1]
                  IN {<<r[a] * W + Cut(l, i - 1), r[a] * W + Cut(l, i)>> : i \in 1..Len(l)}
Elements(d) == UNION {Prod([a \in Axes(d.n) |-> Ivals(d, r, a)]) : r \in RegionSet(d)}    \* boxes: n-tuples of intervals
NumElements(d) == Cardinality(Elements(d))
Wrap(d, pt) == [a \in 1..d.n |-> IF Per(d, a) /\ pt[a] = Extent(d, a) THEN 0 ELSE pt[a]]
\* one element across a periodic axis touches itself
SelfTouch(d) == \E a \in Axes(d.n) : Per(d, a) /\ Extent(d, a) = W /\ Len(d.lay[a][1]) = 1
Mid(b, a) == (b[a][1] + b[a][2]) \div 2
SideMid(b, a, s) == [i \in DOMAIN b |-> IF i = a THEN b[i][s] ELSE Mid(b, i)]
Neighbour(d, b, a, s) == {c \in Elements(d) : Wrap(d, SideMid(c, a, 3 - s)) = Wrap(d, SideMid(b, a, s))}

\* ------------------------------------------------------------- k-forms on a lattice
\* the components of a k-form: the axes their cells extend along
Comps(n, k, o) ==
   IF k = 0 THEN <<{}>> ELSE IF k = n THEN <<Axes(n)>>
   ELSE IF n = 2 THEN (IF o = "inner" THEN <<{1}, {2}>> ELSE <<{2}, {1}>>)
   ELSE IF k = 1 THEN <<{1}, {2}, {3}>> ELSE <<{2, 3}, {3, 1}, {1, 2}>>
Shape(p, ext) == [a \in DOMAIN p |-> IF a \in ext THEN p[a] ELSE p[a] + 1]
Idx(p, ext) == Prod([a \in DOMAIN p |-> 0..(Shape(p, ext)[a] - 1)])
Size(p, ext) == Times(Shape(p, ext), Len(p))
RECURSIVE Before(_, _, _)
Before(p, cs, c) == IF c = 1 THEN 0 ELSE Size(p, cs[c - 1]) + Before(p, cs, c - 1)
LocalNum(p, cs, c, t) == Before(p, cs, c) + Flat(t, Shape(p, cs[c]))                  \* from 1
NumLocal(p, cs) == Before(p, cs, Len(cs)) + Size(p, cs[Len(cs)])
Half(t, ext) == [a \in DOMAIN t |-> IF a \in ext THEN 2 * t[a] + 1 ELSE 2 * t[a]]     \* half-lattice index of the midpoint
\* sign of the upper side when the axis a is added to a cell extending along S
Next3(a) == (a % 3) + 1
Sgn(n, k, o, S, a) ==
   CASE k = 0 -> IF n = 2 /\ o = "outer" /\ a = 1 THEN -1 ELSE 1
     [] n = 2 /\ k = 1 -> IF o = "outer" THEN 1 ELSE IF a = 1 THEN 1 ELSE -1
     [] n = 3 /\ k = 1 -> IF S = {Next3(a)} THEN 1 ELSE -1
     [] n = 3 /\ k = 2 -> 1
\* the cells of S that a cell T = S + {a} touches along a: <<column component, index, sign>>
RowExt(n, k, o, S, a) == S \cup {a}                   \* for scalar gradients in 2-d outer spaces see DExt
\* which (k+1)-component a k-component contributes to along an axis
DExt(n, k, o, S, a) == IF n = 2 /\ o = "outer" /\ k = 0 THEN {a} ELSE S \cup {a}
\* the incidence matrix of local degree p: triples <<row, column, value>> (numbered from 0)
Incidence(n, k, o, p) ==
   LET R == Comps(n, k + 1, o)
       C == Comps(n, k, o)
   IN UNION {UNION {
        LET T == R[r]  S == C[c] IN
        IF \E a \in Axes(n) : a \notin S /\ DExt(n, k, o, S, a) = T
        THEN LET a == CHOOSE x \in Axes(n) : x \notin S /\ DExt(n, k, o, S, x) = T
                 s == Sgn(n, k, o, S, a)
             IN UNION {{<<LocalNum(p, R, r, t) - 1, LocalNum(p, C, c, t) - 1, -s>>,
                        <<LocalNum(p, R, r, t) - 1, LocalNum(p, C, c, [t EXCEPT ![a] = @ + 1]) - 1, s>>} : t \in Idx(p, T)}
        ELSE {} : c \in DOMAIN C} : r \in DOMAIN R}

\* ----------------------------------------------------------------- global cells
\* half-lattice point h of the element box b
Point(b, p, h) == [a \in DOMAIN b |-> b[a][1] + ((b[a][2] - b[a][1]) * h[a]) \div (2 * p[a])]
Cell(d, b, p, ext, t) == <<ext, Wrap(d, Point(b, p, Half(t, ext)))>>
CellsOf(d, b, p, ext) == {Cell(d, b, p, ext, t) : t \in Idx(p, ext)}
Exts(n, k) == {e \in SUBSET Axes(n) : Cardinality(e) = k}
Cells(d, p, k) == UNION {UNION {CellsOf(d, b, p, e) : b \in Elements(d)} : e \in Exts(d.n, k)}

\* --------------------------------------------------------------------- transitions
Requests(n) == (IF "topology" \in Ops THEN {[op |-> "topology"]} ELSE {})
   \cup IF "space" \notin Ops THEN {} ELSE {[op |-> "space", kind |-> kd, k |-> k, o |-> o, p |-> p] : kd \in {"Lambda", "bundle"}, k \in 0..n, o \in {"inner", "outer"}, p \in Degs[n]}

SmallOnes(X) == {d \in (IF Rec THEN RandomSubset(IF Cardinality(X) < 25 THEN Cardinality(X) ELSE 25, X) ELSE X) : NumElements(d) <= MaxElems}
Pick(X) == IF Rec THEN (IF X = {} THEN {} ELSE {RandomElement(X)}) ELSE X
Log(e) == hist' = IF Rec THEN Append(hist, e) ELSE hist
Room == Rec => Len(hist) < MaxOps
None == [kind |-> "none"]
Init == dom = None /\ asked = {} /\ hist = <<>>
Config(d) == dom' = d /\ asked' = {}
Ask(r) == dom # None /\ asked' = asked \cup {r} /\ UNCHANGED dom
Next == \/ /\ Room
           /\ (dom = None \/ (Rec /\ asked # {} /\ RandomElement(1..(IF "space" \in Ops THEN 5 ELSE 2)) = 1))
           /\ \E f \in Pick(DOMAIN Doms) : \E d \in Pick(SmallOnes(Doms[f])) : Config(d) /\ Log([op |-> "config", dom |-> d, layouts |-> Layouts(d)])
        \/ /\ Room /\ dom # None
           /\ \E c \in Pick(0..5) : \E r \in Pick(IF Rec /\ c = 0 /\ "topology" \in Ops THEN {[op |-> "topology"]} ELSE Requests(dom.n)) : Ask(r) /\ Log(r)
        \/ /\ Rec /\ Room /\ dom # None              \* the same space with another degree
           /\ \E r \in Pick({x \in asked : x.op = "space"}) : \E q \in Pick(Degs[dom.n]) :
                LET s == [r EXCEPT !.p = q] IN Ask(s) /\ Log(s)
        \/ /\ Rec /\ Room /\ dom # None /\ "space" \in Ops       \* matrices asked for are chained (twice in a row: of other spaces)
           /\ LET S == {x \in asked : x.op = "space"} IN S # {} /\
              \E m \in Pick(1..3) : \E parts \in {[i \in 1..m |-> RandomElement(S)]} : \E how \in Pick({0, 1}), free \in Pick(BOOLEAN) :
                 UNCHANGED <<dom, asked>> /\ Log([op |-> "chain", parts |-> parts, how |-> how, free |-> free])
        \/ Rec /\ Len(hist) = MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

OneAsk == Cardinality(asked) <= 1

\* --------------------------------------------------------------------- properties
\* applying the derivative twice gives nothing
Compose(A, B) == {<<r, c>> \in {<<x[1], y[2]>> : x \in A, y \in B} :
                    LET m == {<<x, y>> \in A \X B : x[1] = r /\ x[2] = y[1] /\ y[2] = c}
                        RECURSIVE Tot(_)
                        Tot(M) == IF M = {} THEN 0 ELSE LET q == CHOOSE z \in M : TRUE IN q[1][3] * q[2][3] + Tot(M \ {q})
                    IN Tot(m) # 0}
SpaceAsked(k) == {r \in asked : r.op = "space" /\ r.k = k /\ r.kind = "Lambda"}
ExactSequence == \A k \in {0, 1} : \A r \in SpaceAsked(k) :
                   (k + 2 <= dom.n) => Compose(Incidence(dom.n, k + 1, r.o, r.p), Incidence(dom.n, k, r.o, r.p)) = {}
\* every value of the incidence matrix is 1 or -1, one per position
PlusMinusOne == \A r \in UNION {SpaceAsked(k) : k \in 0..2} : r.k < dom.n =>
                  LET E == Incidence(dom.n, r.k, r.o, r.p) IN
                  /\ \A x \in E : x[3] \in {1, -1}
                  /\ \A x \in E, y \in E : (x[1] = y[1] /\ x[2] = y[2]) => x = y
\* the alternating sum of the numbers of cells is that of the domain
Chi(d) == IF d.kind = "cyl" \/ \E a \in Axes(d.n) : Per(d, a) THEN 0 ELSE 1
RECURSIVE Alt(_, _, _)
Alt(d, p, k) == IF k < 0 THEN 0 ELSE (IF k % 2 = 0 THEN 1 ELSE -1) * Cardinality(Cells(d, p, k)) + Alt(d, p, k - 1)
Euler == \A r \in SpaceAsked(0) : Alt(dom, r.p, dom.n) = Chi(dom)
\* elements tile the domain: nobody has two neighbours across a side, being a neighbour is mutual
Mutual == dom # None => \A b \in Elements(dom), a \in Axes(dom.n) :
             /\ Cardinality(Neighbour(dom, b, a, 1)) <= 1
             /\ Cardinality(Neighbour(dom, b, a, 2)) <= 1
             /\ \A c \in Neighbour(dom, b, a, 2) : b \in Neighbour(dom, c, a, 1)
\* an inner face belongs to two elements, a face on the boundary to one
Faces == dom # None => \A f \in Cells(dom, [a \in Axes(dom.n) |-> 1], dom.n - 1) :
             LET own == {<<b, t>> \in UNION {{b} \X Idx([a \in Axes(dom.n) |-> 1], f[1]) : b \in Elements(dom)} :
                             Cell(dom, b, [a \in Axes(dom.n) |-> 1], f[1], t) = f}
             IN Cardinality(own) \in {1, 2}
=============================================================================
