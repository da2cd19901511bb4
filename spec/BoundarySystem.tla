---------------------------- MODULE BoundarySystem ----------------------------
(* A port-Hamiltonian system with a natural boundary condition on one section of the boundary and an
   essential one on the rest, evaluated at any time steps in any order.

   The system of step k consists of the equations of the interior, of the natural data of the middle
   of the step (every side of the natural section contributes to the degree of freedom on it) and, in
   place of the equations of the degrees of freedom on the essential section, of the essential data of
   the end of the step.  Whatever was evaluated, solved or updated before makes no difference.      *)
EXTENDS MsepyBoundary
CONSTANT Loads          \* <<c0, ct, cx, cy>>: a load c0 + ct t + cx x + cy y
Flat0(l) == <<l[1], l[2], 0, 0>>
\* dom carries in addition: nat (a load), ess (one load per axis), via ("cf" or "vc") and the time
\* sequence: step k is at the time t0 + k / q
\* 2 W q times the value of the load at the point, at step h / 2
Load2(d, l, h, x, y) == (2 * d.q * (l[1] + l[2] * d.t0) + l[2] * h) * W + 2 * d.q * (l[3] * x + l[4] * y)
Corner(b, a, s, e) == [i \in DOMAIN b |-> IF i = a THEN b[i][s] ELSE b[i][e]]
\* the (n-1)-cell t of component c: all of it lies at a constant coordinate of the axis a
CellBox(b, p, t, cs) == [i \in DOMAIN b |-> IF i \in cs
      THEN <<b[i][1] + ((b[i][2] - b[i][1]) * t[i]) \div p[i], b[i][1] + ((b[i][2] - b[i][1]) * (t[i] + 1)) \div p[i]>>
      ELSE LET z == b[i][1] + ((b[i][2] - b[i][1]) * t[i]) \div p[i] IN <<z, z>>]
Area(q, cs) == LET f == [i \in cs |-> q[i][2] - q[i][1]] IN
               LET RECURSIVE M(_)
                   M(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] * M(S \ {x}) IN M(cs)
\* the flux of the essential field through the cell at step k, times 4 W^2 q
Flux(d, b, c, t, k) ==
   LET cs == Comps(d.n, d.n - 1, "outer")[c]
       a == CHOOSE i \in Axes(d.n) : i \notin cs
       q == CellBox(b, d.p, t, cs)
       l == d.ess[a]
   IN Area(q, cs) * (Load2(d, l, 2 * k, q[1][1], q[2][1]) + Load2(d, l, 2 * k, q[1][2], q[2][2]))
\* what the natural condition contributes to the cell on the side (a, s), times 4 W q
Push(d, b, a, s, k) ==
   LET m == Corner(b, a, s, 1)  q == Corner(b, a, s, 2)
   IN Sign(s) * (Load2(d, d.nat, 2 * k - 1, m[1], m[2]) + Load2(d, d.nat, 2 * k - 1, q[1], q[2]))
\* the side of the boundary the (n-1)-cell lies on
SidesOf(d, b, c, t) == {x \in SectionSides(d, 0) : x[1] = b /\ <<c, t>> \in OnSide(d.p, Comps(d.n, d.n - 1, "outer"), x[2], x[3])}

\* --------------------------------------------------------------------- transitions
Flatter(d) == \E a \in Axes(d.n) : d.p[a] > 1
Loaded(d, S, p, nat, ess, via, z) ==
   LET q == Plus(d, S, p)
       g(l) == IF Flatter(q) THEN Flat0(l) ELSE l
   IN [kind |-> q.kind, n |-> q.n, ns |-> q.ns, per |-> q.per, bend |-> 0, lay |-> q.lay, cover |-> q.cover, p |-> q.p,
       nat |-> g(nat), ess |-> [a \in Axes(d.n) |-> g(ess[a])], via |-> via, t0 |-> z[1], q |-> z[2]]
Clocks == IF Rec THEN {<<0, 1>>, <<3, 2>>, <<100, 8>>} ELSE {<<1, 2>>}
Steps == IF Rec THEN 1..8 ELSE {1, 2}
Datas == IF Rec THEN 0..5 ELSE {0}
Coin == IF Rec THEN BOOLEAN ELSE {TRUE}
SNext == \/ /\ Room
            /\ (dom = None \/ (Rec /\ Cardinality(asked) > 2 /\ RandomElement(1..4) = 1))
            /\ \E f \in Pick(DOMAIN Doms) : \E d \in Pick({x \in SmallOnes(Doms[f]) : ~SelfTouch(x)}) : \E S \in (IF Rec THEN Subsets(OuterRegionSides(d)) ELSE {{}}) :
                 \E p \in Pick(Degs[d.n]) : \E nat \in Pick(Loads), ess \in Pick([1..2 -> Loads]), via \in Pick(IF Rec THEN {"cf", "vc"} ELSE {"cf"}), z \in Pick(Clocks) :
                   Config(Loaded(d, S, p, nat, ess, via, z)) /\ Log([op |-> "config", dom |-> Loaded(d, S, p, nat, ess, via, z), layouts |-> Layouts(d)])
         \/ /\ Room /\ dom # None
            /\ \E k \in Pick(Steps), data \in Pick(Datas), sol \in Pick(Coin), free \in Pick(Coin) :
                 LET r == [op |-> "eval", k |-> k, data |-> data, sol |-> sol, free |-> free] IN Ask(r) /\ Log(r)
         \/ /\ Room /\ dom # None
            /\ \E k \in Pick(Steps), data \in Pick(Datas), sol \in Pick(Coin), free \in Pick(Coin) :
                 LET r == [op |-> "eval", k |-> k, data |-> data, sol |-> sol, free |-> free] IN Ask(r) /\ Log(r)
         \/ Rec /\ Len(hist) = MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
SSpec == Init /\ [][SNext]_vars
\* --------------------------------------------------------------------- properties
\* what flows out of a domain under a constant load is nothing: over the whole boundary the natural
\* contributions to opposite sides cancel
LevelIsBalanced == \A r \in asked : (dom.nat[3] = 0 /\ dom.nat[4] = 0 /\ dom.n = 2) =>
     LET S == OuterSides(dom)
         f == [x \in S |-> Push(dom, x[1], x[2], x[3], r.k) * (x[1][3 - x[2]][2] - x[1][3 - x[2]][1])] IN Tot(S, f) = 0
\* a divergence free field flows out as much as it flows in
DivFree == dom # None /\ dom.n = 2 => \A r \in asked :
     (dom.p = <<1, 1>> /\ dom.ess[1][3] = 0 /\ dom.ess[2][4] = 0) =>
     LET S == OuterSides(dom)
         cs == Comps(2, 1, "outer")
         f == [x \in S |-> LET y == CHOOSE z \in OnSide(<<1, 1>>, cs, x[2], x[3]) : TRUE IN Sign(x[3]) * Flux(dom, x[1], y[1], y[2], r.k)] IN Tot(S, f) = 0
=============================================================================
