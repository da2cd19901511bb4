------------------------------- MODULE NatInt -------------------------------
(* Natural boundary terms of hybrid meshes: < tr * u | tr v > over sections of the boundary of a domain made
   of lattice cells. Every term is the flux of one vector field F(u, v) through the faces of the section, the
   one that integration by parts leaves: (cd u, v) = (u, d v) - < tr * u | tr v >.
   Points are doubled lattice points; values of fields are doubled, F is scaled by 4 and integrals by 24 (in
   two) or 144 (in three dimensions).                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dim, Routes, Cols, MaxSec, Rec

VARIABLES cfg, hist
nvars == <<cfg, hist>>

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Dot(a, b) == SumF(TLCEval([i \in DOMAIN a |-> a[i] * b[i]]), DOMAIN a)
MulM(A, p) == TLCEval([i \in 1..Dim |-> Dot(A[i], p)])
Det(A) == A[1][1] * A[2][2] - A[1][2] * A[2][1]
Vol(c) == IF Dim = 2 THEN Det(c.A) ELSE c.A[1][1] * c.A[2][2] * c.A[3][3]

\* fields; a scalar one is <<a, b1, .., bn>>, the test fields of middle degree are bounded by lattice coordinates
Lin(s, X) == 2 * s[1] + Dot([i \in 1..Dim |-> s[i + 1]], X)
Vec(u, X) == [i \in 1..Dim |-> Lin(u[i], X)]
At(s0, s1, t) == [i \in DOMAIN s0 |-> s0[i] + t * s1[i]]
Phys(c, P) == MulM(c.A, P)
Flux(c, v, P) == MulM(c.A, [i \in 1..Dim |-> 2 * v[i][1] + v[i][2] * P[i]])
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>

ScalarU(c) == c.k = Dim - 1
F(c, u, v, P) == LET X == Phys(c, P) IN
   CASE c.k = 0 /\ (Dim = 3 \/ c.o = "inner") -> LET f == Lin(v, X) U == Vec(u, X) IN [i \in 1..Dim |-> f * U[i]]
     [] c.k = 0 /\ Dim = 2 /\ c.o = "outer" -> LET f == Lin(v, X) U == Vec(u, X) IN <<(-f) * U[2], f * U[1]>>
     [] c.k = Dim - 1 -> LET f == Lin(u[1], X) w == Flux(c, v, P) IN [i \in 1..Dim |-> f * w[i]]
     [] OTHER -> Cross(Vec(v, X), Vec(u, X))
\* its divergence (scaled by 2)
Grad(s) == [i \in 1..Dim |-> s[i + 1]]
Tr(u) == SumF([i \in 1..Dim |-> u[i][i + 1]], 1..Dim)
Curl(u) == <<u[3][3] - u[2][4], u[1][4] - u[3][2], u[2][2] - u[1][3]>>
DivF(c, u, v, P) == LET X == Phys(c, P) IN
   CASE c.k = 0 /\ (Dim = 3 \/ c.o = "inner") -> Dot(Grad(v), Vec(u, X)) + Lin(v, X) * Tr(u)
     [] c.k = 0 /\ Dim = 2 /\ c.o = "outer" -> LET U == Vec(u, X) IN v[3] * U[1] - v[2] * U[2] + Lin(v, X) * (u[1][3] - u[2][2])
     [] c.k = Dim - 1 -> Dot(Grad(u[1]), Flux(c, v, P)) + Lin(u[1], X) * SumF([i \in 1..Dim |-> v[i][2]], 1..Dim)
     [] OTHER -> Dot(Vec(u, X), Curl(v)) - Dot(Vec(v, X), Curl(u))

\* sides of a cell: <<axis, 0 or 1>>; the sum of F through one of them
Sides == (1..Dim) \X {0, 1}
Beyond(p, s) == [p EXCEPT ![s[1]] = p[s[1]] + (IF s[2] = 1 THEN 1 ELSE -1)]
Wt == <<1, 4, 1>>
\* the area vector of a side
Normal(c, s) == LET g == IF s[2] = 1 THEN 1 ELSE -1 IN
   IF Dim = 2 THEN IF s[1] = 1 THEN <<g * c.A[2][2], (-g) * c.A[1][2]>> ELSE <<(-g) * c.A[2][1], g * c.A[1][1]>>
   ELSE [i \in 1..3 |-> IF i = s[1] THEN g * (Vol(c) \div c.A[i][i]) ELSE 0]
Pts == IF Dim = 2 THEN {<<a>> : a \in 0..2} ELSE {<<a, b>> : a \in 0..2, b \in 0..2}
Place(p, s, a) == [i \in 1..Dim |-> 2 * p[i] + (IF i = s[1] THEN 2 * s[2] ELSE IF i < s[1] THEN a[i] ELSE a[i - 1])]
WtOf(a) == IF Dim = 2 THEN Wt[a[1] + 1] ELSE Wt[a[1] + 1] * Wt[a[2] + 1]
Through(c, u, v, p, s) == LET N == Normal(c, s) IN
   SumF(TLCEval([a \in Pts |-> WtOf(a) * Dot(TLCEval(F(c, u, v, Place(p, s, a))), N)]), Pts)

Cells(c) == {c.cells[i] : i \in 1..Len(c.cells)}
Bnd(c, p) == {s \in Sides : Beyond(p, s) \notin Cells(c)}
\* section 1: the sides whose outward normals are listed; section 2: the other ones
In(c, sec) == {s \in Sides : (s \in {c.pick[i] : i \in 1..Len(c.pick)}) = (sec = 1)}
Over(c, sec, u, v, p) == LET S == Bnd(c, p) \cap In(c, sec) IN SumF(TLCEval([s \in S |-> Through(c, u, v, p, s)]), S)
Volume(c, u, v, p) == (IF Dim = 2 THEN 12 ELSE 72) * Vol(c) * DivF(c, u, v, [i \in 1..Dim |-> 2 * p[i] + 1])

\* fields given and test fields tried
FieldAt(e) == [i \in DOMAIN e.u0 |-> At(e.u0[i], e.u1[i], e.t)]
Unit(m, i) == [j \in 1..m |-> IF i = j THEN 1 ELSE 0]
VTest(c) == IF c.k = 0 THEN [i \in 1..Dim + 1 |-> Unit(Dim + 1, i)]
            ELSE IF c.k = Dim - 1 THEN [i \in 1..2 * Dim |-> [j \in 1..Dim |-> [m \in 1..2 |-> IF i = 2 * j - 2 + m THEN 1 ELSE 0]]]
            ELSE [i \in 1..9 |-> [j \in 1..3 |-> [m \in 1..4 |-> IF m # j + 1 /\ i = 3 * j - 3 + (IF m > j + 1 THEN m - 1 ELSE m) THEN 1 ELSE 0]]]
Exp(c, e) == LET u == FieldAt(e) T == VTest(c) IN [i \in 1..Len(c.cells) |-> [j \in 1..Len(T) |-> Over(c, e.sec, u, T[j], c.cells[i])]]

-----------------------------------------------------------------------------
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o SeqOf(S \ {x})
Box(m) == IF Dim = 2 THEN {<<i, j>> : i \in 0..(m[1] - 1), j \in 0..(m[2] - 1)}
          ELSE {<<i, j, l>> : i \in 0..(m[1] - 1), j \in 0..(m[2] - 1), l \in 0..(m[3] - 1)}
Some(S) == {x \in S : RandomElement(1..5) > 1}
Frames == {<<<<1, 0>>, <<0, 1>> >>, <<<<2, 0>>, <<0, 1>> >>, <<<<1, 1>>, <<0, 1>> >>, <<<<1, -1>>, <<1, 1>> >>, <<<<0, -1>>, <<1, 0>> >>,
           <<<<2, 1>>, <<1, 2>> >>, <<<<-1, 0>>, <<1, -1>> >>}
Diag(A) == A[1][2] = 0 /\ A[2][1] = 0 /\ A[1][1] > 0
Coef(m) == [i \in 1..m |-> RandomElement(-2..2)]
Field(c) == [i \in 1..(IF ScalarU(c) THEN 1 ELSE Dim) |-> Coef(Dim + 1)]
Kinds == IF Dim = 2 THEN {0, 1} \X {"inner", "outer"} ELSE {0, 1, 2} \X {"inner"}
Config(z) ==
   LET r == RandomElement(Routes) ko == RandomElement(Kinds)
       m == [i \in 1..Dim |-> RandomElement(1..(IF Dim = 2 THEN 3 ELSE 2))]
       A == IF Dim = 3 THEN [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN RandomElement(1..2) ELSE 0]]
            ELSE IF r = "box" THEN LET a == RandomElement(1..3) b == RandomElement(1..2) IN <<<<a, 0>>, <<0, b>> >> ELSE RandomElement(Frames)
       cells == IF r = "box" THEN Box(m) ELSE Some(Box(m))
       pick == {s \in Sides : RandomElement(1..2) = 1}
   IN [op |-> "config", route |-> r, lay |-> m, A |-> A, cells |-> SeqOf(IF cells = {} THEN Box(m) ELSE cells), k |-> ko[1], o |-> ko[2],
       deg |-> RandomElement(IF Dim = 2 THEN 1..3 ELSE 1..2), pick |-> SeqOf(IF pick = {} THEN {<<1, 1>>} ELSE pick),
       rot |-> RandomElement(0..3), orth |-> Dim = 2 /\ Diag(A) /\ RandomElement(1..2) = 1]
Pair(c) == [op |-> "pair", sec |-> RandomElement(1..2), t |-> RandomElement(0..2), u0 |-> Field(c), u1 |-> Field(c)]

NInit == cfg = [op |-> "none"] /\ hist = <<>>
NConfig == hist = <<>> /\ \E c \in {Config(0)} : cfg' = c /\ hist' = <<c>>
NPair == hist # <<>> /\ Len(hist) <= MaxSec /\ \E e \in {Pair(cfg)} : hist' = Append(hist, e) /\ UNCHANGED cfg
NEmit == hist # <<>> /\ Len(hist) > MaxSec /\ (~Rec \/ PrintT(<<"TR", ToJson(hist)>>)) /\ cfg' = [op |-> "none"] /\ hist' = <<>>
NNext == NConfig \/ NPair \/ NEmit
NSpec == NInit /\ [][NNext]_nvars

\* the two sections together close the integration by parts
Closed == Len(hist) > 1 =>
   LET e == hist[Len(hist)] u == FieldAt(e) T == VTest(cfg) C == Cells(cfg) IN
   \A j \in 1..Len(T) : SumF(TLCEval([p \in C |-> Over(cfg, 1, u, T[j], p) + Over(cfg, 2, u, T[j], p)]), C)
                        = SumF(TLCEval([p \in C |-> Volume(cfg, u, T[j], p)]), C)
=============================================================================
