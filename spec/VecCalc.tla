------------------------------- MODULE VecCalc -------------------------------
(* Fields of time and space and their calculus. A field is a tuple of polynomials (one for a scalar, n for a
   vector, n * n, row by row, for a tensor); a polynomial is a function from its monomials <<et, e1 .. en>> to
   integers. Operations make new fields from those made before; values of every field can be asked for at any
   time and point, and never change.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Dim, Max, Rec, Fits

VARIABLES objs, hist
vvars == <<objs, hist>>

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* polynomials
Zero == [m \in {} |-> 0]
At0(p, m) == IF m \in DOMAIN p THEN p[m] ELSE 0
Clean(p) == TLCEval([m \in {x \in DOMAIN p : p[x] # 0} |-> p[m]])
PAdd(p, q) == Clean([m \in DOMAIN p \cup DOMAIN q |-> At0(p, m) + At0(q, m)])
PScale(c, p) == Clean([m \in DOMAIN p |-> c * p[m]])
PSub(p, q) == PAdd(p, PScale(-1, q))
Plus(a, b) == [i \in 1..Dim + 1 |-> a[i] + b[i]]
PMul(p, q) == LET PP == (DOMAIN p) \X (DOMAIN q) IN
              Clean([m \in {Plus(x[1], x[2]) : x \in PP} |->
                     LET S == {x \in PP : Plus(x[1], x[2]) = m} IN SumF([x \in S |-> p[x[1]] * q[x[2]]], S)])
\* the derivative with respect to t (v = 1) or the (v - 1)-th coordinate
Up(m, v) == [m EXCEPT ![v] = @ + 1]
PD(p, v) == Clean([m \in {[x EXCEPT ![v] = @ - 1] : x \in {y \in DOMAIN p : y[v] > 0}} |-> p[Up(m, v)] * (m[v] + 1)])
X == [i \in 1..Dim + 1 |-> i]
Value(p, t, x) == SumF(TLCEval([m \in DOMAIN p |-> p[m] * Pow(t, m[1]) * Pow(x[1], m[2]) * (IF Dim > 1 THEN Pow(x[2], m[3]) ELSE 1)
                                * (IF Dim > 2 THEN Pow(x[3], m[4]) ELSE 1)]), DOMAIN p)
RECURSIVE PSum(_, _)
PSum(f, n) == IF n = 0 THEN Zero ELSE PAdd(PSum(f, n - 1), f[n])

\* calculus, on tuples of polynomials
Dt(a) == [i \in DOMAIN a |-> PD(a[i], 1)]
Add(a, b) == [i \in DOMAIN a |-> PAdd(a[i], b[i])]
Sub(a, b) == [i \in DOMAIN a |-> PSub(a[i], b[i])]
Times(c, a) == [i \in DOMAIN a |-> PScale(c, a[i])]
By(s, a) == [i \in DOMAIN a |-> PMul(s[1], a[i])]
DotP(a, b) == <<PSum([i \in 1..Dim |-> PMul(a[i], b[i])], Dim)>>
Grad(s) == [i \in 1..Dim |-> PD(s[1], i + 1)]
Div(a) == <<PSum([i \in 1..Dim |-> PD(a[i], i + 1)], Dim)>>
Rot(a) == <<PSub(PD(a[2], 2), PD(a[1], 3))>>
Curl2(s) == <<PD(s[1], 3), PScale(-1, PD(s[1], 2))>>
Curl3(a) == <<PSub(PD(a[3], 3), PD(a[2], 4)), PSub(PD(a[1], 4), PD(a[3], 2)), PSub(PD(a[2], 2), PD(a[1], 3))>>
Cross2(a, b) == <<PSub(PMul(a[1], b[2]), PMul(a[2], b[1]))>>
Cross3(a, b) == <<PSub(PMul(a[2], b[3]), PMul(a[3], b[2])), PSub(PMul(a[3], b[1]), PMul(a[1], b[3])), PSub(PMul(a[1], b[2]), PMul(a[2], b[1]))>>
\* a number w, the normal component of a vector, times a plane vector
Turn(s, a) == <<PScale(-1, PMul(s[1], a[2])), PMul(s[1], a[1])>>
Conv(a, u) == [i \in DOMAIN a |-> PSum([j \in 1..Dim |-> PMul(u[j], PD(a[i], j + 1))], Dim)]
Lap(a) == [i \in DOMAIN a |-> PSum([j \in 1..Dim |-> PD(PD(a[i], j + 1), j + 1)], Dim)]
\* by rows
Row(a, i) == [j \in 1..Dim |-> a[(i - 1) * Dim + j]]
Rows(f) == [m \in 1..Dim * Dim |-> f[(m - 1) \div Dim + 1][((m - 1) % Dim) + 1]]
Outer(a, b) == Rows([i \in 1..Dim |-> [j \in 1..Dim |-> PMul(a[i], b[j])]])

\* the exterior derivative and the codifferential of k-forms, as the calculus of their fields
DOp(k, o) == CASE Dim = 1 -> "derivative" [] k = 0 -> IF Dim = 2 /\ o = "outer" THEN "curl" ELSE "gradient"
               [] k = Dim - 1 -> IF Dim = 2 /\ o = "inner" THEN "rot" ELSE "divergence" [] OTHER -> "curl"
CdOp(k, o) == CASE k = Dim -> IF Dim = 2 /\ o = "inner" THEN <<1, "curl">> ELSE <<-1, "gradient">>
                [] k = 1 -> IF Dim = 2 /\ o = "outer" THEN <<1, "rot">> ELSE <<-1, "divergence">>
                [] OTHER -> <<1, "curl">>
Size(r) == CASE r = 0 -> 1 [] r = 1 -> Dim [] OTHER -> Dim * Dim

\* what an operation of one field gives: its rank and components
R(r, c) == [rank |-> r, comps |-> c]
Un(f, a, r, c) ==
   CASE f = "dt" -> R(r, Dt(a))
     [] f = "neg" -> R(r, Times(-1, a))
     [] f = "times" -> R(r, Times(c, a))
     [] f = "derivative" -> R(0, Grad(a))
     [] f = "gradient" /\ r = 0 -> R(1, Grad(a))
     [] f = "gradient" /\ r = 1 -> R(2, Rows([i \in 1..Dim |-> Grad(<<a[i]>>)]))
     [] f = "curl" /\ Dim = 3 -> R(1, Curl3(a))
     [] f = "curl" /\ r = 0 -> R(1, Curl2(a))
     [] f = "curl" /\ r = 1 -> R(2, Rows([i \in 1..Dim |-> Curl2(<<a[i]>>)]))
     [] f = "divergence" /\ r = 1 -> R(0, Div(a))
     [] f = "divergence" /\ r = 2 -> R(1, [i \in 1..Dim |-> Div(Row(a, i))[1]])
     [] f = "rot" /\ r = 1 -> R(0, Rot(a))
     [] f = "rot" /\ r = 2 -> R(1, [i \in 1..Dim |-> Rot(Row(a, i))[1]])
     [] f = "Laplacian" -> R(r, Lap(a))
\* of two fields
Bin(f, a, ra, b, rb) ==
   CASE f = "add" -> R(ra, Add(a, b))
     [] f = "sub" -> R(ra, Sub(a, b))
     [] f = "mul" -> R(rb, By(a, b))
     [] f = "mulr" -> R(ra, By(b, a))
     [] f = "dot" -> R(0, DotP(a, b))
     [] f = "cross" /\ Dim = 3 -> R(1, Cross3(a, b))
     [] f = "cross" /\ ra = 1 /\ rb = 1 -> R(0, Cross2(a, b))
     [] f = "cross" /\ ra = 0 -> R(1, Turn(a, b))
     [] f = "cross" /\ ra = 1 /\ rb = 0 -> R(1, Times(-1, Turn(b, a)))
     [] f = "outer" -> R(2, Outer(a, b))
     [] f = "conv" -> R(ra, Conv(a, b))
\* what is offered, and how many derivatives it takes
Uns == CASE Dim = 1 -> {<<"dt", 0>>, <<"neg", 0>>, <<"derivative", 0>>}
         [] Dim = 2 -> {<<f, 0>> : f \in {"dt", "neg", "times", "gradient", "curl", "Laplacian"}} \cup
                       {<<f, 1>> : f \in {"dt", "neg", "times", "gradient", "curl", "divergence", "rot", "Laplacian"}} \cup
                       {<<f, 2>> : f \in {"dt", "divergence", "rot"}}
         [] OTHER -> {<<f, 0>> : f \in {"dt", "neg", "gradient"}} \cup {<<f, 1>> : f \in {"dt", "neg", "times", "divergence", "curl"}} \cup
                     {<<"dt", 2>>}
Bins == CASE Dim = 1 -> {}
          [] Dim = 2 -> {<<"add", 0, 0>>, <<"sub", 0, 0>>, <<"mul", 0, 0>>, <<"mul", 0, 1>>, <<"mulr", 1, 0>>, <<"cross", 0, 1>>, <<"conv", 0, 1>>,
                         <<"add", 1, 1>>, <<"sub", 1, 1>>, <<"dot", 1, 1>>, <<"cross", 1, 1>>, <<"cross", 1, 0>>, <<"outer", 1, 1>>, <<"conv", 1, 1>>}
          [] OTHER -> {<<"add", 0, 0>>, <<"sub", 0, 0>>, <<"mul", 0, 0>>, <<"conv", 0, 1>>, <<"add", 1, 1>>, <<"sub", 1, 1>>, <<"dot", 1, 1>>,
                       <<"cross", 1, 1>>, <<"conv", 1, 1>>}
Der(f) == CASE f \in {"neg", "times", "add", "sub", "mul", "mulr", "dot", "cross", "outer"} -> 0 [] f = "Laplacian" -> 2 [] OTHER -> 1

\* fields of forms: the kinds with fields of rank r, by what is asked
FormOps(r) == {x \in {"d", "cd", "dt"} \X (0..Dim) \X {"inner", "outer"} \X {"Lambda", "bundle"} \X {"msepy", "msehtt"} :
                 /\ Dim > 1
                 /\ x[4] = "bundle" => Dim = 2 /\ x[5] = "msepy"
                 /\ Dim = 3 => x[3] = "inner"
                 /\ r = (IF x[2] \in {0, Dim} THEN 0 ELSE 1) + (IF x[4] = "bundle" THEN 1 ELSE 0)
                 /\ x[1] = "d" => x[2] < Dim
                 /\ x[1] = "cd" => x[2] > 0 /\ (x[4] = "bundle" => x[2] = 1)
                 /\ <<x[5], Dim>> \in Fits }
FormRes(a, r, x) == CASE x[1] = "dt" -> R(r, Dt(a)) [] x[1] = "d" -> Un(DOp(x[2], x[3]), a, r, 0)
                      [] OTHER -> LET s == CdOp(x[2], x[3]) g == Un(s[2], a, r, 0) IN R(g.rank, Times(s[1], g.comps))

\* what a value is; int is the integral over time from t0, six times
PInt(p) == [m \in {Up(x, 1) : x \in DOMAIN p} |-> (6 \div m[1]) * p[[m EXCEPT ![1] = @ - 1]]]
Abs(v) == IF v < 0 THEN -v ELSE v
Vals(o, e) == [q \in DOMAIN e.pts |-> LET V == TLCEval([i \in DOMAIN o.comps |-> Value(o.comps[i], e.t, e.pts[q])]) IN
     CASE e.how = "val" -> V
       [] e.how = "abs" -> [i \in DOMAIN V |-> Abs(V[i])]
       [] e.how = "norm" -> <<SumF([i \in DOMAIN V |-> V[i] * V[i]], DOMAIN V)>>
       [] OTHER -> [i \in DOMAIN V |-> Value(PInt(o.comps[i]), e.t, e.pts[q]) - Value(PInt(o.comps[i]), e.t0, e.pts[q])]]

\* a field as it is given
PolyOf(s) == Clean([m \in {s[i][2] : i \in DOMAIN s} |-> SumF(TLCEval([i \in DOMAIN s |-> IF s[i][2] = m THEN s[i][1] ELSE 0]), DOMAIN s)])
Made(O, e) == CASE e.op = "new" -> R(e.rank, [i \in DOMAIN e.comps |-> PolyOf(e.comps[i])])
                [] e.op = "un" -> Un(e.f, O[e.a].comps, O[e.a].rank, e.c)
                [] e.op = "bin" -> Bin(e.f, O[e.a].comps, O[e.a].rank, O[e.b].comps, O[e.b].rank)
                [] e.op = "form" -> FormRes(O[e.a].comps, O[e.a].rank, e.x)
-----------------------------------------------------------------------------
Mono(z, still) == TLCEval([i \in 1..Dim + 1 |-> IF i = 1 /\ still THEN 0 ELSE IF RandomElement(1..5) > 3 THEN RandomElement(1..2) ELSE 0])
Poly(z, still) == LET n == RandomElement(0..3) IN TLCEval([i \in 1..n |-> <<RandomElement({-3, -2, -1, 1, 2, 3}), Mono(i, still)>>])
NewE(z) == LET r == RandomElement(IF Dim = 1 THEN {0} ELSE {0, 0, 1, 1, 1, 2}) still == RandomElement(1..4) = 1 IN
   [op |-> "new", rank |-> r, comps |-> TLCEval([i \in 1..Size(r) |-> Poly(i, still)]), steady |-> still,
    \* the derivatives given, by component and variable; zero ones may be given as the number 0
    given |-> IF r = 2 THEN {} ELSE {x \in (1..Size(r)) \X (1..Dim + 1) : RandomElement(1..4) = 1}, zero |-> RandomElement(BOOLEAN),
    second |-> RandomElement(BOOLEAN)]
Ranked(r) == {i \in DOMAIN objs : objs[i].rank = r}
Weight(p) == SumF([m \in DOMAIN p |-> Abs(p[m])], DOMAIN p)
Deg(p) == LET S == {SumF(m, 1..Dim + 1) : m \in DOMAIN p} IN IF S = {} THEN 0 ELSE CHOOSE d \in S : \A x \in S : x <= d
Small(o) == \A i \in DOMAIN o.comps : Weight(o.comps[i]) <= 300 /\ Deg(o.comps[i]) <= 5
Put(e, d) == LET o == Made(objs, e) IN
   /\ Small(o) /\ d <= 2
   /\ objs' = Append(objs, [rank |-> o.rank, comps |-> o.comps, n |-> d])
   /\ hist' = Append(hist, e)
Room == Len(hist) < Max
MNew == Room /\ Len(objs) < 6 /\ \E e \in {NewE(0)} : Put(e, 0)
MUn == Room /\ objs # <<>> /\ \E a \in {RandomElement(DOMAIN objs)} : \E c \in {RandomElement({-2, 2, 3})} :
          LET S == {x \in Uns : x[2] = objs[a].rank} IN S # {} /\ \E x \in {RandomElement(S)} :
             Put([op |-> "un", f |-> x[1], a |-> a, c |-> c], objs[a].n + Der(x[1]))
MBin == Room /\ Bins # {} /\ \E x \in {RandomElement(Bins)} : Ranked(x[2]) # {} /\ Ranked(x[3]) # {} /\
          \E a \in {RandomElement(Ranked(x[2]))} : \E b \in {RandomElement(Ranked(x[3]))} :
             Put([op |-> "bin", f |-> x[1], a |-> a, b |-> b], (IF objs[a].n > objs[b].n /\ TRUE THEN objs[a].n ELSE objs[b].n) + Der(x[1]))
MForm == Room /\ objs # <<>> /\ \E a \in {RandomElement(DOMAIN objs)} : LET S == FormOps(objs[a].rank) IN S # {} /\
          \E x \in {RandomElement(S)} : Put([op |-> "form", x |-> x, a |-> a], objs[a].n + 1)
Hows(o, t) == IF Dim = 2 /\ o.rank = 0 THEN {"val", "abs"} ELSE IF Dim = 2 /\ o.rank = 1 THEN {"val", "norm", "int"} ELSE {"val"}
MAt == Room /\ objs # <<>> /\ \E a \in {IF RandomElement(1..2) = 1 THEN Len(objs) ELSE RandomElement(DOMAIN objs)} :
          \E how \in {RandomElement({"val"} \cup Hows(objs[a], 0))} :
          /\ how = "int" => objs[a].n = 0 /\ \A i \in DOMAIN objs[a].comps : \A m \in DOMAIN objs[a].comps[i] : m[1] <= 1
          /\ LET hi == IF Dim = 3 /\ objs[a].n = 2 THEN 1 ELSE 2 IN
             hist' = Append(hist, [op |-> "at", a |-> a, how |-> how, t |-> RandomElement(-1..hi), t0 |-> RandomElement(-1..2), n |-> objs[a].n,
                                   pts |-> TLCEval([q \in 1..4 |-> TLCEval([i \in 1..Dim |-> RandomElement(-1..hi)])])])
          /\ UNCHANGED objs
VInit == objs = <<>> /\ hist = <<>>
MEmit == ~Room /\ (~Rec \/ PrintT(<<"TR", ToJson(hist)>>)) /\ objs' = <<>> /\ hist' = <<>>
VNext == MNew \/ MUn \/ MUn \/ MBin \/ MForm \/ MAt \/ MEmit
VSpec == VInit /\ [][VNext]_vvars

\* the calculus is the one of the two complexes ..
Same(a, b) == \A i \in DOMAIN a : Clean(a[i]) = Clean(b[i])
None(a) == \A i \in DOMAIN a : Clean(a[i]) = Zero
Last == objs[Len(objs)]
D(k, o, a, r) == Un(DOp(k, o), a, r, 0)
Cd(k, o, a, r) == LET s == CdOp(k, o) g == Un(s[2], a, r, 0) IN R(g.rank, Times(s[1], g.comps))
RankOf(k) == IF k \in {0, Dim} THEN 0 ELSE 1
Complex == objs # <<>> /\ Dim > 1 /\ Last.rank < 2 =>
   \A o \in {"inner", "outer"} : \A k \in 0..Dim : RankOf(k) = Last.rank =>
      /\ k + 2 <= Dim => LET d == D(k, o, Last.comps, Last.rank) IN d.rank = RankOf(k + 1) /\ None(D(k + 1, o, d.comps, d.rank).comps)
      /\ k >= 2 => LET d == Cd(k, o, Last.comps, Last.rank) IN d.rank = RankOf(k - 1) /\ None(Cd(k - 1, o, d.comps, d.rank).comps)
\* .. with the codifferential adjoint to the exterior derivative: d f . g - f . cd g is a divergence
Pair(a, b) == <<PSum([i \in DOMAIN a |-> PMul(a[i], b[i])], Len(a))>>
FluxOf(k, o, f, g) ==
   IF k = 0 THEN IF Dim = 2 /\ o = "outer" THEN <<PScale(-1, PMul(f[1], g[2])), PMul(f[1], g[1])>> ELSE By(f, g)
   ELSE IF k = Dim - 1 THEN IF Dim = 2 /\ o = "inner" THEN <<PMul(g[1], f[2]), PScale(-1, PMul(g[1], f[1]))>> ELSE By(g, f)
   ELSE Cross3(f, g)
Adjoint == Len(objs) > 1 /\ Dim > 1 => LET f == objs[Len(objs) - 1] g == Last IN
   \A o \in {"inner", "outer"} : \A k \in 0..(Dim - 1) : RankOf(k) = f.rank /\ RankOf(k + 1) = g.rank =>
      Same(Sub(Pair(D(k, o, f.comps, f.rank).comps, g.comps), Pair(f.comps, Cd(k + 1, o, g.comps, g.rank).comps)), Div(FluxOf(k, o, f.comps, g.comps)))
\* .. and the rules of products
Rules == Len(objs) > 1 /\ Dim > 1 => LET a == objs[Len(objs) - 1] b == Last IN
   /\ a.rank = b.rank => Same(Dt(Pair(a.comps, b.comps)), Add(Pair(Dt(a.comps), b.comps), Pair(a.comps, Dt(b.comps))))
   /\ a.rank = 0 /\ b.rank = 1 => Same(Div(By(a.comps, b.comps)), Add(By(a.comps, Div(b.comps)), Conv(a.comps, b.comps)))
   /\ a.rank = 1 /\ b.rank = 1 /\ Dim = 2 =>
        /\ Same(Un("divergence", Outer(a.comps, b.comps), 2, 0).comps, Add(Conv(a.comps, b.comps), By(Div(b.comps), a.comps)))
        /\ Same(Lap(a.comps), Sub(Grad(Div(a.comps)), Curl2(Rot(a.comps))))
        /\ Same(Un("rot", Un("gradient", a.comps, 1, 0).comps, 2, 0).comps, <<Zero, Zero>>)
        /\ Same(Un("divergence", Un("curl", a.comps, 1, 0).comps, 2, 0).comps, <<Zero, Zero>>)
   /\ a.rank = 1 /\ b.rank = 1 /\ Dim = 3 =>
        /\ Same(DotP(Cross3(a.comps, b.comps), a.comps), <<Zero>>)
        /\ Same(Curl3(Cross3(a.comps, b.comps)), Sub(Add(By(Div(b.comps), a.comps), Conv(a.comps, b.comps)), Add(By(Div(a.comps), b.comps), Conv(b.comps, a.comps))))
=============================================================================
