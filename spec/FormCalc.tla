------------------------------ MODULE FormCalc ------------------------------
(* Forms of degree p on affine meshes stand exactly for the polynomial fields of their spaces. The mesh is a
   lattice cut along each axis (by positive amounts), mapped by a matrix A; form 1 and 2 are of one space, form 3
   of the next one. A cochain is the field that was reduced at its time.                                   *)
EXTENDS VecCalc
CONSTANTS Lib, Routes, Degs

VARIABLES cfg, fld, store, log
fvars == <<cfg, fld, store, log, vvars>>

\* polynomials of lattice coordinates from ones of physical coordinates
LinP(A, i) == Clean([m \in {[v \in 1..Dim + 1 |-> IF v = j + 1 THEN 1 ELSE 0] : j \in 1..Dim} |-> A[i][(CHOOSE v \in 2..Dim + 1 : m[v] = 1) - 1]])
One == [m \in {[v \in 1..Dim + 1 |-> 0]} |-> 1]
RECURSIVE PPow(_, _)
PPow(p, e) == IF e = 0 THEN One ELSE PMul(p, PPow(p, e - 1))
RECURSIVE PAll(_, _, _)
PAll(A, p, S) == IF S = {} THEN Zero ELSE LET m == CHOOSE x \in S : TRUE
   IN PAdd(PScale(p[m], PMul(PPow(LinP(A, 1), m[2]), PMul(PPow(LinP(A, 2), m[3]), IF Dim = 3 THEN PPow(LinP(A, 3), m[4]) ELSE One))), PAll(A, p, S \ {m}))
Pull(A, p) == PAll(A, p, DOMAIN p)
Det(A) == IF Dim = 2 THEN A[1][1] * A[2][2] - A[1][2] * A[2][1] ELSE A[1][1] * A[2][2] * A[3][3]
\* 60^n times the integral over the mesh
Ends(c, i) == LET s == c.cuts[i] IN <<s[1], s[Len(s)]>>
Mom(c, i, e) == (60 \div (e + 1)) * (Pow(Ends(c, i)[2], e + 1) - Pow(Ends(c, i)[1], e + 1))
Integral(c, p) == LET q == TLCEval(Pull(c.A, p)) IN
   Det(c.A) * SumF(TLCEval([m \in DOMAIN q |-> q[m] * Mom(c, 1, m[2]) * Mom(c, 2, m[3]) * (IF Dim = 3 THEN Mom(c, 3, m[4]) ELSE 1)]), DOMAIN q)
In2(c, a, b) == Integral(c, Pair(a, b)[1])
\* fields at a time, and of a form
Still(p, t) == LET S == {[x EXCEPT ![1] = 0] : x \in DOMAIN p} IN
   Clean([m \in S |-> LET T == {x \in DOMAIN p : [x EXCEPT ![1] = 0] = m} IN SumF([x \in T |-> p[x] * Pow(t, x[1])], T)])
Stills(a, t) == TLCEval([i \in DOMAIN a |-> Still(a[i], t)])
KOf(c, f) == IF f = 3 THEN c.k + 1 ELSE c.k
DF(c, f, a) == Un(DOp(KOf(c, f), c.o), a, RankOf(KOf(c, f)), 0).comps
Norm2(c, a) == In2(c, a, a)
\* the mass matrices of orthogonal elements of msehtt are lumped: exact for fields of less than the full degree along each axis
Exact(c, a) == Lib = "msehtt" /\ c.route = "box" => \A i \in DOMAIN a : \A m \in DOMAIN a[i] : \A b \in 1..Dim : m[b + 1] <= c.p[b] - 1
\* views: the form (v = "f"), its derivative, the sum and the difference of form 1 and 2 at a time
Of(c, st, e, t) == CASE e.v = "f" -> st[e.f][t] [] e.v = "d" -> DF(c, e.f, st[e.f][t])
                     [] e.v = "sum" -> Add(st[1][t], st[2][t]) [] OTHER -> Sub(st[1][t], st[2][t])
Has(st, e, t) == IF e.v \in {"f", "d"} THEN t \in DOMAIN st[e.f] ELSE t \in DOMAIN st[1] /\ t \in DOMAIN st[2]
\* the corners of the cells
Cells(c) == {x \in [1..Dim -> 1..3] : \A i \in 1..Dim : x[i] < Len(c.cuts[i])}
Corners == [1..Dim -> {0, 1}]
Phys(c, x, s) == [i \in 1..Dim |-> SumF([j \in 1..Dim |-> c.A[i][j] * c.cuts[j][x[j] + s[j]]], 1..Dim)]
Image(c, a) == {<<[s \in Corners |-> Phys(c, x, s)], 0>> : x \in Cells(c)}
RecOf(c, a) == {{<<Phys(c, x, s), [i \in DOMAIN a |-> Value(a[i], 0, Phys(c, x, s))]>> : s \in Corners} : x \in Cells(c)}
\* cells cut into two triangles each, along one of the diagonals; reconstructed at two vertices and at the halves of two sides
Diag(c, x) == (c.rot + (x[1] - 1) * (Len(c.cuts[2]) - 1) + (x[2] - 1)) % 2
Tris(c) == UNION {LET h(s) == [i \in 1..2 |-> Phys(c, x, s)[i]] p == h(<<0, 0>>) q == h(<<1, 0>>) r == h(<<1, 1>>) u == h(<<0, 1>>)
                  IN IF Diag(c, x) = 0 THEN {{p, q, r}, {p, r, u}} ELSE {{q, r, u}, {q, u, p}} : x \in Cells(c)}
Value8(p, x) == SumF(TLCEval([m \in DOMAIN p |-> p[m] * Pow(x[1], m[2]) * Pow(x[2], m[3]) * Pow(2, 3 - m[2] - m[3])]), DOMAIN p)
At8(a, x) == <<x, [i \in DOMAIN a |-> Value8(a[i], x)]>>
Side(a, v, w) == At8(a, <<v[1] + w[1], v[2] + w[2]>>)
TriRec(c, a) == {{LET B == T \ {p} IN {Side(a, v, v) : v \in B} \cup {Side(a, p, v) : v \in B} : p \in T} : T \in Tris(c)}
Exp(c, fs, st, e) ==
   CASE e.op = "norm" -> Norm2(c, Of(c, st, e, e.t))
     [] e.op = "comp" -> LET a == Of(c, st, e, e.t) IN [i \in DOMAIN a |-> In2(c, <<a[i]>>, <<a[i]>>)]
     [] e.op = "error" -> LET a == Sub(st[e.f][e.t], Stills(fs[e.f], e.t)) IN
                          CASE e.v = "L2" -> Norm2(c, a) [] e.v = "d_L2" -> Norm2(c, DF(c, e.f, a)) [] OTHER -> Norm2(c, a) + Norm2(c, DF(c, e.f, a))
     [] e.op = "diff" -> Norm2(c, Sub(st[e.f][e.t], st[e.f][e.s]))
     [] e.op = "ip" -> In2(c, Of(c, st, [v |-> e.v, f |-> e.f], e.t), Of(c, st, [v |-> e.w, f |-> e.g], e.s))
     [] OTHER -> Integral(c, st[e.f][e.t][1])
-----------------------------------------------------------------------------
\* the interior of a box may be bent: the fields and their integrals are the same, and stood for up to a small error
Near(c, g, x) == Abs(g - x) <= Abs(x) \div 400 + Integral(c, One) \div 200
Tells(c, g, x, e) == IF c.route # "curved" THEN g = x
                     ELSE IF e.op = "comp" THEN Len(g) = Len(x) /\ \A i \in DOMAIN x : Near(c, g[i], x[i]) ELSE Near(c, g, x)
Cuts(z) == IF Dim = 3 THEN RandomElement({<<-1, 1>>, <<0, 1>>, <<-1, 0, 1>>, <<0, 1>>})
           ELSE RandomElement({<<-1, 1>>, <<-1, 0, 1>>, <<0, 1>>, <<-1, 0, 2>>, <<-1, 1, 2>>, <<0, 1, 2>>})
Frames == {<<<<1, 0>>, <<0, 1>> >>, <<<<1, 1>>, <<0, 1>> >>, <<<<1, -1>>, <<1, 1>> >>, <<<<0, -1>>, <<1, 0>> >>, <<<<2, 0>>, <<1, 1>> >>}
Kinds == {x \in (0..(Dim - 1)) \X {"inner", "outer"} : Dim = 3 => x[2] = "inner"}
\* uniform: how the cuts of a box may be given
Config(z) ==
   LET r == RandomElement(Routes) ko == RandomElement(Kinds)
       A == IF r \in {"cells", "tris"} THEN RandomElement(Frames)
            ELSE LET d == [i \in 1..Dim |-> RandomElement(1..2)] IN [i \in 1..Dim |-> [j \in 1..Dim |-> IF i = j THEN d[i] ELSE 0]]
   IN [op |-> "config", route |-> r, A |-> TLCEval(A), cuts |-> TLCEval([i \in 1..Dim |-> Cuts(i)]), k |-> ko[1], o |-> ko[2],
       p |-> TLCEval(LET q == RandomElement(IF r = "curved" THEN {IF Dim = 3 THEN 5 ELSE 6} ELSE IF r # "tris" THEN Degs ELSE IF ko[1] = 0 THEN 1..3 ELSE 2..3) IN [i \in 1..Dim |-> IF Lib = "msepy" /\ r # "curved" THEN RandomElement(Degs) ELSE q]), rot |-> RandomElement(0..3)]
\* the polynomials of the space: by axis in boxes, complete ones else
Cap(c, k, i, a) == LET less == CASE k = 0 -> FALSE [] k = Dim -> TRUE
                               [] k = 1 /\ (Dim = 3 \/ c.o = "inner") -> i = a [] OTHER -> i # a
                   IN IF less THEN c.p[a] - 1 ELSE c.p[a]
\* squares are of degree 4 at most (see Mom)
Bound(c, k) == CASE k = 0 -> IF c.p[1] > 2 THEN 2 ELSE c.p[1] [] k = 2 /\ c.route = "tris" -> c.p[1] - 2 [] OTHER -> c.p[1] - 1
Monos(c, k, i) == {m \in [1..Dim + 1 -> 0..2] : m[1] <= 1 /\ (\A a \in 1..Dim : m[a + 1] <= Cap(c, k, i, a))
                     /\ (c.route # "box" => SumF([a \in 1..Dim |-> m[a + 1]], 1..Dim) <= IF c.route = "curved" THEN 2 ELSE Bound(c, k))}
FieldP(c, k, i) == LET n == RandomElement(IF Dim = 3 THEN 0..2 ELSE 1..3) M == Monos(c, k, i)
                   IN TLCEval([j \in 1..n |-> <<RandomElement({-2, -1, 1, 2, 3}), TLCEval(RandomElement(M))>>])
FieldOf(c, k) == TLCEval([i \in 1..Size(RankOf(k)) |-> FieldP(c, k, i)])
\* numbers stay small enough
Light(a) == SumF([i \in DOMAIN a |-> Weight(a[i])], DOMAIN a) <= IF Dim = 3 THEN 9 ELSE 24
Modest(c, a) == LET w == SumF([i \in DOMAIN a |-> Weight(Pull(c.A, a[i]))], DOMAIN a) IN
               /\ Light(a) /\ w <= 50 /\ w * w * Det(c.A) <= IF Dim = 3 THEN 540 ELSE 6400

FInit == VInit /\ cfg = [op |-> "none"] /\ fld = <<>> /\ store = <<>> /\ log = <<>>
Go(e) == log' = Append(log, e) /\ Len(log) < Max /\ UNCHANGED vvars
FConfig == log = <<>> /\ \E c \in {Config(0)} : cfg' = c /\ fld' = <<<<>>, <<>>, <<>>>> /\ store' = <<<<>>, <<>>, <<>>>> /\ Go(c)
Whens == 0..2
FSet == log # <<>> /\ \E f \in {RandomElement(1..3)} : \E s \in {FieldOf(cfg, KOf(cfg, f))} :
        LET a == TLCEval([i \in DOMAIN s |-> PolyOf(s[i])]) IN
        /\ \A t \in Whens : Light(Stills(a, t))
        /\ fld' = [fld EXCEPT ![f] = a] /\ Go([op |-> "set", f |-> f, comps |-> s]) /\ UNCHANGED <<cfg, store>>
FReduce == log # <<>> /\ \E f \in {RandomElement(1..3)} : fld[f] # <<>> /\ \E t \in {RandomElement(Whens)} :
        /\ store' = [store EXCEPT ![f] = TLCEval([s \in (DOMAIN @) \cup {t} |-> IF s = t THEN Stills(fld[f], t) ELSE store[f][s]])]
        /\ Go([op |-> "reduce", f |-> f, t |-> t]) /\ UNCHANGED <<cfg, fld>>
Ask(e) == Go(e) /\ UNCHANGED <<cfg, fld, store>>
View(z) == LET v == RandomElement(IF Lib = "msepy" THEN {"f", "d", "sum", "dif"} ELSE {"f", "d"})
           IN [v |-> v, f |-> RandomElement(IF v = "d" THEN {i \in 1..3 : KOf(cfg, i) < Dim} ELSE 1..3)]
FRec == log # <<>> /\ cfg.route # "curved" /\ \E w \in {View(0)} : \E t \in {RandomElement(Whens)} : Has(store, w, t) /\ Ask([op |-> "rec", v |-> w.v, f |-> w.f, t |-> t])
FNorm == log # <<>> /\ cfg.route # "tris" /\ \E w \in {View(0)} : \E t \in {RandomElement(Whens)} : Has(store, w, t) /\ Modest(cfg, Of(cfg, store, w, t)) /\ Exact(cfg, Of(cfg, store, w, t)) /\
         \E op \in {IF Lib = "msehtt" /\ w.v = "f" /\ Dim = 3 /\ cfg.route # "curved" /\ KOf(cfg, w.f) \in {1, 2} THEN RandomElement({"norm", "comp"}) ELSE "norm"} :
         Ask([op |-> op, v |-> w.v, f |-> w.f, t |-> t])
FError == log # <<>> /\ \E f \in {RandomElement(1..3)} : \E t \in {RandomElement(Whens)} : t \in DOMAIN store[f] /\
         \E v \in {RandomElement(IF KOf(cfg, f) = Dim THEN {"L2"} ELSE IF Lib = "msepy" THEN {"L2", "H1"} ELSE {"L2", "d_L2", "H1"})} :
         LET a == TLCEval(Sub(store[f][t], Stills(fld[f], t))) IN
         /\ Modest(cfg, a) /\ Modest(cfg, IF KOf(cfg, f) < Dim THEN DF(cfg, f, a) ELSE <<>>)
         /\ Ask([op |-> "error", v |-> v, f |-> f, t |-> t])
\* the residual is by default between the last two times, in whatever order they were given
Latest(x, t, s) == s < t /\ \A y \in DOMAIN x : y = t \/ y <= s
FDiff == log # <<>> /\ cfg.route # "tris" /\ \E f \in {RandomElement(1..3)} : \E t \in {RandomElement(Whens)} : \E s \in {RandomElement(Whens)} :
         t \in DOMAIN store[f] /\ s \in DOMAIN store[f] /\ s # t /\ Modest(cfg, Sub(store[f][t], store[f][s])) /\ Exact(cfg, Sub(store[f][t], store[f][s])) /\
         Ask([op |-> "diff", f |-> f, t |-> t, s |-> s, how |-> RandomElement((IF Lib = "msepy" THEN {"diff_to_t", "residual"} ELSE {"residual"})
                                                                \cup (IF Latest(store[f], t, s) THEN {"latest"} ELSE {}))])
FIp == log # <<>> /\ cfg.route # "tris" /\ \E t \in {RandomElement(Whens)} : \E s \in {RandomElement(Whens)} : \E x \in {RandomElement({<<"f", 1, "f", 2>>, <<"d", 1, "f", 3>>, <<"f", 3, "d", 2>>, <<"f", 3, "f", 3>>})} :
         LET a == [v |-> x[1], f |-> x[2]] b == [v |-> x[3], f |-> x[4]] IN
         /\ Lib = "msehtt" => (Dim = 2 /\ x[1] = "f" /\ x[3] = "f" /\ KOf(cfg, x[2]) = 1)
         /\ Has(store, a, t) /\ Has(store, b, s) /\ Modest(cfg, Of(cfg, store, a, t)) /\ Modest(cfg, Of(cfg, store, b, s))
         /\ Ask([op |-> "ip", v |-> x[1], f |-> x[2], t |-> t, w |-> x[3], g |-> x[4], s |-> s])
FMass == log # <<>> /\ cfg.route # "tris" /\ Lib = "msehtt" /\ \E f \in {RandomElement(1..3)} : \E t \in {RandomElement(Whens)} : t \in DOMAIN store[f] /\ KOf(cfg, f) \in {0, Dim} /\
         Modest(cfg, store[f][t]) /\ Ask([op |-> "mass", f |-> f, t |-> t])
FEmit == Len(log) >= Max /\ (~Rec \/ PrintT(<<"TR", ToJson(log)>>)) /\ cfg' = [op |-> "none"] /\ fld' = <<>> /\ store' = <<>> /\ log' = <<>> /\ UNCHANGED vvars
FNext == FConfig \/ FSet \/ FReduce \/ FReduce \/ FRec \/ FNorm \/ FError \/ FDiff \/ FIp \/ FMass \/ FEmit
FSpec == FInit /\ [][FNext]_fvars

\* fields stay in the spaces they are in: the derivative of a field of a form is in the next space
InSpace(c, k, a) == \A i \in DOMAIN a : \A m \in DOMAIN a[i] : \A b \in 1..Dim : m[b + 1] <= Cap(c, k, i, b)
Spaces == log # <<>> => \A f \in 1..3 : fld[f] # <<>> /\ cfg.route = "box" =>
            InSpace(cfg, KOf(cfg, f), fld[f]) /\ (KOf(cfg, f) < Dim => InSpace(cfg, KOf(cfg, f) + 1, DF(cfg, f, fld[f])))
\* norms are norms
Psd == log # <<>> => \A f \in 1..3 : \A t \in DOMAIN store[f] : Modest(cfg, store[f][t]) =>
            LET n == Norm2(cfg, store[f][t]) IN n >= 0 /\ (n = 0 <=> None(store[f][t]))
=============================================================================
