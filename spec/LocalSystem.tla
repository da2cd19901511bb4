---------------------------- MODULE LocalSystem ----------------------------
(* Local (element-wise) matrices and vectors, their algebra, their assembling into global ones, the
   customizations that impose conditions, and the linear systems made of them - in integers.

   A gathering matrix maps the local degrees of freedom of every element to global ones (an element
   may hold one twice).  A local matrix is one small matrix per element; assembling adds every local
   entry to the global entry its row and column are gathered to.  Objects made of others (transposes,
   sums, products, block matrices, concatenations) mean what they meant in terms of the local data;
   customizations change the assembled matrix (or vector) of exactly the object customized, in exactly
   the addressed rows, and - as block matrices and concatenations show their blocks - those.

   State: the gathering matrices and the objects made so far; every object keeps
     loc    the local data it was made with (per element)
     cust   whether it has been customized, asm: what it then assembles to
     blocks the objects it is a block matrix / concatenation of
     deps   the objects it was computed from (it may refuse to be read once one of them is customized) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS MaxE, MaxL, NumG, Vals, MaxObjs, MaxOps, Rec, GmSets, Bigs
VARIABLES gms, objs, hist
vars == <<gms, objs, hist>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
NE == Len(gms[1])
NL(g) == Len(gms[g][1])
ND(g) == 1 + Max(UNION {{gms[g][e][l] : l \in 1..NL(g)} : e \in 1..NE})
RECURSIVE SumND(_, _)
SumND(ch, j) == IF j = 0 THEN 0 ELSE ND(ch[j]) + SumND(ch, j - 1)
RECURSIVE SumNL(_, _)
SumNL(ch, j) == IF j = 0 THEN 0 ELSE NL(ch[j]) + SumNL(ch, j - 1)
Dofs(ch) == SumND(ch, Len(ch))
Locs(ch) == SumNL(ch, Len(ch))
Piece(ch, l) == CHOOSE j \in DOMAIN ch : SumNL(ch, j - 1) < l /\ l <= SumNL(ch, j)
\* global number (from 0) of the local dof l (from 1) of element e under the chain of gathering matrices ch
Num(ch, e, l) == LET j == Piece(ch, l) IN gms[ch[j]][e][l - SumNL(ch, j - 1)] + SumND(ch, j - 1)
Gm(ch) == [e \in 1..NE |-> [l \in 1..Locs(ch) |-> Num(ch, e, l)]]
Places(ch, d) == {<<e, l>> \in (1..NE) \X (1..Locs(ch)) : Num(ch, e, l) = d}

RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
SumMat(r, c, loc) ==
   LET gr == Gm(r)  gc == Gm(c)
       row(i) == {x \in (1..NE) \X (1..Locs(r)) : gr[x[1]][x[2]] = i - 1}
       col(j) == {x \in (1..NE) \X (1..Locs(c)) : gc[x[1]][x[2]] = j - 1}
       rows == [i \in 1..Dofs(r) |-> row(i)]
       cols == [j \in 1..Dofs(c) |-> col(j)]
       val == [x \in (1..NE) \X (1..Locs(r)) \X (1..Locs(c)) |-> loc[x[1]][x[2]][x[3]]]
   IN [i \in 1..Dofs(r) |-> [j \in 1..Dofs(c) |->
         SumOver({<<x[1][1], x[1][2], x[2][2]>> : x \in {y \in rows[i] \X cols[j] : y[1][1] = y[2][1]}}, val)]]
SumVec(r, loc) ==
   LET gr == Gm(r)
       val == [x \in (1..NE) \X (1..Locs(r)) |-> loc[x[1]][x[2]]]
   IN [i \in 1..Dofs(r) |-> SumOver({x \in (1..NE) \X (1..Locs(r)) : gr[x[1]][x[2]] = i - 1}, val)]

\* ------------------------------------------------------------- meaning of an object
RECURSIVE Asm(_)
Asm(i) ==
   LET o == objs[i] IN
   IF o.cust THEN o.asm
   ELSE IF o.t = "mat" THEN
        IF o.blocks = <<>> THEN SumMat(o.r, o.c, o.loc)
        ELSE LET parts == [x \in DOMAIN o.blocks |-> [y \in DOMAIN o.blocks[x] |-> IF o.blocks[x][y] = 0 THEN <<>> ELSE Asm(o.blocks[x][y])]]
                 at(k, ch) == CHOOSE j \in DOMAIN ch : SumND(ch, j - 1) < k /\ k <= SumND(ch, j)
             IN [i2 \in 1..Dofs(o.r) |-> [j2 \in 1..Dofs(o.c) |->
                   LET x == at(i2, o.r)  y == at(j2, o.c) IN
                   IF o.blocks[x][y] = 0 THEN 0 ELSE parts[x][y][i2 - SumND(o.r, x - 1)][j2 - SumND(o.c, y - 1)]]]
   ELSE IF o.op = "concat" THEN
        LET parts == [x \in DOMAIN o.blocks |-> IF o.blocks[x] = 0 THEN <<>> ELSE Asm(o.blocks[x])]
            at(k, ch) == CHOOSE j \in DOMAIN ch : SumND(ch, j - 1) < k /\ k <= SumND(ch, j)
        IN [i2 \in 1..Dofs(o.r) |-> LET x == at(i2, o.r) IN IF o.blocks[x] = 0 THEN 0 ELSE parts[x][i2 - SumND(o.r, x - 1)]]
   ELSE IF o.op = "vneg" THEN LET a == Asm(o.blocks[1]) IN [k \in DOMAIN a |-> -a[k]]
   ELSE IF o.op = "vadd" THEN LET a == Asm(o.blocks[1])  b == Asm(o.blocks[2]) IN [k \in DOMAIN a |-> a[k] + b[k]]
   ELSE SumVec(o.r, o.loc)
\* local data of an object none of whose sources has been customized
RECURSIVE Local(_)
Local(i) ==
   LET o == objs[i] IN
   IF o.t = "mat" /\ o.blocks # <<>>
   THEN [e \in 1..NE |-> [a \in 1..Locs(o.r) |-> [b \in 1..Locs(o.c) |->
           LET x == Piece(o.r, a)  y == Piece(o.c, b) IN
           IF o.blocks[x][y] = 0 THEN 0 ELSE Local(o.blocks[x][y])[e][a - SumNL(o.r, x - 1)][b - SumNL(o.c, y - 1)]]]]
   ELSE IF o.t = "vec" /\ o.op = "concat"
   THEN [e \in 1..NE |-> [a \in 1..Locs(o.r) |-> LET x == Piece(o.r, a) IN IF o.blocks[x] = 0 THEN 0 ELSE Local(o.blocks[x])[e][a - SumNL(o.r, x - 1)]]]
   ELSE o.loc

Tainted(i) == \E j \in objs[i].deps : objs[j].cust
Clean(i) == ~objs[i].cust /\ ~Tainted(i)
Dependents(i) == {j \in DOMAIN objs : i \in objs[j].deps}
Shows(j) == objs[j].op \in {"bmat", "concat"}
Frozen(i) == \/ \E j \in Dependents(i) : Shows(j) /\ (objs[j].cust \/ Dependents(j) # {})
             \/ objs[i].t = "vec" /\ \E j \in Dependents(i) : ~Shows(j)
             \/ \E j \in Dependents(i) : \E k \in Dependents(j) : Shows(k) /\ j # k

\* ------------------------------------------------------------- objects
Obj(t, op, r, c, loc, blocks, deps, eager) ==
   [t |-> t, op |-> op, r |-> r, c |-> c, loc |-> loc, blocks |-> blocks, deps |-> deps, eager |-> eager, cust |-> FALSE, asm |-> <<>>,
    chained |-> op \in {"bmat", "concat"} \/ Len(r) > 1 \/ Len(c) > 1]
WithDeps(S) == S \cup UNION {objs[j].deps : j \in S}
Cells(bl) == UNION {{bl[x][y] : y \in DOMAIN bl[x]} : x \in DOMAIN bl} \ {0}
RowOf(bl, x) == objs[CHOOSE i \in {bl[x][y] : y \in DOMAIN bl[x]} \ {0} : TRUE].r
ColOf(bl, y) == objs[CHOOSE i \in {bl[x][y] : x \in DOMAIN bl} \ {0} : TRUE].c
RECURSIVE Flatten(_, _)
Flatten(s, n) == IF n = 0 THEN <<>> ELSE Flatten(s, n - 1) \o s[n]
RowChain(bl) == Flatten([x \in DOMAIN bl |-> RowOf(bl, x)], Len(bl))
ColChain(bl) == Flatten([y \in DOMAIN bl[1] |-> ColOf(bl, y)], Len(bl[1]))
Rows(m) == DOMAIN m
Dot(u, v) == SumOver(DOMAIN u, [k \in DOMAIN u |-> u[k] * v[k]])
ColV(m, j) == [k \in DOMAIN m |-> m[k][j]]
MulM(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN b[1] |-> Dot(a[i], ColV(b, j))]]
MapMat(m, f(_)) == [e \in DOMAIN m |-> [a \in DOMAIN m[e] |-> [b \in DOMAIN m[e][a] |-> f(m[e][a][b])]]]
Zero(r, c) == [e \in 1..NE |-> [a \in 1..Locs(r) |-> [b \in 1..Locs(c) |-> 0]]]
BlockMat(bl) == Obj("mat", "bmat", RowChain(bl), ColChain(bl), <<>>, bl, WithDeps(Cells(bl)), TRUE)
ConcatVec(bs, ch) == Obj("vec", "concat", ch, <<>>, <<>>, bs, WithDeps({bs[x] : x \in DOMAIN bs} \ {0}), FALSE)
\* the object an event makes
Made(e) ==
   CASE e.op = "mat" -> Obj("mat", "mat", <<e.r>>, <<e.c>>, IF e.kind = "zero" THEN Zero(<<e.r>>, <<e.c>>) ELSE e.data, <<>>, {}, TRUE)
     [] e.op = "vec" -> Obj("vec", "vec", <<e.r>>, <<>>, e.data, <<>>, {}, e.kind # "call")
     [] e.op = "T" -> LET o == objs[e.i]  l == Local(e.i) IN
                      Obj("mat", "T", o.c, o.r, [x \in 1..NE |-> [a \in 1..Locs(o.c) |-> [b \in 1..Locs(o.r) |-> l[x][b][a]]]], <<>>, WithDeps({e.i}), TRUE)
     [] e.op = "neg" -> LET f(x) == -x IN Obj("mat", "neg", objs[e.i].r, objs[e.i].c, MapMat(Local(e.i), f), <<>>, WithDeps({e.i}), TRUE)
     [] e.op = "scale" -> LET f(x) == e.v * x IN Obj("mat", "scale", objs[e.i].r, objs[e.i].c, MapMat(Local(e.i), f), <<>>, WithDeps({e.i}), TRUE)
     [] e.op \in {"add", "sub"} ->
           LET l == Local(e.i)  k == Local(e.j)  s == IF e.op = "add" THEN 1 ELSE -1 IN
           Obj("mat", e.op, objs[e.i].r, objs[e.i].c,
               [x \in 1..NE |-> [a \in DOMAIN l[x] |-> [b \in DOMAIN l[x][a] |-> l[x][a][b] + s * k[x][a][b]]]], <<>>, WithDeps({e.i, e.j}), TRUE)
     [] e.op = "mul" -> LET l == Local(e.i)  k == Local(e.j) IN
           Obj("mat", "mul", objs[e.i].r, objs[e.j].c, [x \in 1..NE |-> MulM(l[x], k[x])], <<>>, WithDeps({e.i, e.j}), TRUE)
     [] e.op = "bmat" -> BlockMat(e.bl)
     [] e.op = "matvec" -> LET l == Local(e.i)  k == Local(e.j) IN
           Obj("vec", "matvec", objs[e.i].r, <<>>, [x \in 1..NE |-> [a \in DOMAIN l[x] |-> Dot(l[x][a], k[x])]], <<>>, {}, TRUE)
     [] e.op = "vscale" -> LET k == Local(e.i) IN Obj("vec", "vscale", objs[e.i].r, <<>>, [x \in 1..NE |-> [a \in DOMAIN k[x] |-> e.v * k[x][a]]], <<>>, {}, TRUE)
     [] e.op = "vneg" -> Obj("vec", "vneg", objs[e.i].r, <<>>, IF objs[e.i].eager /\ Clean(e.i) THEN [x \in 1..NE |-> [a \in DOMAIN Local(e.i)[x] |-> -Local(e.i)[x][a]]] ELSE <<>>,
                             <<e.i>>, WithDeps({e.i}), objs[e.i].eager /\ Clean(e.i))
     [] e.op = "vadd" -> Obj("vec", "vadd", objs[e.i].r, <<>>,
                             IF objs[e.i].eager /\ objs[e.j].eager
                             THEN [x \in 1..NE |-> [a \in DOMAIN Local(e.i)[x] |-> Local(e.i)[x][a] + Local(e.j)[x][a]]] ELSE <<>>,
                             <<e.i, e.j>>, WithDeps({e.i, e.j}), objs[e.i].eager /\ objs[e.j].eager)
     [] e.op = "concat" -> ConcatVec(e.bs, e.ch)
From(e) == CASE e.op \in {"T", "neg", "scale", "vscale", "vneg"} -> {e.i} [] e.op \in {"add", "sub", "mul", "matvec", "vadd"} -> {e.i, e.j} [] OTHER -> {}
Makers == {"mat", "vec", "T", "neg", "scale", "add", "sub", "mul", "bmat", "matvec", "vscale", "vneg", "vadd", "concat"}
\* ------------------------------------------------------------- customizations
Abs(i, d) == IF d < 0 THEN Dofs(objs[i].r) + d ELSE d          \* a negative dof counts from the end
Unit(n, k) == [j \in 1..n |-> IF j = k THEN 1 ELSE 0]
WithAsm(o, a) == [o EXCEPT !.cust = TRUE, !.asm = a]
Square(o) == o.r = o.c \/ Gm(o.r) = Gm(o.c)
IdRows(A, ds) == [k \in DOMAIN A |-> IF (k - 1) \in ds THEN Unit(Len(A[k]), k) ELSE A[k]]
ZeroRows(A, ds) == [k \in DOMAIN A |-> IF (k - 1) \in ds THEN [j \in DOMAIN A[k] |-> 0] ELSE A[k]]
RECURSIVE PutAll(_, _, _, _, _)
PutAll(A, rows, cols, vals, n) == IF n = 0 THEN A ELSE [PutAll(A, rows, cols, vals, n - 1) EXCEPT ![rows[n] + 1] = [@ EXCEPT ![cols[n] + 1] = vals[n]]]
SetOf(s) == {s[k] : k \in DOMAIN s}
\* a single local place, row and column in the same element: only then a single entry can be set
Settable(o, rows, cols) == \A k \in DOMAIN rows : /\ Cardinality(Places(o.r, rows[k])) = 1 /\ Cardinality(Places(o.c, cols[k])) = 1
                                                   /\ {x[1] : x \in Places(o.r, rows[k])} = {x[1] : x \in Places(o.c, cols[k])}
FirstVal(e, d) == IF e.scalar THEN e.vals[1] ELSE e.vals[CHOOSE k \in DOMAIN e.ds : e.ds[k] = d /\ \A m \in DOMAIN e.ds : e.ds[m] = d => k <= m]
Custom(e) ==      \* the object e.i after a customization
   LET o == objs[e.i]  A == Asm(e.i) IN
   CASE e.op = "idrow" -> WithAsm(o, IdRows(A, {Abs(e.i, e.d)}))
     [] e.op = "iddiag" -> WithAsm(o, IdRows(A, SetOf(e.ds)))
     [] e.op = "zero" -> WithAsm(o, ZeroRows(A, SetOf(e.ds)))
     [] e.op = "setv" -> WithAsm(o, PutAll(A, e.rows, e.cols, e.vals, Len(e.rows)))
     [] e.op = "setz" -> WithAsm(o, PutAll(ZeroRows(A, SetOf(e.rows)), e.rows, e.cols, e.vals, Len(e.rows)))
     [] e.op = "clear" -> [o EXCEPT !.cust = FALSE, !.asm = <<>>]
     [] e.op = "vset" -> WithAsm(o, [A EXCEPT ![Abs(e.i, e.d) + 1] = e.v])
     [] e.op = "vsets" -> WithAsm(o, [k \in DOMAIN A |-> IF (k - 1) \in SetOf(e.ds) THEN FirstVal(e, k - 1) ELSE A[k]])
Customs == {"idrow", "iddiag", "zero", "setv", "setz", "clear", "vset", "vsets"}
Refused(e) == \/ e.op \in {"idrow", "iddiag"} /\ ~Square(objs[e.i])
              \/ e.op \in {"lsdof", "lslocal"} /\ ~Square(objs[e.i])
\* a linear system is a block matrix, a concatenated right-hand side (the next object) and its unknowns;
\* imposing the value of a dof puts a unit row into A and the value into b
LsDof(e) == IF e.op = "lsdof" THEN Abs(e.i, e.d)
            ELSE LET r == objs[e.i].r
                     el == IF e.e < 0 THEN e.e + NE ELSE e.e
                     lo == IF e.l < 0 THEN e.l + NL(r[e.u + 1]) ELSE e.l
                 IN Num(r, el + 1, SumNL(r, e.u) + lo + 1)
Apply(e) ==
   IF e.op \in Makers THEN Append(objs, LET o == Made(e) IN [o EXCEPT !.chained = @ \/ \E j \in From(e) : objs[j].chained])
   ELSE IF e.op = "ls" THEN objs \o <<BlockMat(e.bl), ConcatVec(e.bs, RowChain(e.bl))>>
   ELSE IF e.op \in {"read", "find", "update"} \/ Refused(e) THEN objs
   ELSE IF e.op \in Customs THEN [objs EXCEPT ![e.i] = Custom(e)]
   ELSE LET d == LsDof(e) IN
        [objs EXCEPT ![e.i] = WithAsm(@, IdRows(Asm(e.i), {d})), ![e.i + 1] = WithAsm(@, [Asm(e.i + 1) EXCEPT ![d + 1] = e.v])]

\* ------------------------------------------------------------- choices
Pick(X) == IF Rec THEN {RandomElement(X)} ELSE X
Rank(S, x) == Cardinality({y \in S : y < x})
Compress(g) == LET S == UNION {{g[e][l] : l \in DOMAIN g[e]} : e \in DOMAIN g} IN [e \in DOMAIN g |-> [l \in DOMAIN g[e] |-> Rank(S, g[e][l])]]
Mats == {i \in DOMAIN objs : objs[i].t = "mat"}
Vecs == {i \in DOMAIN objs : objs[i].t = "vec"}
CMats == {i \in Mats : Clean(i)}
CVecs == {i \in Vecs : Clean(i)}
EVecs == {i \in CVecs : objs[i].eager}
\* gathered by the gathering matrices themselves, not by a chain (even of one)
Base(i) == ~objs[i].chained
ChooseMat(r, c, kind) ==
   IF kind = "const" THEN {[x \in 1..NE |-> m] : m \in {[a \in 1..NL(r) |-> [b \in 1..NL(c) |-> RandomElement(Vals)]]}}
   ELSE IF kind = "zero" THEN {Zero(<<r>>, <<c>>)}
   ELSE {[x \in 1..NE |-> [a \in 1..NL(r) |-> [b \in 1..NL(c) |-> RandomElement(Vals)]]]}
AllMats(r, c) == [1..NE -> [1..NL(r) -> [1..NL(c) -> Vals]]]
DofSeqs(n) == {[k \in 1..m |-> RandomElement(0..(n - 1))] : m \in {RandomElement(1..3)}}
\* blocks that fit: rows share a gathering matrix, columns too
Fits(bl) == /\ \A x \in DOMAIN bl : Cardinality({objs[i].r : i \in {bl[x][y] : y \in DOMAIN bl[x]} \ {0}}) = 1
            /\ \A y \in DOMAIN bl[1] : Cardinality({objs[i].c : i \in {bl[x][y] : x \in DOMAIN bl} \ {0}}) = 1
BlockMats == {i \in Mats : Base(i) /\ ~Tainted(i)}
Grid(n, m, S) == IF Rec THEN {b \in {[x \in 1..n |-> [y \in 1..m |-> RandomElement(S)]] : z \in 1..15} : Fits(b)}
                 ELSE {b \in [1..n -> [1..m -> S]] : Fits(b)}
VecFor(ch, k) == {0} \cup {i \in Vecs : Base(i) /\ objs[i].r = <<ch[k]>> /\ ~Tainted(i)}
Room == Rec => Len(hist) < MaxOps
Fresh == Len(objs) < MaxObjs
Lss == {i \in Mats : i + 1 \in DOMAIN objs /\ objs[i].op = "bmat" /\ objs[i + 1].op = "concat" /\ objs[i + 1].r = objs[i].r
                       /\ \E k \in DOMAIN hist : hist[k].op = "ls" /\ hist[k].at = i}

Init == gms = <<>> /\ objs = <<>> /\ hist = <<>>
Do(e) == /\ objs' = Apply(e) /\ UNCHANGED gms
         /\ hist' = IF Rec THEN Append(hist, e) ELSE hist
Setup == /\ gms = <<>> /\ UNCHANGED objs
         /\ \E g \in Pick(IF Rec THEN {[k \in 1..NumG |-> Compress([e \in 1..ne |-> [l \in 1..ml[k] |-> RandomElement(0..(ne * ml[k] - 1))]])]
                                         : ml \in Pick([1..NumG -> 1..MaxL]), ne \in Pick(1..MaxE)} ELSE GmSets) :
               gms' = g /\ hist' = IF Rec THEN <<[op |-> "setup", gms |-> g]>> ELSE hist
MakeMat == \E r \in Pick(1..NumG), c \in Pick(1..NumG), k \in Pick(IF Rec THEN {"const", "dict", "keyed", "zero"} ELSE {"dict"}) :
              \E d \in (IF Rec THEN ChooseMat(r, c, k) ELSE AllMats(r, c)) :
                 Do([op |-> "mat", r |-> r, c |-> c, kind |-> k, data |-> d, at |-> Len(objs) + 1, fmt |-> IF Rec THEN RandomElement({"csr", "csc"}) ELSE "csr"])
\* matrices made element by element from few kinds of local matrices (the kind is the key of the element)
Keyed == {i \in Mats : \E h \in DOMAIN hist : hist[h].op = "mat" /\ hist[h].at = i /\ hist[h].kind = "keyed"}
Reversed(m) == [x \in 1..NE |-> m[NE + 1 - x]]
Mirror == \E i \in Pick(Keyed) : Do([op |-> "mat", r |-> objs[i].r[1], c |-> objs[i].c[1], kind |-> "keyed", data |-> Reversed(objs[i].loc), at |-> Len(objs) + 1, fmt |-> "csr"])
Mirrored == {p \in Keyed \X Keyed : p[1] # p[2] /\ objs[p[1]].r = objs[p[2]].r /\ objs[p[1]].c = objs[p[2]].c /\ objs[p[2]].loc = Reversed(objs[p[1]].loc)}
Beside == \E p \in Pick({q \in Mirrored : {q[1], q[2]} \subseteq BlockMats}) : Do([op |-> "bmat", bl |-> <<<<p[1], p[2]>>>>])
MakeVec == \E r \in Pick(1..NumG), k \in Pick(IF Rec THEN {"homo", "arr", "shared", "call"} ELSE {"arr"}) :
              LET old == {i \in Vecs : objs[i].op = "vec" /\ objs[i].r = <<r>> /\ \E h \in DOMAIN hist : hist[h].op = "vec" /\ hist[h].kind = "arr" /\ hist[h].at = i}
              IN IF Rec /\ k = "shared" /\ old # {}
                 THEN \E i \in Pick(old) : Do([op |-> "vec", r |-> r, kind |-> k, of |-> i, data |-> objs[i].loc, at |-> Len(objs) + 1])
                 ELSE \E d \in (IF Rec THEN {IF k = "homo" THEN LET v == RandomElement(Vals) IN [x \in 1..NE |-> [a \in 1..NL(r) |-> v]]
                                             ELSE [x \in 1..NE |-> [a \in 1..NL(r) |-> RandomElement(Vals)]]} ELSE [1..NE -> [1..NL(r) -> Vals]]) :
                         Do([op |-> "vec", r |-> r, kind |-> IF k = "shared" THEN "arr" ELSE k, of |-> 0, data |-> d, at |-> Len(objs) + 1])
Unary == \E i \in Pick(CMats), u \in Pick({"T", "neg", "scale"}) : Do([op |-> u, i |-> i, v |-> IF Rec THEN RandomElement({-2, 2, 3}) ELSE 2])
Binary == \E i \in Pick(CMats) : \E u \in Pick({"add", "sub", "mul"}) :
             LET ok == {j \in CMats : IF u = "mul" THEN objs[j].r = objs[i].c ELSE objs[j].r = objs[i].r /\ objs[j].c = objs[i].c}
             IN ok # {} /\ \E j \in Pick(ok) : Do([op |-> u, i |-> i, j |-> j])
VecOps == \/ \E i \in Pick(CMats) : LET ok == {j \in EVecs : objs[j].r = objs[i].c}
                                    IN ok # {} /\ \E j \in Pick(ok) : Do([op |-> "matvec", i |-> i, j |-> j])
          \/ EVecs # {} /\ \E i \in Pick(EVecs) : Do([op |-> "vscale", i |-> i, v |-> IF Rec THEN RandomElement({-2, 2, 3}) ELSE 2])
          \/ \E i \in Pick({j \in Vecs : ~Tainted(j)}) : Do([op |-> "vneg", i |-> i])
          \/ \E i \in Pick({j \in Vecs : ~Tainted(j)}) :
                LET ok == {j \in Vecs : ~Tainted(j) /\ objs[j].r = objs[i].r /\ (~objs[i].eager \/ ~objs[j].eager \/ (Clean(i) /\ Clean(j)))} IN
                ok # {} /\ \E j \in Pick(ok) : Do([op |-> "vadd", i |-> i, j |-> j])
Blocks == \E n \in Pick(1..2), m \in Pick(1..2) : BlockMats # {} /\
             LET G == Grid(n, m, {0} \cup BlockMats) IN G # {} /\ \E b \in Pick(G) : Do([op |-> "bmat", bl |-> b])
Concats == \E n \in Pick(1..2) : \E ch \in Pick([1..n -> 1..NumG]) :
              \E bs \in (IF Rec THEN {[k \in 1..n |-> RandomElement(VecFor(ch, k))]} ELSE {f \in [1..n -> {0} \cup Vecs] : \A k \in 1..n : f[k] \in VecFor(ch, k)}) :
                 Do([op |-> "concat", ch |-> ch, bs |-> bs])
Systems == \E n \in Pick(1..2) : BlockMats # {} /\
             LET G == {b \in Grid(n, n, {0} \cup BlockMats) : \A x, y \in 1..n : b[x][y] # 0} \cup Grid(n, n, {0} \cup BlockMats)
             IN G # {} /\ \E b \in Pick(G) : \E bs \in {[k \in 1..n |-> RandomElement(VecFor(RowChain(b), k))]} :
                  Do([op |-> "ls", bl |-> b, bs |-> bs, at |-> Len(objs) + 1])
Style == IF Rec THEN RandomElement({"list", "array", "buffer"}) ELSE "list"
CustomM == LET ok == {i \in Mats : ~Tainted(i) /\ ~Frozen(i)} IN ok # {} /\ \E i \in Pick(ok) :
             LET o == objs[i]  n == Dofs(o.r)  w == Dofs(o.c) IN
             \E u \in Pick({"idrow", "iddiag", "zero", "setv", "setz", "clear"}) :
                IF u = "idrow" THEN \E d \in Pick((-n)..(n - 1)) : Do([op |-> u, i |-> i, d |-> d])
                ELSE IF u \in {"iddiag", "zero"} THEN \E ds \in (IF Rec THEN DofSeqs(n) ELSE {<<d>> : d \in 0..(n - 1)}) : Do([op |-> u, i |-> i, ds |-> ds, style |-> Style])
                ELSE IF u = "clear" THEN o.cust /\ Do([op |-> u, i |-> i])
                ELSE LET pairs == {p \in (0..(n - 1)) \X (0..(w - 1)) : Settable(o, <<p[1]>>, <<p[2]>>)} IN
                     pairs # {} /\ \E S \in (IF Rec THEN {RandomSubset(IF Cardinality(pairs) < 3 THEN Cardinality(pairs) ELSE RandomElement(1..3), pairs)} ELSE {{p} : p \in pairs}) :
                        LET s == CHOOSE f \in [1..Cardinality(S) -> S] : \A x, y \in DOMAIN f : x # y => f[x] # f[y] IN
                        Do([op |-> u, i |-> i, rows |-> [k \in DOMAIN s |-> s[k][1]], cols |-> [k \in DOMAIN s |-> s[k][2]],
                            vals |-> [k \in DOMAIN s |-> IF Rec THEN RandomElement(Vals) ELSE 1]])
CustomV == LET ok == {i \in Vecs : ~Tainted(i) /\ ~Frozen(i)} IN ok # {} /\ \E i \in Pick(ok) :
             LET n == Dofs(objs[i].r) IN
             \E u \in Pick({"vset", "vsets"}) :
                IF u = "vset" THEN \E d \in Pick((-n)..(n - 1)) : Do([op |-> u, i |-> i, d |-> d, v |-> IF Rec THEN RandomElement(5..9) ELSE 5])
                ELSE \E ds \in (IF Rec THEN DofSeqs(n) ELSE {<<d>> : d \in 0..(n - 1)}) :
                        Do([op |-> u, i |-> i, ds |-> ds, style |-> Style, scalar |-> IF Rec THEN RandomElement(BOOLEAN) ELSE FALSE, vals |-> [k \in DOMAIN ds |-> IF Rec THEN RandomElement(5..9) ELSE 5]])
CustomL == LET ok == {i \in Lss : ~Tainted(i) /\ ~Frozen(i) /\ ~Tainted(i + 1) /\ ~Frozen(i + 1)} IN ok # {} /\ \E i \in Pick(ok) :
             LET n == Dofs(objs[i].r) IN
             \E u \in Pick({"lsdof", "lslocal", "lsij"}) :
                IF u = "lsdof" THEN \E d \in Pick((-n)..(n - 1)) : Do([op |-> u, i |-> i, d |-> d, v |-> RandomElement(5..9)])
                ELSE \E k \in Pick(DOMAIN objs[i].r) : LET L == NL(objs[i].r[k]) IN
                     \E x \in Pick(IF u = "lsij" THEN (-NE)..(NE - 1) ELSE 0..(NE - 1)), l \in Pick(IF u = "lsij" THEN (-L)..(L - 1) ELSE 0..(L - 1)) :
                        Do([op |-> "lslocal", how |-> u, i |-> i, u |-> k - 1, e |-> x, l |-> l, v |-> RandomElement(5..9)])
Update == Lss # {} /\ \E i \in Pick(Lss) : Do([op |-> "update", i |-> i, x |-> [k \in 1..Dofs(objs[i].c) |-> RandomElement(-9..9)]])
Read == objs # <<>> /\ \E i \in Pick(DOMAIN objs) : Do([op |-> "read", i |-> i, fmt |-> IF Rec THEN RandomElement({"csr", "csc"}) ELSE "csr"])
Find == \E b \in Pick({0, 1}) :
          IF b = 0 THEN \E g \in Pick(1..NumG) : \E ds \in DofSeqs(ND(g)) : Do([op |-> "find", g |-> g, ne |-> 0, nl |-> 0, ds |-> ds, style |-> Style])
          ELSE \E z \in Pick(Bigs) : \E d \in Pick(0..(z[1] * z[2] - 4)) : \E ds \in {[k \in 1..RandomElement(1..2) |-> d + RandomElement(0..3)]} :
                  Do([op |-> "find", g |-> 0, ne |-> z[1], nl |-> z[2], ds |-> ds, style |-> Style])
On == Rec /\ gms # <<>> /\ Len(hist) < MaxOps
Begun == On /\ Len(objs) >= 3
Next == \/ Room /\ Setup
        \/ ~Rec /\ gms # <<>> /\ Fresh /\ (MakeMat \/ MakeVec \/ (Mats # {} /\ (Unary \/ Binary \/ Blocks \/ CustomM)) \/ (Vecs # {} /\ (VecOps \/ Concats \/ CustomV)))
        \/ On /\ Fresh /\ MakeMat
        \/ On /\ Fresh /\ MakeMat
        \/ On /\ Fresh /\ MakeVec
        \/ On /\ Fresh /\ MakeVec
        \/ Begun /\ Fresh /\ CMats # {} /\ Unary
        \/ Begun /\ Fresh /\ CMats # {} /\ Unary
        \/ Begun /\ Fresh /\ CMats # {} /\ Binary
        \/ Begun /\ Fresh /\ CMats # {} /\ Binary
        \/ Begun /\ Fresh /\ Vecs # {} /\ CMats # {} /\ VecOps
        \/ Begun /\ Fresh /\ Vecs # {} /\ CMats # {} /\ VecOps
        \/ Begun /\ Fresh /\ Blocks
        \/ On /\ Fresh /\ Keyed # {} /\ NE > 1 /\ Mirror
        \/ On /\ Fresh /\ {q \in Mirrored : {q[1], q[2]} \subseteq BlockMats} # {} /\ Beside
        \/ Begun /\ Fresh /\ Vecs # {} /\ Concats
        \/ Begun /\ Fresh /\ Systems
        \/ Begun /\ Fresh /\ Systems
        \/ Begun /\ Fresh /\ Systems
        \/ Begun /\ CustomM
        \/ Begun /\ CustomM
        \/ Begun /\ CustomV
        \/ Begun /\ CustomL
        \/ Begun /\ CustomL
        \/ Begun /\ CustomL
        \/ Begun /\ Update
        \/ Begun /\ Read
        \/ Begun /\ Find
        \/ Rec /\ Len(hist) = MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties (design)
TwoObjs == Len(objs) <= MaxObjs
\* what an object assembles to follows from what its sources assemble to
Transpose(A, n) == [j \in 1..n |-> [i \in DOMAIN A |-> A[i][j]]]
Sound == \A i \in DOMAIN objs : LET o == objs[i] IN
   /\ (o.op = "T" /\ ~o.cust) => \A j \in o.deps : (\A k \in o.deps \ {j} : k \in objs[j].deps) /\ Clean(i) => Asm(i) = Transpose(Asm(j), Dofs(objs[j].c))
   /\ (o.op = "bmat" /\ Clean(i)) => Asm(i) = SumMat(o.r, o.c, Local(i))
   /\ (o.op = "concat" /\ Clean(i)) => Asm(i) = SumVec(o.r, Local(i))
\* customizing touches the customized object and what shows it, nothing else
OnlyThat == [][\A i \in DOMAIN objs : (objs'[i] = objs[i] /\ \A j \in WithDeps({i}) : objs'[j] = objs[j]) => Asm(i)' = Asm(i)]_vars
=============================================================================
