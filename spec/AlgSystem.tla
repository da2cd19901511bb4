------------------------------ MODULE AlgSystem ------------------------------
(* From a weak formulation to its algebraic proxy and the abstract linear system A x = b.

   A formulation is reduced by derivations of WeakForm (guided: integrate by parts, discretize in time,
   split sums, order terms), then assembled: every term is fac * t^T chain v, its chain of matrices goes
   to the block of A its vector belongs to, or - on the right - to b; signs and factors go along.
   Boundary conditions are attached to the unknown (essential) or to the entry of b (natural) they fix. *)
EXTENDS WeakForm

VARIABLES td, fin, bcs
avars == <<wfs, last, hist, td, fin, bcs>>
W == wfs[Len(wfs)]

\* ------------------------------------------------------------------ spaces, matrices, vectors
RECURSIVE Sp(_)
Sp(f) == IF f[1] = "r" THEN Conf.sp[f[2]] ELSE IF f[1] = "t" THEN Conf.tsp[f[2]]
         ELSE IF f[1] = "d" THEN <<Sp(f[2])[1] + 1, Sp(f[2])[2]>> ELSE Sp(f[2])
IsVec(f) == f[1] = "r" \/ (f[1] = "at" /\ f[2][1] = "r")
M(s) == <<"M", s>>
E(s) == <<"E", s>>
ET(s) == <<"ET", s>>
Lin(chain, vec) == [chain |-> chain, vec |-> vec]
NoLin == [chain |-> <<>>, vec |-> <<>>]
LinOf(q, t) ==
  LET T == TestF(q) f0 == t.f0 f1 == t.f1 IN
  IF t.c = "ip" /\ f1 = T THEN
     IF IsVec(f0) THEN Lin(<<M(Sp(f0))>>, f0)
     ELSE IF f0[1] = "d" THEN IF IsVec(f0[2]) THEN Lin(<<M(Sp(f0)), E(Sp(f0[2]))>>, f0[2]) ELSE NoLin
     ELSE NoLin
  ELSE IF t.c = "ip" /\ f1 = <<"d", T>> THEN
     IF IsVec(f0) THEN Lin(<<ET(Sp(T)), M(Sp(f0))>>, f0)
     ELSE IF f0[1] = "d" THEN IF IsVec(f0[2]) THEN Lin(<<ET(Sp(T)), M(Sp(f0)), E(Sp(f0[2]))>>, f0[2]) ELSE NoLin
     ELSE NoLin
  ELSE IF t.c = "dp" /\ f1 = T /\ IsVec(f0) THEN Lin(<< <<"W", Sp(T), Sp(f0)>> >>, f0)
  ELSE IF t.c = "dp" /\ f1 = <<"tr", T>> /\ f0[1] = "tr" THEN
     IF f0[2][1] # "hs" THEN NoLin ELSE IF IsVec(f0[2][2]) THEN Lin(<< <<"B", f0[2][2]>> >>, <<"none">>) ELSE NoLin
  ELSE NoLin

\* ------------------------------------------------------------------ assembly of A x = b
Unk(isTd) == [j \in 1..Len(Conf.xs) |-> IF isTd THEN <<"at", <<"r", Conf.xs[j]>>, "k">> ELSE <<"r", Conf.xs[j]>>]
Terms(w) == UNION {{<<q, k>> : k \in 0..(NT(w[q]) - 1)} : q \in 1..Len(w)}
L(w, q, k) == LinOf(q, At(w[q], k)[2])
Entry(w, q, k) == LET x == At(w[q], k) IN <<x[1], x[2].fac, L(w, q, k).chain>>
Sel(seq, P(_)) == SelectSeq(seq, P)
Ks(w, q, side) == IF side = "l" THEN [j \in 1..NL(w[q]) |-> j - 1] ELSE [j \in 1..Len(w[q].r) |-> NL(w[q]) + j - 1]
BlockA(w, U, q, j) == LET P(k) == L(w, q, k).vec = U[j] S == Sel(Ks(w, q, "l"), P) IN [m \in 1..Len(S) |-> Entry(w, q, S[m])]
BlockB(w, q) == LET S == Ks(w, q, "r") IN [m \in 1..Len(S) |-> Append(Entry(w, q, S[m]), L(w, q, S[m]).vec)]
RECURSIVE Occ(_, _)
Occ(f, u) == IF f = u THEN TRUE ELSE IF f[1] \in {"r", "t", "at"} THEN FALSE ELSE IF f[1] \in {"plus", "minus", "x"} THEN Occ(f[2], u) \/ Occ(f[3], u)
             ELSE IF f[1] = "mul" THEN Occ(f[3], u) ELSE Occ(f[2], u)
UnkOccur(w, U) == \A j \in 1..Len(U) : \E x \in Terms(w) : LET t == At(w[x[1]], x[2])[2] IN Occ(t.f0, U[j]) \/ Occ(t.f1, U[j])
\* natural conditions: where <tr * r | .> stands in b
RootOf(v) == IF v[1] = "at" THEN v[2][2] ELSE v[2]
BAt(w, r) == {x \in Terms(w) : x[2] >= NL(w[x[1]]) /\ L(w, x[1], x[2]).chain # <<>> /\ L(w, x[1], x[2]).chain[1][1] = "B" /\ RootOf(L(w, x[1], x[2]).chain[1][2]) = r}
BcOf(w, raw) == IF raw[1] = "tr" THEN IF \E j \in 1..Len(Conf.xs) : Conf.xs[j] = raw[2] THEN <<"essential", (CHOOSE j \in 1..Len(Conf.xs) : Conf.xs[j] = raw[2]) - 1>> ELSE None
                ELSE LET S == BAt(w, raw[2]) IN IF S = {} THEN <<"manual", 0>> ELSE IF Cardinality(S) = 1 THEN <<"natural", (CHOOSE x \in S : TRUE)[1] - 1>> ELSE None
System(w, isTd, bc) ==
  LET U == Unk(isTd) n == Len(w) IN
  IF \E x \in Terms(w) : L(w, x[1], x[2]) = NoLin THEN None
  ELSE IF \E q \in 1..n : \E k \in 0..(NL(w[q]) - 1) : L(w, q, k).vec \notin Range(U) THEN None
  ELSE IF \A q \in 1..n : NL(w[q]) = 0 THEN None
  ELSE IF \E q \in 1..n : NT(w[q]) = 0 THEN None
  ELSE IF ~UnkOccur(w, U) THEN None
  ELSE IF \E j \in 1..Len(bc) : BcOf(w, bc[j][2]) = None THEN None
  ELSE [A |-> [q \in 1..n |-> [j \in 1..Len(U) |-> BlockA(w, U, q, j)]],
        b |-> [q \in 1..n |-> BlockB(w, q)], x |-> U,
        bc |-> [j \in 1..Len(bc) |-> <<bc[j][1]>> \o BcOf(w, bc[j][2])]]

\* ------------------------------------------------------------------ guided reduction
RECURSIVE Parts(_)
Parts(f) == IF f[1] \in {"plus", "minus"} THEN
               LET a == Parts(f[2]) b == Parts(f[3])
               IN a \o (IF f[1] = "plus" THEN b ELSE [j \in 1..Len(b) |-> <<Flip(b[j][1]), b[j][2]>>])
            ELSE IF f[1] \in {"sdiv", "ddt"} THEN Parts(f[2])
            ELSE IF f[1] \in {"d", "cd", "hs", "tr", "pt"} THEN LET p == Parts(f[2]) IN [j \in 1..Len(p) |-> <<p[j][1], <<f[1], p[j][2]>> >>]
            ELSE << <<"+", f>> >>
RECURSIVE Weight(_)
Weight(f) == IF f[1] = "ddt" THEN "dt" ELSE IF f[1] = "sdiv" THEN "1/2"
             ELSE IF f[1] \in {"d", "cd", "hs", "tr", "pt"} THEN Weight(f[2]) ELSE "1"
With(w, P(_)) == {x \in Term1(w) : P(At(w[x[1]], x[2])[2])}
RECURSIVE Chop(_)
Chop(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] * 100 + y[2] <= z[1] * 100 + z[2] IN <<x>> \o Chop(S \ {x})
IsSum(t) == Len(Parts(t.f0)) > 1
IsCd(t) == t.f0[1] = "cd"
IsHs(t) == t.f0[1] = "hs"
IsX(t) == t.f0[1] = "x" \/ t.f1[1] = "x"
IsPt(t) == t.f0[1] = "pt"
HasX(t) == IsX(t) \/ (t.f0[1] = "hs" /\ t.f0[2][1] = "x")
\* which instants each form of each term is taken at
AvgIns(w, x) == LET t == At(w[x[1]], x[2])[2] S == {f \in Conf.root : Has(t.f0, f) /\ ~IsPt(t)}
                IN { [kind |-> "avg", q |-> x[1], k |-> x[2], f |-> f, inst |-> RandomElement({<<"k">>, <<"k-1", "k">>, <<"k-1/2">>, <<"k-1">>, <<"k-1", "k">>})] : f \in S }
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
TdAll(w) == [op |-> "td", ins |->
   [j \in 1..Len(Chop(With(w, IsPt))) |-> [kind |-> "diff", q |-> Chop(With(w, IsPt))[j][1], k |-> Chop(With(w, IsPt))[j][2], f |-> "", inst |-> <<"k-1", "k">>]]
   \o SeqOf(UNION {AvgIns(w, x) : x \in Term1(w)})]
\* unknowns to the left, everything else to the right
Final(w, q) == LET U == Range(Unk(td)) rest == [j \in 1..NT(w[q]) |-> j - 1]
                   InL(k) == L(w, q, k).vec \in U  InR(k) == L(w, q, k).vec \notin U
               IN [op |-> "rearr", q |-> q, l |-> SelectSeq(rest, InL), r |-> SelectSeq(rest, InR)]
SplitAll(w, x) == LET t == At(w[x[1]], x[2])[2] p == Parts(t.f0)
                  IN [op |-> "split", q |-> x[1], k |-> x[2], f |-> "f0", into |-> [j \in 1..Len(p) |-> p[j][2]], signs |-> [j \in 1..Len(p) |-> p[j][1]], facs |-> [j \in 1..Len(p) |-> Weight(t.f0)]]
One(S) == {RandomElement(S)}
OpOf(w) ==
  IF With(w, HasX) # {} THEN {[op |-> "delete", q |-> x[1], k |-> x[2]] : x \in One(With(w, HasX))}
  ELSE IF With(w, IsSum) # {} THEN {SplitAll(w, x) : x \in One(With(w, IsSum))}
  ELSE IF With(w, IsCd) # {} THEN {[op |-> "ibp", q |-> x[1], k |-> x[2], drop |-> (At(w[x[1]], x[2])[2].f0[2][1] = "d" \/ n = 1)] : x \in One(With(w, IsCd)), n \in One(1..5)}
  ELSE IF With(w, IsHs) # {} THEN {[op |-> IF n = 1 THEN "dual" ELSE "delete", q |-> x[1], k |-> x[2]] : x \in One(With(w, IsHs)), n \in One(1..3)}
  ELSE IF ~td /\ With(w, IsPt) # {} THEN UNION {IF n > 1 THEN {TdAll(w)} ELSE {[op |-> "delete", q |-> x[1], k |-> x[2]] : x \in One(With(w, IsPt))} : n \in One(1..4)}
  ELSE {[op |-> "done"]}
Shuffle(w) == One(UNION {RearrQ(w, q) : q \in 1..Len(w)} \cup {x \in SwitchOps(w) : Range(x.rows) \subseteq 1..Len(w)})

TrOk(f) == Conf.sp[f][1] < Conf.n
HsOk(f) == Conf.sp[f][1] > 0
RawsOf(S) == {<<"tr", f>> : f \in {x \in S : TrOk(x)}} \cup {<<"trhs", f>> : f \in {x \in Conf.root : HsOk(x)}}
Raws == RawsOf(Conf.root)
XRaws == RawsOf(Range(Conf.xs))
Bcs(h) == IF Conf.per THEN <<>> ELSE [j \in 1..RandomElement(0..3) |-> <<RandomElement({"1", "2"}), RandomElement(IF RandomElement(1..8) = 1 THEN Raws ELSE XRaws)>>]
AInit == Init /\ td = FALSE /\ fin = 0 /\ bcs = <<>>
ABegin == Begin /\ td' = FALSE /\ fin' = 0 /\ bcs' = Bcs(hist)
Take(o) == LET w == Do(o, W) IN
           /\ w # None
           /\ wfs' = Append(wfs, w)
           /\ last' = [op |-> o.op, src |-> Len(wfs), o |-> o]
           /\ hist' = Append(hist, [o EXCEPT !.op = o.op] @@ [src |-> Len(wfs), post |-> w])
           /\ td' = (td \/ o.op = "td") /\ UNCHANGED bcs
AStep == /\ wfs # <<>> /\ Len(wfs) < MaxWf
         /\ \E o \in OpOf(W) :
            IF o.op # "done" THEN Take(o) /\ UNCHANGED fin
            ELSE IF fin = 0 /\ RandomElement(1..2) = 1 THEN (\E x \in Shuffle(W) : Take(x)) /\ fin' = 0
            ELSE IF fin < Len(W) THEN Take(Final(W, fin + 1)) /\ fin' = fin + 1
            ELSE IF RandomElement(1..12) = 1 /\ fin = Len(W) THEN (\E x \in Shuffle(W) : Take(x)) /\ fin' = fin + 1
            ELSE FALSE
Assemble == /\ wfs # <<>> /\ fin >= Len(W)
            /\ PrintT(<<"TR", ToJson(<<[op |-> "start", bc |-> bcs]>> \o hist \o <<[op |-> "mp", src |-> Len(wfs), td |-> td, sys |-> System(W, td, bcs)]>>)>>)
            /\ wfs' = <<>> /\ hist' = <<>> /\ fin' = 0 /\ td' = FALSE /\ bcs' = <<>> /\ last' = [op |-> "none"]
\* a formulation that is empty or too long is given up
Quit == /\ wfs # <<>> /\ (Len(wfs) >= MaxWf \/ \E q \in 1..Len(W) : NT(W[q]) = 0 \/ NT(W[q]) > 11)
        /\ wfs' = <<>> /\ hist' = <<>> /\ fin' = 0 /\ td' = FALSE /\ bcs' = <<>> /\ last' = [op |-> "none"]
ANext == ABegin \/ IF wfs # <<>> /\ (Len(wfs) >= MaxWf \/ \E q \in 1..Len(W) : NT(W[q]) = 0 \/ NT(W[q]) > 11) THEN Quit
                   ELSE IF wfs # <<>> /\ fin >= Len(W) THEN Assemble ELSE AStep
ASpec == AInit /\ [][ANext]_avars
=============================================================================
