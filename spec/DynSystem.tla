------------------------------ MODULE DynSystem ------------------------------
(* The linear system of a formulation, implemented and called at a time step.

   The symbolic system of AlgSystem is given values: constants, a time sequence t(k) = t0 + k/q, conditions on
   the two sections of the boundary.  Called for a step k (a time, when nothing was discretized in time) it is
   the sum, for every block, of  2 * sign * factor  times the chain of matrices and, on the right, the vector of
   the form at the instant of its term.  An essential condition takes the rows of its unknown on its section;
   the natural conditions on a form add up over the sections they are given on. *)
EXTENDS AlgSystem

\* ------------------------------------------------------------------ values
FacVal2(f, pl) == CASE f = "1" -> 2 [] f = "1/2" -> 1 [] f = "c" -> 2 * pl.c [] f = "e" -> 2 * pl.e [] f = "dt" -> 2 * pl.q
Inst2(i) == CASE i = "k" -> 0 [] i = "k-1/2" -> -1 [] i = "k-1" -> -2
\* 2 q times the time of a vector in step k
Time2(v, pl, k) == 2 * pl.q * pl.t0 + 2 * k + (IF v[1] = "at" THEN Inst2(v[3]) ELSE 0)
Coef2(x, pl) == (IF x[1] = "+" THEN 1 ELSE -1) * FacVal2(x[2], pl)
ConcA(S, pl) == [q \in 1..Len(S.A) |-> [j \in 1..Len(S.A[q]) |-> [m \in 1..Len(S.A[q][j]) |-> LET x == S.A[q][j][m] IN <<Coef2(x, pl), x[3]>>]]]
IsNat(x) == x[4][1] = "none"
ConcB(S, pl, k) == [q \in 1..Len(S.b) |-> [m \in 1..Len(S.b[q]) |-> LET x == S.b[q][m] IN
   IF IsNat(x) THEN <<Coef2(x, pl), <<>>, RootOf(x[3][1][2]), Time2(x[3][1][2], pl, k)>>
   ELSE <<Coef2(x, pl), x[3], RootOf(x[4]), Time2(x[4], pl, k)>>]]
Conc(S, pl, k) == [A |-> ConcA(S, pl), b |-> ConcB(S, pl, k), x |-> [j \in 1..Len(S.x) |-> <<RootOf(S.x[j]), Time2(S.x[j], pl, k)>>]]

\* ------------------------------------------------------------------ plans
Vecs(S) == Range(S.x) \cup UNION {{IF IsNat(S.b[q][m]) THEN S.b[q][m][3][1][2] ELSE S.b[q][m][4] : m \in 1..Len(S.b[q])} : q \in 1..Len(S.b)}
FacsOf(S) == UNION {{S.b[q][m][2] : m \in 1..Len(S.b[q])} : q \in 1..Len(S.b)} \cup UNION {UNION {{S.A[q][j][m][2] : m \in 1..Len(S.A[q][j])} : j \in 1..Len(S.A[q])} : q \in 1..Len(S.A)}
\* every vector is of the kind the call gives times to; every factor has a value
Callable(S, isTd) == (\A v \in Vecs(S) : (v[1] = "at") = isTd) /\ (\A f \in FacsOf(S) : f \in {"1", "1/2", "c", "e"} \cup IF isTd THEN {"dt"} ELSE {})
\* what the library cannot make: an equation or an unknown without a block, natural conditions in 3-d, wedge matrices other than of 0-forms in 2-d
Mats(S) == UNION {UNION {UNION {Range(S.A[q][j][m][3]) : m \in 1..Len(S.A[q][j])} : j \in 1..Len(S.A[q])} : q \in 1..Len(S.A)} \cup UNION {UNION {Range(S.b[q][m][3]) : m \in 1..Len(S.b[q])} : q \in 1..Len(S.b)}
Made(S) == /\ \A q \in 1..Len(S.A) : \E j \in 1..Len(S.A[q]) : S.A[q][j] # <<>>
           /\ \A j \in 1..Len(S.x) : \E q \in 1..Len(S.A) : S.A[q][j] # <<>>
           /\ (Conf.n = 2 \/ \A q \in 1..Len(S.b) : \A m \in 1..Len(S.b[q]) : ~IsNat(S.b[q][m]))
           /\ \A m \in Mats(S) : m[1] = "W" => Conf.n = 2 /\ m[2][1] = 0
NatRoots(w) == {RootOf(L(w, x[1], x[2]).chain[1][2]) : x \in {y \in Terms(w) : y[2] >= NL(w[y[1]]) /\ L(w, y[1], y[2]) # NoLin /\ L(w, y[1], y[2]).chain[1][1] = "B"}}
Once(w) == \A r \in NatRoots(w) : Cardinality(BAt(w, r)) = 1
\* row j is tested by the space of unknown j
Square(w) == Len(w) = Len(Conf.xs) /\ \A q \in 1..Len(w) : Sp(TestF(q)) = Conf.sp[Conf.xs[q]]
Sec == {"1", "2"}
EssC(w) == IF Square(w) THEN {<<s, <<"tr", x>> >> : s \in Sec, x \in {y \in Range(Conf.xs) : TrOk(y)}} ELSE {}
OtherC(w) == {<<s, <<"tr", x>> >> : s \in Sec, x \in {y \in Conf.root \ Range(Conf.xs) : TrOk(y)}}
NatSecs == {{"1"}, {"2"}, {"1", "2"}}
RECURSIVE SeqR(_)
SeqR(S) == IF S = {} THEN <<>> ELSE LET x == RandomElement(S) IN <<x>> \o SeqR(S \ {x})
Some(S, k) == {x \in S : RandomElement(1..k) = 1}
BcPlan(w) == IF Conf.per THEN <<>>
             ELSE SeqR(Some(EssC(w), 3) \cup Some(OtherC(w), 8) \cup UNION {{<<s, <<"trhs", r>> >> : s \in RandomElement(NatSecs)} : r \in NatRoots(w)})
Plan(z) == [c |-> RandomElement({1, 2, 3, -1}), e |-> RandomElement({1, -2, 5}), q |-> RandomElement({1, 2, 4}), t0 |-> RandomElement({0, 0, 3, -1}),
         lay |-> [i \in 1..Conf.n |-> IF Conf.n = 2 THEN RandomElement(1..3) ELSE IF i = z THEN 2 ELSE 1],
         deg |-> RandomElement(IF Conf.n = 2 THEN 1..2 ELSE {1}), warp |-> RandomElement(0..2) = 0,
         cover |-> [i \in 1..(2 * Conf.n) |-> RandomElement(0..1)],
         calls |-> [i \in 1..RandomElement(2..4) |-> [k |-> RandomElement(1..4), dat |-> RandomElement(0..3), solve |-> RandomElement(1..3) = 1]]]
Calls(S, pl) == [i \in 1..Len(pl.calls) |-> pl.calls[i] @@ [exp |-> Conc(S, pl, pl.calls[i].k)]]
DEmit == /\ wfs # <<>> /\ fin >= Len(W)
         /\ \E z \in {RandomElement(1..Conf.n)} : \E pl \in {Plan(z)} : \E bc \in {BcPlan(W)} : \E S \in {System(W, td, bc)} :
            IF S = None THEN TRUE
            ELSE IF ~Callable(S, td) \/ ~Made(S) THEN TRUE
            ELSE PrintT(<<"TR", ToJson(<<[op |-> "start", bc |-> bc]>> \o hist \o <<[op |-> "fem", src |-> Len(wfs), td |-> td, pl |-> pl, calls |-> Calls(S, pl)]>>)>>)
         /\ wfs' = <<>> /\ hist' = <<>> /\ fin' = 0 /\ td' = FALSE /\ bcs' = <<>> /\ last' = [op |-> "none"]
DNext == ABegin \/ IF wfs # <<>> /\ (Len(wfs) >= MaxWf \/ \E q \in 1..Len(W) : NT(W[q]) = 0 \/ NT(W[q]) > 11) THEN Quit
                   ELSE IF wfs # <<>> /\ fin >= Len(W) THEN DEmit ELSE AStep
DSpec == AInit /\ [][DNext]_avars
=============================================================================
