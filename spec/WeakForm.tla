------------------------------ MODULE WeakForm ------------------------------
(* Weak formulations: a PDE is tested term by term, the weak formulation is derived (rearranged,
   integrated by parts, split, ...) and discretized in time; every step makes a new formulation and
   leaves all earlier ones as they were.

   A form is an expression tree <<op, args...>>, a term [c, f0, f1, fac] is fac * (f0, f1) (c = "ip")
   or fac * <f0|f1> (c = "dp"), an equation [l, r] holds sequences of <<sign, term>>.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Conf,      \* [n, per, tests: test spaces, cat: catalogue of forms per equation, root: root names]
          MaxTerms, Ops, MaxOps, MaxWf, TdMax, Rec

VARIABLES wfs, last, hist
vars == <<wfs, last, hist>>

F(op, e) == <<op, e>>
Flip(s) == IF s = "+" THEN "-" ELSE "+"
Times(s, t) == IF s = t THEN "+" ELSE "-"
Term(c, f0, f1, fac) == [c |-> c, f0 |-> f0, f1 |-> f1, fac |-> fac]
\* tuples are compared head first, so expressions of different shape are comparable
Same(x, y) == x = y
NEq == Len(Conf.tests)
TestF(q) == <<"t", ToString(q)>>
RECURSIVE Has(_, _)
Has(f, rt) == IF f[1] = "r" THEN f[2] = rt
              ELSE IF f[1] \in {"t", "at"} THEN FALSE
              ELSE IF f[1] \in {"plus", "minus", "x"} THEN Has(f[2], rt) \/ Has(f[3], rt)
              ELSE IF f[1] = "mul" THEN Has(f[3], rt) ELSE Has(f[2], rt)
RECURSIVE Subst(_, _, _)
Subst(f, rt, by) == IF f[1] = "r" THEN IF f[2] = rt THEN by ELSE f
                    ELSE IF f[1] \in {"t", "at"} THEN f
                    ELSE IF f[1] \in {"plus", "minus", "x"} THEN <<f[1], Subst(f[2], rt, by), Subst(f[3], rt, by)>>
                    ELSE IF f[1] = "mul" THEN <<"mul", f[2], Subst(f[3], rt, by)>>
                    ELSE IF f[1] \in {"sdiv", "ddt"} THEN [f EXCEPT ![2] = Subst(f[2], rt, by)]
                    ELSE <<f[1], Subst(f[2], rt, by)>>

\* ---------------------------------------------------------------- PDE -> weak formulation
Tested(q, f) == IF f[1] = "mul" THEN Term("ip", f[3], TestF(q), f[2]) ELSE Term("ip", f, TestF(q), "1")
TestSide(q, side) == [j \in 1..Len(side) |-> <<side[j][1], Tested(q, side[j][2])>>]
TestPde(p) == [q \in 1..Len(p) |-> [l |-> TestSide(q, p[q].l), r |-> TestSide(q, p[q].r)]]

\* ---------------------------------------------------------------- derivations of a weak formulation w
NL(e) == Len(e.l)
NT(e) == Len(e.l) + Len(e.r)
At(e, k) == IF k < NL(e) THEN e.l[k + 1] ELSE e.r[k - NL(e) + 1]
None == <<>>
Range(s) == {s[j] : j \in 1..Len(s)}
Valid(w, q, k) == q \in 1..Len(w) /\ k >= 0 /\ k < NT(w[q])

\* move terms: L (R) lists the old indices now on the left (right)
Rearr(w, q, L, R) ==
  IF q \notin 1..Len(w) THEN None
  ELSE LET e == w[q] n == NT(e)
           rest == [j \in 1..n |-> j - 1]
           Missing(S) == SelectSeq(rest, LAMBDA j : j \notin Range(S))
           L2 == IF L = <<>> /\ Len(R) < n THEN Missing(R) ELSE L
           R2 == IF R = <<>> /\ Len(L) < n THEN Missing(L) ELSE R
           all == L2 \o R2
           Mv(k, side) == LET x == At(e, k) IN IF (k < NL(e)) = (side = "l") THEN x ELSE <<Flip(x[1]), x[2]>>
       IN IF L = <<>> /\ R = <<>> THEN None
          ELSE IF Len(all) # n \/ Range(all) # Range(rest) THEN None
          ELSE [w EXCEPT ![q] = [l |-> [j \in 1..Len(L2) |-> Mv(L2[j], "l")], r |-> [j \in 1..Len(R2) |-> Mv(R2[j], "r")]]]

Switch(w, rows) == IF \E q \in Range(rows) : q \notin 1..Len(w) THEN None
                   ELSE [q \in 1..Len(w) |-> IF q \notin Range(rows) THEN w[q]
                          ELSE [l |-> [j \in 1..Len(w[q].l) |-> <<Flip(w[q].l[j][1]), w[q].l[j][2]>>],
                                r |-> [j \in 1..Len(w[q].r) |-> <<Flip(w[q].r[j][1]), w[q].r[j][2]>>]]]

\* replace the term at k by the signed terms new (their signs multiply the sign of the old term)
Put(w, q, k, new) ==
  LET e == w[q]  s == At(e, k)[1]
      ins == [j \in 1..Len(new) |-> <<Times(s, new[j][1]), new[j][2]>>]
      Cut(side, m) == SubSeq(side, 1, m - 1) \o ins \o SubSeq(side, m + 1, Len(side))
  IN [w EXCEPT ![q] = IF k < NL(e) THEN [e EXCEPT !.l = Cut(e.l, k + 1)] ELSE [e EXCEPT !.r = Cut(e.r, k - NL(e) + 1)]]

IbpOf(t, drop) ==
  IF t.c # "ip" \/ t.f0[1] # "cd" THEN None
  ELSE LET x == t.f0[2]
           bulk == <<"+", Term("ip", x, F("d", t.f1), t.fac)>>
       IN IF Conf.per \/ drop THEN <<bulk>>
          ELSE <<bulk, <<"-", Term("dp", F("tr", F("hs", x)), F("tr", t.f1), t.fac)>> >>
Ibp(w, q, k, drop) == LET x == IbpOf(At(w[q], k)[2], drop) IN IF x = None THEN None ELSE Put(w, q, k, x)

DualOf(t) == IF t.c # "ip" THEN None
             ELSE IF t.f0[1] = "hs" THEN << <<"+", Term("dp", t.f0[2], t.f1, t.fac)>> >>
             ELSE IF t.f1[1] = "hs" THEN << <<"+", Term("dp", t.f0, t.f1[2], t.fac)>> >> ELSE None
Dual(w, q, k) == LET x == DualOf(At(w[q], k)[2]) IN IF x = None THEN None ELSE Put(w, q, k, x)

\* (A, BxC) = (B, CxA) = (C, AxB) and antisymmetry; p is the new order of A, B, C (the lone one first)
Even == { <<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>> }
Perms == Even \cup { <<1, 3, 2>>, <<2, 1, 3>>, <<3, 2, 1>> }
CommOf(t, cur, p, side) ==
  LET lone == IF cur = "l" THEN t.f1 ELSE t.f0      \* cur: the side the cross product is on
      cr == IF cur = "l" THEN t.f0 ELSE t.f1
  IN IF cr[1] # "x" THEN None
     ELSE LET abc == <<lone, cr[2], cr[3]>>
              y == abc[p[1]]  z == <<"x", abc[p[2]], abc[p[3]]>>
          IN << <<IF p \in Even THEN "+" ELSE "-", IF side = "r" THEN Term(t.c, y, z, t.fac) ELSE Term(t.c, z, y, t.fac)>> >>
Comm(w, q, k, cur, p, side) == LET x == CommOf(At(w[q], k)[2], cur, p, side) IN IF x = None THEN None ELSE Put(w, q, k, x)

Split(w, q, k, f, into, signs, facs) ==
  LET t == At(w[q], k)[2]
  IN Put(w, q, k, [j \in 1..Len(into) |-> <<signs[j], IF f = "f0" THEN Term(t.c, into[j], t.f1, facs[j]) ELSE Term(t.c, t.f0, into[j], facs[j])>>])

\* ---------------------------------------------------------------- temporal discretization
RECURSIVE Sum(_)
Sum(s) == IF Len(s) = 1 THEN s[1] ELSE <<"plus", Sum(SubSeq(s, 1, Len(s) - 1)), s[Len(s)]>>
Avg(rt, inst) == LET at == [j \in 1..Len(inst) |-> <<"at", <<"r", rt>>, inst[j]>>]
                 IN IF Len(inst) = 1 THEN at[1] ELSE <<"sdiv", Sum(at), ToString(Len(inst))>>
TdStep(w, i) ==
  IF w = None \/ ~Valid(w, i.q, i.k) THEN None
  ELSE LET t == At(w[i.q], i.k)[2]  s == At(w[i.q], i.k)[1] IN
    IF i.kind = "diff" THEN
       IF t.f0[1] # "pt" \/ t.c # "ip" THEN None
       ELSE LET b == t.f0[2] IN
            Put(w, i.q, i.k, << <<"+", Term("ip", <<"ddt", <<"minus", <<"at", b, i.inst[2]>>, <<"at", b, i.inst[1]>> >>, i.inst[1] \o "," \o i.inst[2]>>, t.f1, t.fac)>> >>)
    ELSE LET by == Avg(i.f, i.inst) IN
         Put(w, i.q, i.k, << <<"+", [t EXCEPT !.f0 = Subst(t.f0, i.f, by), !.f1 = Subst(t.f1, i.f, by)]>> >>)
RECURSIVE Td(_, _)
Td(w, ins) == IF ins = <<>> THEN w ELSE Td(TdStep(w, Head(ins)), Tail(ins))

Do(o, w) ==
  CASE o.op = "rearr" -> Rearr(w, o.q, o.l, o.r)
    [] o.op = "switch" -> Switch(w, o.rows)
    [] o.op = "delete" -> IF Valid(w, o.q, o.k) THEN Put(w, o.q, o.k, <<>>) ELSE None
    [] o.op = "replace" -> IF Valid(w, o.q, o.k) THEN Put(w, o.q, o.k, o.new) ELSE None
    [] o.op = "split" -> IF Valid(w, o.q, o.k) THEN Split(w, o.q, o.k, o.f, o.into, o.signs, o.facs) ELSE None
    [] o.op = "ibp" -> IF Valid(w, o.q, o.k) THEN Ibp(w, o.q, o.k, o.drop) ELSE None
    [] o.op = "dual" -> IF Valid(w, o.q, o.k) THEN Dual(w, o.q, o.k) ELSE None
    [] o.op = "comm" -> IF Valid(w, o.q, o.k) THEN Comm(w, o.q, o.k, o.cur, o.p, o.side) ELSE None
    [] o.op = "td" -> Td(w, o.ins)

\* ---------------------------------------------------------------- behaviours
Pick(X) == IF Rec THEN {RandomElement(X)} ELSE X
Signs == {"+", "-"}
LongSides(q, w) == { [j \in 1..m |-> <<RandomElement(Signs), RandomElement(Conf.cat[q])>>] : m \in {MaxTerms - 1, MaxTerms} }
Sides(q) == IF MaxTerms > 2 THEN LongSides(q, wfs) ELSE {<<>>} \cup { << <<s, f>> >> : s \in Signs, f \in Conf.cat[q] }
            \cup (IF MaxTerms < 2 THEN {} ELSE { << <<s, f>>, <<u, g>> >> : s \in Signs, u \in Signs, f \in Conf.cat[q], g \in Conf.cat[q] })
\* the first term of equation q is its core term: every unknown occurs
FirstSide(q) == { << <<s, Conf.core[q]>> >> \o x : s \in Signs, x \in Pick(Sides(q)) }
Pde1(q, h) == [l : Pick(FirstSide(q)), r : Pick(Sides(q))]
Pdes(h) == IF NEq = 1 THEN { <<x>> : x \in Pde1(1, h) } ELSE IF NEq = 2 THEN { <<x, y>> : x \in Pde1(1, h), y \in Pde1(2, h) }
        ELSE { <<x, y, z>> : x \in Pde1(1, h), y \in Pde1(2, h), z \in Pde1(3, h) }
Init == wfs = <<>> /\ last = [op |-> "none"] /\ hist = <<>>
Begin == /\ wfs = <<>>
         /\ \E p \in Pick(Pdes(hist)) : /\ wfs' = << TestPde(p) >>
                                  /\ last' = [op |-> "pde", src |-> 0]
                                  /\ hist' = IF Rec THEN << [op |-> "pde", src |-> 0, pde |-> p] >> ELSE hist

\* a rearrangement: a shuffled sequence cut at two points (wrong ones now and then)
Shuf(n) == IF n <= 4 THEN {f \in [1..n -> 0..(n - 1)] : Cardinality(Range(f)) = n}
           ELSE LET prm == {f \in [1..4 -> 0..3] : Cardinality(Range(f)) = 4}
                IN {[j \in 1..n |-> (IF (j - 1) < 4 THEN f[j] ELSE j - 1 + 0)] : f \in prm} \cup {[j \in 1..n |-> n - j], [j \in 1..n |-> (j + 2) % n]}
Term1(w) == LET QK == UNION {{<<q, k>> : k \in 0..(NT(w[q]) - 1)} : q \in 1..Len(w)} IN QK
BadQK == {<<1, 9>>, <<Len(Conf.tests) + 1, 0>>}
\* the space of a term's forms, up to what the catalogue offers: the forms of equation q
Facs == {"1", "c", "e", "1/2", "dt"}
RearrQ(w, q) == LET n == NT(w[q]) IN
                {[op |-> "rearr", q |-> q, l |-> SubSeq(x, 1, mh[1]), r |-> SubSeq(x, mh[1] + 1, mh[2])]
                 : x \in Pick(Shuf(n)), mh \in Pick({y \in (0..n) \X (0..n) : y[2] = n \/ y[2] = y[1]})}
SwitchOps(w) == {[op |-> "switch", rows |-> x] : x \in {<<1>>, <<Len(w)>>, <<1, Len(w)>>, <<Len(w) + 1>>}}
Idx(w) == IF Rec /\ RandomElement(1..12) = 1 THEN BadQK ELSE Term1(w)
InEq(q) == IF q \in 1..NEq THEN Conf.cat[q] ELSE Conf.cat[1]
EqRoots(q) == {f \in InEq(q) : f[1] # "mul"}
SplitOps(w) == {[op |-> "split", q |-> x[1], k |-> x[2], f |-> "f0", into |-> <<a, b>>, signs |-> <<s, u>>, facs |-> <<fa, fb>>]
                  : x \in {y \in Pick(Idx(w)) : Valid(w, y[1], y[2]) /\ At(w[y[1]], y[2])[2].c = "ip" /\ Same(At(w[y[1]], y[2])[2].f1, TestF(y[1]))},
                    a \in Pick(EqRoots(1)), b \in Pick(EqRoots(1)), s \in Pick(Signs), u \in Pick(Signs), fa \in Pick(Facs), fb \in Pick(Facs)}
SplitOf(w) == UNION {{[o EXCEPT !.into = <<a, b>>] : a \in Pick(EqRoots(o.q)), b \in Pick(EqRoots(o.q))} : o \in SplitOps(w)}
ReplaceOps(w) == UNION {{[op |-> "replace", q |-> x[1], k |-> x[2], new |-> [j \in 1..n |-> <<IF j = 1 THEN s ELSE u, Term("ip", IF j = 1 THEN a ELSE b, TestF(x[1]), fa)>>]]
                  : a \in Pick(EqRoots(x[1])), b \in Pick(EqRoots(x[1])), s \in Pick(Signs), u \in Pick(Signs), fa \in Pick({"1", "c"}), n \in 1..2} : x \in {y \in Pick(Idx(w)) : Valid(w, y[1], y[2])}}
Insts == {"k-1", "k-1/2", "k"}
Chain(X) == {<<a>> : a \in X} \cup {<<a, b>> : a \in X, b \in X} \cup {<<a, b, e>> : a \in {"k-1"}, b \in {"k-1/2"}, e \in {"k"}}
Ins1(w) == {[kind |-> "diff", q |-> x[1], k |-> x[2], f |-> "", inst |-> <<a, b>>] : x \in Pick(Idx(w)), a \in Pick({"k-1", "k-1/2"}), b \in Pick({"k", "k-1/2"})}
           \cup {[kind |-> "avg", q |-> x[1], k |-> x[2], f |-> f, inst |-> i] : x \in Pick(Idx(w)), f \in Conf.root, i \in Pick(Chain(Insts))}
PtTerms(w) == {x \in Term1(w) : At(w[x[1]], x[2])[2].f0[1] = "pt"}
\* differentiate (some of) the time derivatives, then average some forms in some terms
TdOps(w) ==
  LET df == {[kind |-> "diff", q |-> x[1], k |-> x[2], f |-> "", inst |-> ab] : x \in PtTerms(w), ab \in {<<"k-1", "k">>, <<"k-1/2", "k">>, <<"k-1", "k-1/2">>}}
      av == {[kind |-> "avg", q |-> x[1], k |-> x[2], f |-> f, inst |-> i] : x \in Term1(w), f \in Conf.root, i \in Chain(Insts)}
  IN {[op |-> "td", ins |-> d \o a \o b] : d \in Pick({<<>>} \cup {<<x>> : x \in df} \cup {<<x, y>> : x \in df, y \in df}),
                                           a \in Pick({<<x>> : x \in av}), b \in Pick({<<>>} \cup {<<x>> : x \in av})}
     \cup {[op |-> "td", ins |-> <<x>>] : x \in Ins1(w)}
OneDiff(o) == o.op # "td" \/ \A x \in 1..Len(o.ins), y \in 1..Len(o.ins) :
                (x # y /\ o.ins[x].kind = "diff" /\ o.ins[y].kind = "diff") => (o.ins[x].q # o.ins[y].q \/ o.ins[x].k # o.ins[y].k)
Cands(op, w) ==
  CASE op = "rearr" -> UNION {RearrQ(w, q) : q \in Pick(1..Len(w))} \cup (IF Rec /\ RandomElement(1..10) > 1 THEN {} ELSE {[op |-> "rearr", q |-> 1, l |-> <<0, 0>>, r |-> <<1>>], [op |-> "rearr", q |-> Len(w) + 1, l |-> <<0>>, r |-> <<1>>]})
    [] op = "switch" -> SwitchOps(w)
    [] op = "delete" -> {[op |-> "delete", q |-> x[1], k |-> x[2]] : x \in Pick(Idx(w))}
    [] op = "replace" -> ReplaceOps(w)
    [] op = "split" -> SplitOf(w)
    [] op = "ibp" -> {[op |-> "ibp", q |-> x[1], k |-> x[2], drop |-> dr] : x \in Pick(IF Rec /\ RandomElement(1..4) > 1 THEN {y \in Term1(w) : At(w[y[1]], y[2])[2].f0[1] = "cd"} \cup {CHOOSE z \in Idx(w) : TRUE} ELSE Idx(w)), dr \in {FALSE, TRUE}}
    [] op = "dual" -> {[op |-> "dual", q |-> x[1], k |-> x[2]] : x \in Pick(IF Rec THEN {y \in Term1(w) : At(w[y[1]], y[2])[2].f0[1] = "hs"} \cup {CHOOSE z \in Idx(w) : TRUE} ELSE Idx(w))}
    [] op = "comm" -> {[op |-> "comm", q |-> x[1], k |-> x[2], cur |-> cu, p |-> p, side |-> sd]
                        : x \in Pick(IF Rec THEN {y \in Term1(w) : "x" \in {At(w[y[1]], y[2])[2].f0[1], At(w[y[1]], y[2])[2].f1[1]}} \cup {CHOOSE z \in Idx(w) : TRUE} ELSE Idx(w)),
                          cu \in {"l", "r"}, p \in Perms, sd \in {"l", "r"}}
    [] op = "td" -> {o \in TdOps(w) : OneDiff(o)}
Live == {j \in 1..Len(wfs) : wfs[j] # None /\ \E q \in 1..Len(wfs[j]) : NT(wfs[j][q]) > 0}
Small(w) == w = None \/ \A q \in 1..Len(w) : NT(w[q]) <= (IF MaxTerms > 2 THEN 2 * MaxTerms + 3 ELSE 7)
Step == /\ wfs # <<>> /\ Len(wfs) < MaxWf
        /\ \E op \in Pick(Ops) : \E j \in Pick(Live) : \E o \in Pick(Cands(op, wfs[j])) :
             LET w == Do(o, wfs[j]) IN
             /\ Small(w)
             /\ wfs' = Append(wfs, w)
             /\ last' = [op |-> o.op, src |-> j, o |-> o]
             /\ hist' = IF Rec THEN Append(hist, [o EXCEPT !.op = o.op] @@ [src |-> j, post |-> w]) ELSE hist
Flush == Rec /\ Len(wfs) = MaxWf /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
Next == Begin \/ Step \/ Flush
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------- what a formulation means
\* every term as a signed sum of canonical terms
Parity(x, y) == CHOOSE p \in Perms : \A j \in 1..3 : Same(x[p[j]], y[j])
CanonX(t, lone, cr) ==
  LET abc == <<lone, cr[2], cr[3]>>
      key == CHOOSE f \in [1..3 -> Range(abc)] : Range(f) = Range(abc)
  IN IF Cardinality(Range(abc)) < 3 THEN <<>>
     ELSE << <<IF Parity(abc, key) \in Even THEN "+" ELSE "-", ToString(<<t.c, "triple", key, t.fac>>)>> >>
Canon(t) == IF t.c = "ip" /\ t.f0[1] = "cd" /\ ~Conf.per
            THEN << <<"+", ToString(Term("ip", t.f0[2], F("d", t.f1), t.fac))>>, <<"-", ToString(Term("dp", F("tr", F("hs", t.f0[2])), F("tr", t.f1), t.fac))>> >>
            ELSE IF t.c = "ip" /\ t.f0[1] = "cd" THEN << <<"+", ToString(Term("ip", t.f0[2], F("d", t.f1), t.fac))>> >>
            ELSE IF DualOf(t) # None THEN << <<"+", ToString(DualOf(t)[1][2])>> >>
            ELSE IF t.f0[1] = "x" THEN CanonX(t, t.f1, t.f0) ELSE IF t.f1[1] = "x" THEN CanonX(t, t.f0, t.f1)
            ELSE << <<"+", ToString(t)>> >>
Bag(e) == [j \in 1..NT(e) |-> LET x == At(e, j - 1) IN <<IF j - 1 < NL(e) THEN x[1] ELSE Flip(x[1]), Canon(x[2])>>]
Keys(b) == UNION {{b[j][2][m][2] : m \in 1..Len(b[j][2])} : j \in 1..Len(b)}
Count(b, key) == LET P(s) == Cardinality({jm \in (1..Len(b)) \X (1..3) : jm[2] <= Len(b[jm[1]][2]) /\ b[jm[1]][2][jm[2]][2] = key /\ Times(b[jm[1]][1], b[jm[1]][2][jm[2]][1]) = s})
                 IN P("+") - P("-")
Equal(e, f) == LET a == Bag(e) b == Bag(f) IN \A key \in Keys(a) \cup Keys(b) : Count(a, key) = Count(b, key)
Opposite(e, f) == LET a == Bag(e) b == Bag(f) IN \A key \in Keys(a) \cup Keys(b) : Count(a, key) = -Count(b, key)
\* rearranging, integrating by parts, commuting and passing to duality keep the meaning; switching negates it
Meaning == [][LET l == last' IN
              (l.op \in {"rearr", "ibp", "comm", "dual", "switch"} /\ wfs'[Len(wfs')] # None) =>
                LET w == wfs[l.src] v == wfs'[Len(wfs')] IN
                /\ (l.op \in {"rearr", "comm", "dual"} \/ (l.op = "ibp" /\ ~l.o.drop)) => \A q \in 1..NEq : Equal(w[q], v[q])
                /\ l.op = "switch" => \A q \in 1..NEq : IF q \in Range(l.o.rows) THEN Opposite(w[q], v[q]) ELSE w[q] = v[q]]_vars
\* an equation that is not touched stays as it is, and earlier formulations never change
Local == [][LET l == last' IN
            /\ \A j \in 1..Len(wfs) : wfs'[j] = wfs[j]
            /\ (l.op \in {"rearr", "delete", "replace", "split", "ibp", "comm", "dual"} /\ wfs'[Len(wfs')] # None) =>
                 \A q \in 1..NEq : q # l.o.q => wfs'[Len(wfs')][q] = wfs[l.src][q]]_vars
=============================================================================
