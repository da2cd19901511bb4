------------------------------ MODULE TimeSeq ------------------------------
(* Abstract time sequences: instants and intervals named by expressions in a counter k, given a
   meaning by the specific sequence the abstract one is specified to.  Times are rationals <<p, q>>.

   Constant sequence: equal steps of length dt, `factor` sub-instants per step, valid on the sub-instants
   of [0, kmax] and within one step of margin on both sides.
   Function sequence: every request ahead of the newest known step makes exactly one new step; an
   instant once made never moves; between two steps time is linear.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NSeq, Specs, Keys, KVals, MaxOps, Rec
(* Specs: specific sequences, [kind, t0, tm, n, factor, steps, si] ;  Keys: [a, p, q] meaning a*k + p/q *)

VARIABLES sp, steps, inst, ivl, last, hist
vars == <<sp, steps, inst, ivl, last, hist>>

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Norm(p, q) == LET g == GCD(Abs(p), Abs(q)) s == IF q < 0 THEN -1 ELSE 1 IN <<s * (p \div g), s * (q \div g)>>
R(p) == <<p, 1>>
Add(x, y) == Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Sub(x, y) == Norm(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
Mul(x, y) == Norm(x[1] * y[1], x[2] * y[2])
Div(x, y) == Norm(x[1] * y[2], x[2] * y[1])
Lt(x, y) == x[1] * y[2] < y[1] * x[2]
Le(x, y) == x[1] * y[2] <= y[1] * x[2]
IsInt(x) == x[2] = 1

None == [kind |-> "none"]
Err == <<"error">>
Edge == <<"edge">>     \* exactly one step outside the range: accepted or refused

Dt(c) == Norm((c.tm - c.t0) * c.factor, c.n)
KMax(c) == c.n \div c.factor
\* the meaning of t[k] for a constant sequence
Const(c, k) == IF ~IsInt(Mul(k, R(c.factor))) \/ Lt(k, R(-1)) \/ Lt(R(KMax(c) + 1), k) THEN Err
               ELSE Add(R(c.t0), Mul(k, Dt(c)))
OnEdge(c, k) == k = R(-1) \/ k = R(KMax(c) + 1)
\* a function sequence knows the times st = <<t0, t1, ...>> of the steps 0, si, 2 si, ...
Newest(c, st) == Mul(R(Len(st) - 1), c.si)
Grow(c, st, k) == IF Lt(Newest(c, st), k) THEN Append(st, Add(st[Len(st)], R(c.steps[((Len(st) - 1) % Len(c.steps)) + 1]))) ELSE st
Func(c, st, k) == IF Lt(k, R(0)) \/ Lt(Newest(c, st), k) THEN Err
                  ELSE LET x == Div(k, c.si) j == x[1] \div x[2] r == Sub(x, R(j))
                       IN IF r = R(0) THEN st[j + 1] ELSE Add(st[j + 1], Mul(r, Sub(st[j + 2], st[j + 1])))
After(s, k) == IF sp[s].kind = "function" THEN Grow(sp[s], steps[s], k) ELSE steps[s]
Time(s, st, k) == IF sp[s].kind = "none" THEN Err
                  ELSE IF sp[s].kind = "constant" THEN Const(sp[s], k) ELSE Func(sp[s], st, k)
Value(key, k) == Add(Mul(R(key.a), k), Norm(key.p, key.q))

\* ------------------------------------------------------------------ actions
Log(e) == hist' = IF Rec THEN Append(hist, e) ELSE hist
Specify(s, c) == /\ sp' = [sp EXCEPT ![s] = IF @.kind = "none" THEN c ELSE @]
                 /\ steps' = [steps EXCEPT ![s] = IF sp[s].kind = "none" THEN << R(c.t0) >> ELSE @]
                 /\ last' = [res |-> IF sp[s].kind = "none" THEN <<"ok">> ELSE Err]
                 /\ UNCHANGED <<inst, ivl>>
Instant(s, key) == /\ inst' = Append(inst, [s |-> s, key |-> key])
                   /\ last' = [res |-> <<"ok">>] /\ UNCHANGED <<sp, steps, ivl>>
\* an interval names two instants of one sequence
Interval(a, b) == /\ LET ok == inst[a].s = inst[b].s
                     IN /\ ivl' = Append(ivl, IF ok THEN [s |-> inst[a].s, a |-> inst[a].key, b |-> inst[b].key]
                                                 ELSE [s |-> 0, a |-> inst[a].key, b |-> inst[b].key])
                        /\ last' = [res |-> IF ok THEN <<"ok">> ELSE Err]
                  /\ UNCHANGED <<sp, steps, inst>>
At(s, k) == LET st == After(s, k) IN
            /\ steps' = [steps EXCEPT ![s] = st]
            /\ last' = [res |-> Time(s, st, k)]
            /\ UNCHANGED <<sp, inst, ivl>>
Eval(a, k) == At(inst[a].s, Value(inst[a].key, k))
EvalI(v, k) == IF ivl[v].s = 0 THEN last' = [res |-> Err] /\ UNCHANGED <<sp, steps, inst, ivl>>
               ELSE LET s == ivl[v].s
                        ka == Value(ivl[v].a, k)  kb == Value(ivl[v].b, k)
                        st1 == After(s, ka)  ta == Time(s, st1, ka)
                        st2 == IF ta = Err THEN st1 ELSE IF sp[s].kind = "function" THEN Grow(sp[s], st1, kb) ELSE st1
                        tb == Time(s, st2, kb)
                    IN /\ steps' = [steps EXCEPT ![s] = st2]
                       /\ last' = [res |-> IF ta = Err \/ tb = Err \/ ~Lt(ta, tb) THEN Err ELSE Sub(tb, ta)]
                       /\ UNCHANGED <<sp, inst, ivl>>

Pick(X) == IF Rec THEN {RandomElement(X)} ELSE X
Init == /\ sp = [s \in 1..NSeq |-> None] /\ steps = [s \in 1..NSeq |-> <<>>]
        /\ inst = <<>> /\ ivl = <<>> /\ last = [res |-> <<"ok">>] /\ hist = <<>>
Room == Rec => Len(hist) < MaxOps
Next == \/ Room /\ \E s \in Pick(1..NSeq), c \in Pick(Specs) : (sp[s].kind = "none" \/ (Rec /\ RandomElement(1..4) = 1)) /\ Specify(s, c) /\ Log([op |-> "specify", s |-> s, c |-> c])
        \/ Room /\ Len(inst) < (IF Rec THEN 12 ELSE 2) /\ \E s \in Pick(1..NSeq), key \in Pick(Keys) : Instant(s, key) /\ Log([op |-> "instant", s |-> s, key |-> key])
        \/ Room /\ inst # <<>> /\ Len(ivl) < (IF Rec THEN 12 ELSE 1) /\ \E a \in Pick(1..Len(inst)), b \in Pick(1..Len(inst)) : Interval(a, b) /\ Log([op |-> "interval", a |-> a, b |-> b])
        \/ Room /\ inst # <<>> /\ \E a \in Pick(1..Len(inst)), k \in Pick(KVals) : Eval(a, k) /\ Log([op |-> "eval", a |-> a, k |-> k])
        \/ Room /\ ivl # <<>> /\ \E v \in Pick(1..Len(ivl)), k \in Pick(KVals) : EvalI(v, k) /\ Log([op |-> "evali", v |-> v, k |-> k])
        \/ Rec /\ Len(hist) = MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Small == \A s \in 1..NSeq : Len(steps[s]) <= 4

\* ------------------------------------------------------------------ properties
Increasing == \A s \in 1..NSeq : \A j \in 1..(Len(steps[s]) - 1) : Lt(steps[s][j], steps[s][j + 1])
\* an instant once known never moves
Stable == [][\A s \in 1..NSeq, k \in KVals : LET x == Time(s, steps[s], k) IN
               x # Err => (sp'[s] = sp[s] /\ (IF sp[s].kind = "constant" THEN Const(sp[s], k) = x ELSE Func(sp[s], steps'[s], k) = x))]_vars
Monotone == \A s \in 1..NSeq, j \in KVals, k \in KVals :
               (Lt(j, k) /\ Time(s, steps[s], j) # Err /\ Time(s, steps[s], k) # Err) => Lt(Time(s, steps[s], j), Time(s, steps[s], k))
SpecifiedOnce == [][\A s \in 1..NSeq : sp[s].kind # "none" => sp'[s] = sp[s]]_vars
=============================================================================
