------------------------------- MODULE Iterator -------------------------------
(* An iterator drives a solver through one or more runs (sequences of inputs) and keeps, in a cache
   file, the results so far together with the state of the objects the solver works on.  The process
   may die anywhere -- in the solver, while the state is collected, while the file is written -- and
   a new process that makes the same runs has to end with the same results and the same state.

   plan  : the runs (sequences of inputs) every process of this history makes, or a prefix of them
   disk  : the cache file  [mem: key -> result, s: state of the objects, cnt: number of caches]
   s     : state of the objects in this process (solver: a deterministic function of s and the input)
   mem   : results this process knows
   live  : the objects have been brought to (or beyond) the cached state                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Toks, MaxLen, MaxLives, Pols, Styles, Phases, FixedPlans, Rec

VARIABLES plan, stop, pol, style, life, cut, on, run, idx, chk, rows, s, mem, live, disk, tmp, ph, ncomp, hist
vars == <<plan, stop, pol, style, life, cut, on, run, idx, chk, rows, s, mem, live, disk, tmp, ph, ncomp, hist>>

S0 == <<1, 0>>
Row0 == <<7, 8>>
Empty == [k \in {} |-> 0]
Put(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Solve(t, v) == <<(3 * t[1] + v + 1) % 101, t[2] + 1>>

Occ(r, i) == Cardinality({j \in 1..(i - 1) : r[j] = r[i]})
Key(r, i) == <<r[i], Occ(r, i)>>
Res(t, v, st) == [row |-> t, code |-> IF v = st THEN 1 ELSE 0]

\* the first n inputs of a plan
RECURSIVE CutTo(_, _)
CutTo(p, n) == IF p = <<>> \/ n <= 0 THEN <<>>
               ELSE <<SubSeq(p[1], 1, IF n < Len(p[1]) THEN n ELSE Len(p[1]))>> \o CutTo(Tail(p), n - Len(p[1]))
RECURSIVE Total(_)
Total(p) == IF p = <<>> THEN 0 ELSE Len(p[1]) + Total(Tail(p))

\* the uninterrupted execution ---------------------------------------------------------------
RECURSIVE RunFrom(_, _, _, _, _, _)
RunFrom(r, i, c, st, z, cached) ==      \* z = [s, mem, rows]
  IF i > Len(r) THEN z
  ELSE LET k == Key(r, i)
           hit == cached /\ c /\ k \in DOMAIN z.mem
           t == IF hit THEN z.s ELSE Solve(z.s, r[i])
           q == IF hit THEN z.mem[k] ELSE Res(t, r[i], st)
           y == [s |-> t, mem |-> IF cached /\ ~hit THEN Put(z.mem, k, q) ELSE z.mem, rows |-> Append(z.rows, q.row)]
       IN IF q.code = 1 THEN y ELSE RunFrom(r, i + 1, hit, st, y, cached)
RECURSIVE Ref(_, _, _, _)
Ref(p, n, st, cached) ==
  IF n = 0 THEN [s |-> S0, mem |-> Empty, rows |-> <<>>]
  ELSE LET z == Ref(p, n - 1, st, cached) IN RunFrom(p[n], 1, TRUE, st, [z EXCEPT !.rows = <<Row0>>], cached)

\* a plan whose later runs first repeat known inputs, if at all, and then bring new ones
Values(r) == {r[i] : i \in 1..Len(r)}

\* generation / exploration ------------------------------------------------------------------
RSeq(n, d) == TLCEval([i \in 1..n |-> RandomElement(Toks)])
Asc(a, n) == [i \in 1..n |-> a + i - 1]
Injective == {f \in [1..5 -> 0..6] : \A x, y \in 1..5 : x # y => f[x] # f[y]}
Shuffled(d) == RandomElement(Injective)
\* an interval of integers growing at both ends, now and then one number is left out for later
RECURSIVE Walk(_, _, _)
Walk(q, lo, hi) == IF Len(q) >= 7 THEN q
                   ELSE CASE RandomElement(1..5) = 1 -> Walk(q \o <<hi + 2, hi + 1>>, lo, hi + 2)
                          [] RandomElement(1..4) = 1 -> Walk(q \o <<lo - 2, lo - 1>>, lo - 2, hi)
                          [] RandomElement(1..2) = 1 -> Walk(Append(q, hi + 1), lo, hi + 1)
                          [] OTHER -> Walk(Append(q, lo - 1), lo - 1, hi)
Cont(n) == [i \in 1..n |-> 30 + i]
RandomPlan(d) ==
  LET r1 == CASE RandomElement(1..(IF style \in {"int", "neg"} THEN 2 ELSE 5)) = 1 -> Shuffled(d)
              [] style \in {"int", "neg"} /\ RandomElement(1..2) = 1 -> TLCEval(Walk(<<16>>, 16, 16))
              [] RandomElement(1..3) = 1 -> RSeq(RandomElement(2..MaxLen), d)
              [] OTHER -> Asc(RandomElement(0..3), RandomElement(2..MaxLen))
      j == RandomElement(1..4)
  IN CASE j = 1 -> <<r1, Cont(RandomElement(1..4))>>
       [] j = 2 -> <<r1, r1 \o Cont(RandomElement(1..2))>>
       [] OTHER -> <<r1>>

More == life < MaxLives
Init == /\ plan \in (IF Rec THEN {<<>>} ELSE FixedPlans) /\ stop \in (IF Rec THEN {-1} ELSE {-1, 2})
        /\ pol \in Pols /\ style \in (IF Rec THEN Styles ELSE {"int"})
        /\ life = 0 /\ cut = 0 /\ on = FALSE /\ run = 0 /\ idx = 0 /\ chk = FALSE /\ rows = <<>> /\ s = S0
        /\ mem = Empty /\ live = FALSE /\ disk = [mem |-> Empty, s |-> S0, cnt |-> 0]
        /\ tmp = FALSE /\ ph = "idle" /\ ncomp = 0 /\ hist = <<>>

Draw == /\ Rec /\ plan = <<>>
        /\ \E p \in {RandomPlan(life)} : plan' = p
        /\ \E p \in {RandomElement({-1, -2, -3, 3, 5})} : stop' = p
        /\ UNCHANGED <<pol, style, life, cut, on, run, idx, chk, rows, s, mem, live, disk, tmp, ph, ncomp, hist>>
Cur == CutTo(plan, cut)
Complete == hist # <<>> /\ hist[Len(hist)].phase = "none" /\ cut = Total(plan)
Boot == /\ ~on /\ More /\ plan # <<>>
        /\ (Rec /\ Complete) => \E z \in {RandomElement(1..4)} : z = 1
        /\ \E c \in (IF Rec THEN {IF life + 1 = MaxLives \/ RandomElement(1..3) > 1 THEN Total(plan) ELSE RandomElement(1..Total(plan))}
                     ELSE 1..Total(plan)) : cut' = c
        /\ on' = TRUE /\ life' = life + 1 /\ run' = 1 /\ idx' = 1 /\ chk' = TRUE /\ rows' = <<Row0>>
        /\ s' = S0 /\ mem' = disk.mem /\ live' = FALSE /\ ph' = "idle" /\ tmp' = FALSE /\ ncomp' = 0
        /\ UNCHANGED <<plan, stop, pol, style, disk, hist>>

InRun == on /\ ph = "idle" /\ run <= Len(Cur) /\ idx <= Len(Cur[run])
Hit == InRun /\ pol # "nocache" /\ chk /\ Key(Cur[run], idx) \in DOMAIN mem
Advance(q) == /\ rows' = Append(rows, q.row)
              /\ idx' = IF q.code = 1 THEN Len(Cur[run]) + 1 ELSE idx + 1
FromCache == /\ Hit
             /\ Advance(mem[Key(Cur[run], idx)])
             /\ UNCHANGED <<plan, stop, pol, style, life, cut, on, run, chk, s, mem, live, disk, tmp, ph, ncomp, hist>>
Compute == /\ InRun /\ ~Hit
           /\ LET k == Key(Cur[run], idx)
                  b == IF live \/ pol = "nocache" THEN s ELSE disk.s
                  t == Solve(b, Cur[run][idx])
                  q == Res(t, Cur[run][idx], stop)
              IN /\ s' = t /\ mem' = IF pol = "nocache" THEN mem ELSE Put(mem, k, q)
                 /\ Advance(q)
           /\ live' = TRUE /\ chk' = FALSE /\ ncomp' = ncomp + 1
           /\ ph' = CASE pol = "each" -> "encode" [] pol = "some" -> "maybe" [] OTHER -> "idle"
           /\ UNCHANGED <<plan, stop, pol, style, life, cut, on, run, disk, tmp, hist>>
Decide == /\ on /\ ph = "maybe" /\ ph' \in {"idle", "encode"}
          /\ UNCHANGED <<plan, stop, pol, style, life, cut, on, run, idx, chk, rows, s, mem, live, disk, tmp, ncomp, hist>>
WriteTmp == /\ on /\ ph = "encode" /\ ph' = "write" /\ tmp' = TRUE
            /\ UNCHANGED <<plan, stop, pol, style, life, cut, on, run, idx, chk, rows, s, mem, live, disk, ncomp, hist>>
Replace == /\ on /\ ph = "write" /\ ph' = "idle" /\ tmp' = FALSE
           /\ disk' = [mem |-> mem, s |-> s, cnt |-> disk.cnt + 1]
           /\ UNCHANGED <<plan, stop, pol, style, life, cut, on, run, idx, chk, rows, s, mem, live, ncomp, hist>>
\* everything came from the cache: the objects are still brought to the cached state
EndRun == /\ on /\ ph = "idle" /\ run <= Len(Cur) /\ idx > Len(Cur[run])
          /\ ph' = "ended"
          /\ IF live \/ pol = "nocache" THEN UNCHANGED <<s, live>> ELSE s' = disk.s /\ live' = TRUE
          /\ UNCHANGED <<plan, stop, pol, style, life, cut, on, run, idx, chk, rows, mem, disk, tmp, ncomp, hist>>
NextRun == /\ on /\ ph = "ended" /\ ph' = "idle" /\ run' = run + 1 /\ idx' = 1 /\ chk' = TRUE /\ rows' = <<Row0>>
           /\ UNCHANGED <<plan, stop, pol, style, life, cut, on, s, mem, live, disk, tmp, ncomp, hist>>
Note(p) == hist' = IF Rec THEN Append(hist, [cut |-> cut, at |-> ncomp, phase |-> p]) ELSE hist
Crash == /\ on /\ pol # "nocache" /\ More /\ run <= Len(Cur)
         /\ (~Rec \/ (ncomp > 0 /\ \E z \in {RandomElement(1..4)} : z = 1))
         /\ on' = FALSE
         /\ IF Rec THEN \E p \in {RandomElement(Phases)} : Note(p) ELSE UNCHANGED hist
         /\ UNCHANGED <<plan, stop, pol, style, life, cut, run, idx, chk, rows, s, mem, live, disk, tmp, ph, ncomp>>
Exit == /\ on /\ ph = "idle" /\ run > Len(Cur) /\ on' = FALSE
        /\ Note("none")
        /\ UNCHANGED <<plan, stop, pol, style, life, cut, run, idx, chk, rows, s, mem, live, disk, tmp, ph, ncomp>>
Flush == /\ Rec /\ ~on /\ life > 0 /\ (life = MaxLives \/ cut = Total(plan))
         /\ hist[Len(hist)].phase = "none"
         /\ PrintT(<<"TR", ToJson([plan |-> plan, stop |-> stop, pol |-> pol, style |-> style, lives |-> hist])>>)
         /\ UNCHANGED vars
Next == Draw \/ Boot \/ FromCache \/ Compute \/ Decide \/ WriteTmp \/ Replace \/ EndRun \/ NextRun \/ Crash \/ Exit \/ Flush
Spec == Init /\ [][Next]_vars

IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RefNow == Ref(Cur, run, stop, pol # "nocache")
\* whatever happened before, the results reported are those of the uninterrupted execution
SameResults == (on /\ run <= Len(Cur)) => IsPrefix(rows, RefNow.rows) /\ (ph = "ended" => rows = RefNow.rows)
\* and so is the state of the objects (unless an earlier process already went further than this one does)
Full == Ref(plan, Len(plan), stop, TRUE)
Ahead == \E k \in DOMAIN disk.mem : k \notin DOMAIN RefNow.mem
SameState == (on /\ ph = "ended" /\ ~Ahead) => s = RefNow.s
\* the cache file always is a state of the uninterrupted execution, with all results up to it
DiskGood == /\ disk.s[2] = Cardinality(DOMAIN disk.mem)
            /\ \A k \in DOMAIN disk.mem : k \in DOMAIN Full.mem /\ Full.mem[k] = disk.mem[k]
\* and is never lost
NeverLost == [][DOMAIN disk.mem \subseteq DOMAIN disk'.mem]_vars
=============================================================================
