------------------------------- MODULE Cochain -------------------------------
(* The cochain store of a discrete form: a finite map from time instants to local
   coefficient arrays.  A base form owns the store; a form made at an abstract time
   instant (f @ ts['k']) is a view of its base's store.

   store   : function, stored time -> value id
   auto    : 0 = automatic cleaning off, n >= 2 = keep (at least) the n newest,
             1 = the default setting (amount chosen by the implementation, at least 2)
   locked  : the store refuses new values

   Cleaning is deliberately loose (only what a user may rely on): an automatic clean
   happens, if at all, before a Set; it may drop only stored times older than the
   newest KeepNewest(auto) ones.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Times,      \* time instants (integers; the driver scales them and adds sub-1e-9 noise)
          Vals,       \* value ids
          Autos,      \* values of the automatic-cleaning setting
          Features,   \* subset of {"lock","cleanT","cleanAll","interp","set2"}
          MaxOps,     \* length of generated behaviours
          Rec         \* TRUE: remember the operations (generation), FALSE: explore

VARIABLES store, auto, locked, hist
vars == <<store, auto, locked, hist>>

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Empty == [t \in {} |-> 0]
RECURSIVE NewestN(_, _)
NewestN(S, n) == IF n <= 0 \/ S = {} THEN {} ELSE {Max(S)} \cup NewestN(S \ {Max(S)}, n - 1)
Restrict(f, S) == [t \in S |-> f[t]]
Put(f, t, v) == [x \in DOMAIN f \cup {t} |-> IF x = t THEN v ELSE f[x]]
Newest(f) == IF DOMAIN f = {} THEN -1 ELSE Max(DOMAIN f)

Keep(a) == IF a = 1 THEN 2 ELSE a
Capacity(a) == IF a = 1 THEN 1000 ELSE 2 * a + 1

\* what may remain, besides t, after "set t" under setting a
LegalKeep(f, t, a) ==
  IF a = 0 THEN {DOMAIN f \ {t}}
  ELSE {K \in {{x \in DOMAIN f \ {t} : x >= c} : c \in DOMAIN f \cup {Newest(f) + 1}} :
          /\ (NewestN(DOMAIN f, Keep(a) - 1) \ {t}) \subseteq K
          /\ Cardinality(K) + 1 <= Capacity(a)}

\* predicates on (old store, new store) --------------------------------------------------
SetOK(f, g, t, v, a) == /\ t \in DOMAIN g /\ g[t] = v
                        /\ DOMAIN g \subseteq (DOMAIN f \cup {t})
                        /\ \A x \in DOMAIN g \ {t} : g[x] = f[x]
                        /\ NewestN(DOMAIN f, IF a = 0 THEN Cardinality(DOMAIN f) ELSE Keep(a) - 1)
                              \subseteq DOMAIN g
                        /\ \A x \in DOMAIN g \ {t} : \A y \in DOMAIN f \ {t} : y > x => y \in DOMAIN g
                        /\ a # 0 => Cardinality(DOMAIN g) <= Capacity(a)
CleanNewestOf(f) == IF DOMAIN f = {} THEN f ELSE Restrict(f, {Max(DOMAIN f)})
CleanKeep(f, n) == Restrict(f, NewestN(DOMAIN f, n))

\* generation / exploration --------------------------------------------------------------
Op(o) == hist' = IF Rec THEN Append(hist, o) ELSE hist
More == Len(hist) < MaxOps

Init == store = Empty /\ auto \in Autos /\ locked = FALSE
        /\ hist = IF Rec THEN <<[op |-> "auto", n |-> auto]>> ELSE <<>>

Set(t, v, via) == /\ More
                  /\ Op([op |-> "set", t |-> t, v |-> v, via |-> via])
                  /\ IF locked THEN UNCHANGED store
                     ELSE \E K \in LegalKeep(store, t, auto) : store' = Put(Restrict(store, K), t, v)
                  /\ UNCHANGED <<auto, locked>>
CleanNewest == /\ "setonly" \notin Features /\ More /\ Op([op |-> "cleanNewest"])
               /\ store' = CleanNewestOf(store)
               /\ UNCHANGED <<auto, locked>>
CleanN(n) == /\ "setonly" \notin Features /\ More /\ Op([op |-> "cleanN", n |-> n])
             /\ store' = CleanKeep(store, n)
             /\ UNCHANGED <<auto, locked>>
CleanT(t) == /\ "cleanT" \in Features /\ More /\ Op([op |-> "cleanT", t |-> t])
             /\ store' = Restrict(store, DOMAIN store \ {t})
             /\ UNCHANGED <<auto, locked>>
CleanAll == /\ "cleanAll" \in Features /\ More /\ Op([op |-> "cleanAll"])
            /\ store' = Empty /\ UNCHANGED <<auto, locked>>
SetAuto(a) == /\ "setonly" \notin Features /\ More /\ a # auto /\ Op([op |-> "auto", n |-> a])
              /\ auto' = a /\ UNCHANGED <<store, locked>>
Lock(b) == /\ "lock" \in Features /\ More /\ b # locked /\ Op([op |-> "lock", b |-> b])
           /\ locked' = b /\ UNCHANGED <<store, auto>>
Interp(t2) == /\ "interp" \in Features /\ More /\ Op([op |-> "interp", t2 |-> t2])
              /\ UNCHANGED <<store, auto, locked>>

Vias == {"cochain", "copy", "ati", "realtime"}
\* generation draws one candidate per kind of step (sets are the most frequent)
Pick(X) == IF Rec THEN {RandomElement(X)} ELSE X
Flush == Rec /\ Len(hist) = MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
Next == \/ \E j \in 1..(IF Rec THEN 5 ELSE 1) :
             \E t \in Pick(Times) : \E v \in Pick(Vals) : \E via \in Pick(Vias) : Set(t, v, via)
        \/ \E n \in Pick(1..3) : CleanN(n)
        \/ CleanNewest \/ CleanAll
        \/ \E t \in Pick(Times) : CleanT(t)
        \/ \E a \in Pick(Autos) : SetAuto(a)
        \/ \E b \in BOOLEAN : Lock(b)
        \/ \E t2 \in Pick((2 * Min(Times))..(2 * Max(Times))) : Interp(t2)
        \/ \E t2 \in Pick((2 * Min(Times))..(2 * Max(Times))) : Interp(t2)
        \/ Flush
Spec == Init /\ [][Next]_vars

TypeOK == /\ DOMAIN store \subseteq Times
          /\ \A t \in DOMAIN store : store[t] \in Vals
\* the permissive step used for conformance admits every step of the generator
SetConforms == [][ (Rec /\ Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "set" /\ ~locked)
                    => SetOK(store, store', hist'[Len(hist')].t, hist'[Len(hist')].v, auto)]_vars
\* a Set is never lost and never disturbs another stored time; no other action changes a value
NoDisturb == [][\A t \in (DOMAIN store) \cap (DOMAIN store') :
                   store'[t] = store[t] \/ (\E v \in Vals : store'[t] = v /\ ~locked)]_vars
NewestSurvives == [][ (DOMAIN store # {} /\ Len(hist') >= 0 /\ DOMAIN store' # {} )
                       => Newest(store') >= Newest(store)
                          \/ ("cleanT" \in Features) \/ ("cleanAll" \in Features)]_vars

=============================================================================
