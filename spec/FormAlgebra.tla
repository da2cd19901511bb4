---------------------------- MODULE FormAlgebra ----------------------------
(* The algebra of abstract forms: which space the result of every operator lives in, when an
   operator must be refused, and which expression a form stands for.

   A space is [kind, k, ori, lvl]: kind of form, degree, orientation and the mesh it is on
   (lvl 0: the mesh, 1: its boundary).  A form in the pool carries its space and its value as a
   signed sum of opaque terms (enough to say when two expressions denote the same thing).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS N, M,        \* mesh / embedding dimension
          Kinds,       \* kinds of root spaces
          Ops,         \* operators used
          OneSpace,    \* all roots in the same space
          Roots,       \* number of root forms made first
          MaxOps, Rec

VARIABLES pool, hist
vars == <<pool, hist>>

Refused == [kind |-> "refused", k |-> 0, ori |-> "", lvl |-> 0]
\* not implemented today; refusing is fine, and so is any result obeying AnyOK
Open(p) == [kind |-> "open", k |-> 0, ori |-> p, lvl |-> 0]

Dim(s) == N - s.lvl
S(kind, k, ori, lvl) == [kind |-> kind, k |-> k, ori |-> ori, lvl |-> lvl]
Opp(o) == CASE o = "inner" -> "outer" [] o = "outer" -> "inner" [] OTHER -> "unknown"
Graded == {"Lambda", "bundle"}

D(s) == IF s.kind \in Graded THEN IF s.k < Dim(s) THEN S(s.kind, s.k + 1, s.ori, s.lvl) ELSE Refused ELSE Refused
Codiff(s) == IF s.kind \in Graded /\ s.k > 0 THEN S(s.kind, s.k - 1, s.ori, s.lvl) ELSE Refused
Hodge(s) == IF s.kind \in Graded THEN S(s.kind, Dim(s) - s.k, Opp(s.ori), s.lvl) ELSE Refused
Trace(s) == IF s.kind = "Lambda" /\ s.lvl = 0 /\ s.k < Dim(s) THEN S("Lambda", s.k, s.ori, 1) ELSE Refused
Wedge(s, t) == IF s.lvl # t.lvl \/ s.kind # t.kind \/ s.kind \notin Graded THEN Refused
               ELSE IF s.k + t.k > Dim(s) THEN Refused
               ELSE S(s.kind, s.k + t.k, IF s.ori = t.ori THEN s.ori ELSE "unknown", s.lvl)

\* what the form stands for in vector calculus
Proxy(s) == IF s.kind # "Lambda" \/ s.lvl # 0 \/ N # M THEN "?"
            ELSE IF N = 2 THEN IF s.k = 1 THEN "vector" ELSE "scalar"
            ELSE IF N = 3 THEN IF s.k \in {1, 2} THEN "vector" ELSE "scalar" ELSE "?"
CrossProxy(s, t) ==
  IF N = 2 THEN CASE Proxy(s) = "scalar" /\ Proxy(t) = "vector" -> "vector"
                  [] Proxy(s) = "vector" /\ Proxy(t) = "scalar" -> "vector"
                  [] Proxy(s) = "vector" /\ Proxy(t) = "vector" -> "scalar"
                  [] OTHER -> "none"
  ELSE IF Proxy(s) = "vector" /\ Proxy(t) = "vector" THEN "vector" ELSE "none"

\* the branches of the cross product; <<k1, o1, k2, o2>> -> <<k, o>>
i == "inner"  o == "outer"
Cross2 == { <<0,o,1,i, 1,i>>, <<0,o,1,o, 1,o>>, <<2,i,1,o, 1,o>>, <<1,i,1,i, 0,o>>, <<1,o,1,o, 0,o>>,
            <<2,i,1,i, 1,i>>, <<1,o,1,i, 2,i>>, <<1,i,1,o, 0,o>> }
Cross3 == { <<1,o,1,i, 1,i>>, <<2,i,2,o, 2,o>>, <<1,o,2,o, 2,o>>, <<2,i,1,i, 1,i>>, <<2,o,1,i, 2,i>>, <<2,o,2,o, 1,o>> }
CCross2 == { <<0,o,1,i, 1,o>>, <<1,o,1,i, 0,o>> }
CCross3 == { <<1,o,2,o, 1,o>>, <<1,o,1,i, 2,o>>, <<2,o,1,i, 1,o>>, <<2,i,2,o, 2,i>> }
XCross3 == { <<1,o,1,i, 1,o>> }
Table(op) == IF op = "cross" THEN IF N = 2 THEN Cross2 ELSE IF N = 3 THEN Cross3 ELSE {}
             ELSE IF op = "Cross" THEN IF N = 2 THEN CCross2 ELSE IF N = 3 THEN CCross3 ELSE {}
             ELSE IF op = "xCross" THEN IF N = 3 THEN XCross3 ELSE {} ELSE {}
CrossT(op, s, t) ==
  IF s.lvl # t.lvl THEN Refused
  ELSE IF s.lvl # 0 \/ s.kind # "Lambda" \/ t.kind # "Lambda" \/ N # M THEN Open("?")
  ELSE LET row == {r \in Table(op) : r[1] = s.k /\ r[2] = s.ori /\ r[3] = t.k /\ r[4] = t.ori}
       IN IF row = {} THEN Open(CrossProxy(s, t))
          ELSE LET r == CHOOSE r \in row : TRUE IN S("Lambda", r[5], r[6], 0)

Convect(s, t) ==
  IF s.lvl # t.lvl THEN Refused
  ELSE IF s.lvl # 0 \/ s.kind # "Lambda" \/ t.kind # "Lambda" \/ N # M THEN Open("?")
  ELSE IF N = 2 /\ s.k = 1 /\ t.k = 1 /\ s.ori = i /\ t.ori = i THEN s
  ELSE IF N = 2 /\ s.k = 1 /\ t.k = 0 /\ s.ori = o /\ t.ori = i THEN t
  ELSE Open(IF Proxy(s) = "vector" THEN Proxy(t) ELSE "none")

Tensor(s, t) ==
  IF s.lvl # t.lvl THEN Refused
  ELSE IF s.kind = "bundle" /\ t.kind = "bundle" /\ s.lvl = 0 /\ N = 2 /\ M = 2 /\ s.k = 0 /\ t.k = 0 /\ s.ori = i /\ t.ori = i
       THEN S("bundle", 1, i, 0) ELSE Open("?")

Unary == {"d", "codiff", "hodge", "trace", "ddt", "smul", "cmul", "abmul", "sdiv", "log", "at"}
Binary == {"wedge", "tensor", "cross", "Cross", "xCross", "crossx", "convect", "plus", "minus", "project", "multi"}

Type(op, s, t) ==
  CASE op = "d" -> D(s) [] op = "codiff" -> Codiff(s) [] op = "hodge" -> Hodge(s) [] op = "trace" -> Trace(s)
    [] op \in {"ddt", "smul", "cmul", "abmul", "sdiv", "log"} -> s
    [] op = "wedge" -> Wedge(s, t) [] op = "tensor" -> Tensor(s, t)
    [] op \in {"cross", "Cross", "xCross", "crossx"} -> CrossT(op, s, t)
    [] op = "convect" -> Convect(s, t)
    [] op \in {"plus", "minus"} -> IF s = t THEN s ELSE Refused
    [] op = "project" -> IF s = t THEN Refused ELSE t
    [] op = "multi" -> t
    [] OTHER -> Refused

\* value of an expression: a signed sum of opaque terms -----------------------------------
Flip(ts) == [j \in 1..Len(ts) |-> <<IF ts[j][1] = "+" THEN "-" ELSE "+", ts[j][2]>>]
Value(op, x, y) ==
  CASE op = "plus" -> x.val \o y.val
    [] op = "minus" -> x.val \o Flip(y.val)
    [] op \in Unary -> << <<"+", op \o "(" \o ToString(x.val) \o ")">> >>
    [] OTHER -> << <<"+", op \o "(" \o ToString(x.val) \o "|" \o ToString(y.val) \o ")">> >>
Leaves(op, x, y) == IF op \in Binary \ {"project"} THEN x.leaves \cup y.leaves ELSE x.leaves

Entry(op, x, y) ==
  LET t == IF x.t = Refused \/ (op \in Binary /\ y.t = Refused) THEN Refused
           ELSE IF op = "at" THEN IF x.root THEN x.t ELSE Refused ELSE Type(op, x.t, y.t)
      yy == IF op = "project" THEN x ELSE y
  IN [t |-> t, val |-> Value(op, x, yy), leaves |-> Leaves(op, x, y), root |-> op = "at", at |-> x.at \/ y.at \/ op = "at"]
RootEntry(n, s) == [t |-> s, val |-> << <<"+", "r" \o ToString(n)>> >>, leaves |-> {n}, root |-> TRUE, at |-> FALSE]

\* generation --------------------------------------------------------------------------------
RootSpaces == {S(kd, k, or, 0) : kd \in Kinds, k \in 0..N, or \in {i, o}}
Usable == {j \in 1..Len(pool) : pool[j].t.kind \notin {"refused", "open"} /\ Len(ToString(pool[j].val)) < (IF OneSpace THEN 120 ELSE 400)}
\* generation draws one candidate per kind of step, exploration takes them all
Pick(X) == IF Rec THEN {RandomElement(X)} ELSE X
Init == pool = <<>> /\ hist = <<>>
MakeRoot == /\ Len(pool) < Roots
            /\ \E s \in Pick(IF OneSpace /\ pool # <<>> THEN {pool[1].t} ELSE RootSpaces) : /\ pool' = Append(pool, RootEntry(Len(pool) + 1, s))
                                     /\ hist' = IF Rec THEN Append(hist, [op |-> "root", kind |-> s.kind, k |-> s.k, ori |-> s.ori, a |-> 0, b |-> 0]) ELSE hist
Apply(op, a, b) == /\ Len(pool) >= Roots /\ Len(pool) < MaxOps
                   /\ pool' = Append(pool, Entry(op, pool[a], pool[b]))
                   /\ hist' = IF Rec THEN Append(hist, [op |-> op, a |-> a, b |-> b]) ELSE hist
\* operands in the same space make sums, products and pairings likely to be defined
Mates(a) == IF Rec /\ RandomElement(1..3) = 1 THEN {b \in Usable : pool[b].t = pool[a].t} ELSE Usable
Flush == Rec /\ Len(pool) = MaxOps /\ PrintT(<<"TR", ToJson(hist)>>) /\ UNCHANGED vars
Next == \/ MakeRoot
        \/ Len(pool) >= Roots /\ \E op \in Pick(Unary \cap Ops) : \E a \in Pick(Usable) : Apply(op, a, a)
        \/ Len(pool) >= Roots /\ \E op \in Pick(Binary \cap Ops) : \E a \in Pick(Usable) : \E b \in Pick(Mates(a)) : Apply(op, a, b)
        \/ Flush
Spec == Init /\ [][Next]_vars

\* laws of the algebra (design) ------------------------------------------------------------
Legal(s) == s.kind \in {"refused", "open"} \/ (s.k \in 0..Dim(s) /\ s.lvl \in {0, 1} /\ s.ori \in {"inner", "outer", "unknown"})
AllSpaces == {S(kd, k, or, l) : kd \in Kinds, k \in 0..N, or \in {i, o, "unknown"}, l \in {0, 1}}
Real == {s \in AllSpaces : Legal(s)}
TypeOK == \A j \in 1..Len(pool) : Legal(pool[j].t)
Laws == /\ \A s \in Real : Hodge(s).kind \in Graded => Hodge(Hodge(s)) = s
        /\ \A s \in Real : D(s) # Refused => Codiff(D(s)) = s
        /\ \A s \in Real : (s.lvl = 0 /\ s.kind = "Lambda" /\ s.k + 1 < N) => Trace(D(s)) = D(Trace(s))
        /\ \A s \in Real : (D(s) # Refused) => Hodge(D(s)) = Codiff(Hodge(s))
        /\ \A s \in Real, t \in Real : Wedge(s, t) = Wedge(t, s)
        /\ \A s \in Real, t \in Real : (Wedge(s, t) # Refused /\ D(Wedge(s, t)) # Refused /\ D(s) # Refused)
                                        => Wedge(D(s), t) = D(Wedge(s, t))
        /\ \A op \in {"cross", "Cross", "xCross"} : \A r \in Table(op) :
              LET x == S("Lambda", r[1], r[2], 0)  y == S("Lambda", r[3], r[4], 0)  z == S("Lambda", r[5], r[6], 0)
              IN N = M => (Legal(z) /\ Proxy(z) = CrossProxy(x, y))
=============================================================================
