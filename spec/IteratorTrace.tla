---------------------------- MODULE IteratorTrace ----------------------------
(* Conformance of recorded histories of real processes with Iterator. *)
EXTENDS Iterator
Log == JsonDeserialize(IOEnv.PHV_TRACE)
VARIABLES tr, i, verdict, d      \* d: the file before the latest event
tvars == <<vars, tr, i, verdict, d>>

T == Log[tr]
Cached == T.pol # "nocache"
TCur == CutTo(T.plan, cut)
\* the answers that need no computation, from position k on
RECURSIVE Skip(_, _)
Skip(r, k) == IF ~Cached \/ ~k.chk \/ k.idx > Len(r) \/ Key(r, k.idx) \notin DOMAIN mem THEN k
              ELSE LET q == mem[Key(r, k.idx)] IN
                   Skip(r, [k EXCEPT !.idx = IF q.code = 1 THEN Len(r) + 1 ELSE @ + 1, !.rows = Append(@, q.row)])
Here(e) == IF e.run # run THEN [idx |-> 1, rows |-> <<Row0>>, chk |-> TRUE] ELSE [idx |-> idx, rows |-> rows, chk |-> chk]
Now == [run |-> run, idx |-> idx, chk |-> chk, rows |-> rows, s |-> s, mem |-> mem, live |-> live, disk |-> disk,
        ph |-> ph, cut |-> cut]
AfterSolve == ph = "solved"

\* one event: [c: verdict, and the new values]
Step(e) ==
  CASE e.op = "boot" ->
         [c |-> IF e.cnt \notin {disk.cnt, -1} THEN "the number of caches made so far is wrong in a new process" ELSE "ok",
          n |-> [run |-> 0, idx |-> 1, chk |-> TRUE, rows |-> <<>>, s |-> S0, mem |-> disk.mem, live |-> FALSE, disk |-> disk,
                 ph |-> "idle", cut |-> e.cut]]
    [] e.op = "solve" ->
         LET new == e.run # run
             r == TCur[e.run]
             z == Skip(r, Here(e))
             b == IF live \/ ~Cached THEN s ELSE disk.s
             c == IF new /\ e.run # run + 1 THEN "a run was skipped"
                  ELSE IF AfterSolve /\ T.pol = "each" THEN "the state was not cached although the caching time had passed"
                  ELSE IF z.idx > Len(r) THEN "an input whose result is known, or one after a stop, is computed"
                  ELSE IF e.v # r[z.idx] THEN "the solver is called with another input than the next unknown one"
                  ELSE IF e.s # b THEN "an input is computed from a state that is not the one its predecessors lead to"
                  ELSE "ok"
         IN IF c # "ok" THEN [c |-> c, n |-> Now]
            ELSE LET t == Solve(b, e.v)
                     q == Res(t, e.v, T.stop)
                 IN [c |-> c, n |-> [run |-> e.run, idx |-> IF q.code = 1 THEN Len(r) + 1 ELSE z.idx + 1, chk |-> FALSE,
                                     rows |-> Append(z.rows, q.row), s |-> t,
                                     mem |-> IF Cached THEN Put(mem, Key(r, z.idx), q) ELSE mem,
                                     live |-> TRUE, disk |-> disk, ph |-> "solved", cut |-> cut]]
    [] e.op = "encode" ->
         [c |-> IF ~AfterSolve THEN "the state is cached although nothing new was computed"
                ELSE IF T.pol = "never" THEN "the state is cached although the caching time is infinite"
                ELSE IF e.s # s THEN "the state is cached before or long after the solver has produced it"
                ELSE "ok",
          n |-> [Now EXCEPT !.disk = [mem |-> mem, s |-> s, cnt |-> disk.cnt + 1], !.ph = "idle"]]
    [] e.op = "crash" ->
         \* a death while the file was being made: the file is still the previous one
         [c |-> "ok",
          n |-> [Now EXCEPT !.disk = IF e.phase = "solve" THEN disk ELSE d, !.ph = "off"]]
    [] e.op = "runend" ->
         LET new == e.run # run
             r == TCur[e.run]
             z == Skip(r, Here(e))
             ref == Ref(TCur, e.run, T.stop, Cached)
             ahead == \E y \in DOMAIN mem : y \notin DOMAIN ref.mem
             want == IF live \/ ~Cached THEN s ELSE disk.s
             lastv == r[Len(ref.rows) - 1]
             c == IF new /\ e.run # run + 1 THEN "a run was skipped"
                  ELSE IF AfterSolve /\ T.pol = "each" THEN "the state was not cached although the caching time had passed"
                  ELSE IF z.idx <= Len(r) THEN "the run ended before all inputs were treated"
                  ELSE IF e.cols # <<"x", "n">> THEN "the results are not named as the solver documents them"
                  ELSE IF e.rows # ref.rows THEN "the results are not those of an uninterrupted execution"
                  ELSE IF e.code # (IF lastv = T.stop THEN 1 ELSE 0) THEN "the exit code is not that of the last input"
                  ELSE IF e.s # want \/ (~ahead /\ e.s # ref.s) THEN "the objects do not end in the state of an uninterrupted execution"
                  ELSE IF ~e.csv THEN "the saved table is not the results"
                  ELSE IF ~e.same THEN "the processes of one execution hold different states"
                  ELSE "ok"
         IN [c |-> c, n |-> [run |-> e.run, idx |-> 1, chk |-> TRUE, rows |-> rows, s |-> want, mem |-> mem, live |-> TRUE,
                             disk |-> disk, ph |-> "idle", cut |-> cut]]
    [] e.op = "exit" -> [c |-> IF run # Len(TCur) THEN "the process ended before all runs were made" ELSE "ok",
                         n |-> [Now EXCEPT !.ph = "off"]]
    [] OTHER -> [c |-> "the iterator failed: " \o e.why,
                 n |-> Now]

TInit == /\ tr \in 1..Len(Log) /\ i = 1 /\ verdict = "ok"
         /\ plan = <<>> /\ stop = -1 /\ pol = "" /\ style = "" /\ life = 0 /\ cut = 0 /\ on = FALSE
         /\ run = 0 /\ idx = 1 /\ chk = TRUE /\ rows = <<>> /\ s = S0 /\ mem = Empty /\ live = FALSE
         /\ disk = [mem |-> Empty, s |-> S0, cnt |-> 0] /\ d = disk /\ tmp = FALSE /\ ph = "off" /\ ncomp = 0 /\ hist = <<>>
TNext == /\ i <= Len(T.ev) /\ verdict = "ok"
         /\ \E st \in {Step(T.ev[i])} :
              /\ verdict' = st.c
              /\ run' = st.n.run /\ idx' = st.n.idx /\ chk' = st.n.chk /\ rows' = st.n.rows /\ s' = st.n.s /\ mem' = st.n.mem
              /\ live' = st.n.live /\ disk' = st.n.disk /\ ph' = st.n.ph /\ cut' = st.n.cut
              /\ d' = disk
              /\ (st.c # "ok" => PrintT(<<"BAD", ToJson([trace |-> tr, step |-> i, clause |-> st.c])>>))
              /\ ((st.c = "ok" /\ i = Len(T.ev)) => PrintT(<<"OKT", ToJson(tr)>>))
         /\ i' = i + 1
         /\ UNCHANGED <<plan, stop, pol, style, life, on, tmp, ncomp, hist, tr>>
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
