-------------------------------- MODULE Life --------------------------------
\* The life of a session as its pipes show it: requests and replies, the data pipes, the child, the end.
EXTENDS Integers, Sequences, FiniteSets
VARIABLES asked,     \* requests completely received so far, in order
          ran,       \* what became of the spawn requests acted on, in order: [ok, err]
          nrep,      \* replies given
          cli,       \* the controlling client: "up", "gone"
          pipe,      \* data pipes: "none", "waiting" (for its client), "open", "left" (by its client), "shut" (by the agent)
          kid,       \* the spawned process: "none", "up", "exited"
          auto, ex,  \* how the spawn was flagged
          ending     \* how often the console was asked to close
life == <<asked, ran, nrep, cli, pipe, kid, auto, ex, ending>>
Outs == {p \in {"conout", "conerr"} : pipe[p] # "none"}
Init0(err, in) == /\ asked = <<>> /\ ran = <<>> /\ nrep = 0 /\ cli = "up" /\ kid = "none" /\ auto = FALSE /\ ex = FALSE /\ ending = 0
                  /\ pipe = [p \in {"conin", "conout", "conerr"} |-> IF (p = "conerr" /\ ~err) \/ (p = "conin" /\ ~in) THEN "none" ELSE "waiting"]
\* ---------------------------------------------------------------- what may and what has to happen
BadAt(n) == n > 0 /\ asked[n].bad              \* a malformed one among the first n
Broken == BadAt(Len(asked))
Closing == auto /\ kid = "exited"                               \* output is to be ended
MayShut(p) == Closing /\ pipe[p] = "open"                       \* not before its client has connected
Finished == \A p \in Outs : pipe[p] \in {"left", "shut"}
Over == cli = "gone" \/ Broken \/ (Closing /\ ex /\ Finished)   \* the session is over
MayEnd == Over /\ ending = 0                                    \* once
\* the spawn request to act on next (0: none): requests are acted on in order, so none after a malformed one
Spawns(n) == IF n = 0 THEN 0 ELSE asked[n].sp  \* spawn requests among the first n
NextSpawn == IF Spawns(Len(asked)) <= Len(ran) THEN 0 ELSE CHOOSE i \in 1..Len(asked) : asked[i].k = "spawn" /\ asked[i].sp = Len(ran) + 1
MayRun == NextSpawn > 0 /\ ~BadAt(NextSpawn - 1)
MayReply == nrep < Len(asked) /\ ~BadAt(nrep + 1) /\ (asked[nrep + 1].k = "spawn" => asked[nrep + 1].sp <= Len(ran))
\* ---------------------------------------------------------------- what happens
Ask(r) == asked' = (IF r.k = "unknown" THEN asked ELSE Append(asked, [r EXCEPT !.bad = (r.k = "bad") \/ BadAt(Len(asked)), !.sp = Spawns(Len(asked)) + (IF r.k = "spawn" THEN 1 ELSE 0)])) /\ UNCHANGED <<ran, nrep, cli, pipe, kid, auto, ex, ending>>
Run(res) == /\ ran' = Append(ran, res)
            /\ IF res.ok /\ NextSpawn > 0 THEN kid' = "up" /\ auto' = asked[NextSpawn].auto /\ ex' = asked[NextSpawn].ex ELSE UNCHANGED <<kid, auto, ex>>
            /\ UNCHANGED <<asked, nrep, cli, pipe, ending>>
Reply == nrep' = nrep + 1 /\ UNCHANGED <<asked, ran, cli, pipe, kid, auto, ex, ending>>
Gone == cli' = "gone" /\ UNCHANGED <<asked, ran, nrep, pipe, kid, auto, ex, ending>>
Turn(p, s) == pipe' = [pipe EXCEPT ![p] = s] /\ UNCHANGED <<asked, ran, nrep, cli, kid, auto, ex, ending>>
KidExits == kid' = (IF kid = "up" THEN "exited" ELSE kid) /\ UNCHANGED <<asked, ran, nrep, cli, pipe, auto, ex, ending>>
End == ending' = ending + 1 /\ UNCHANGED <<asked, ran, nrep, cli, pipe, kid, auto, ex>>
=============================================================================
