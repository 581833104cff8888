------------------------------- MODULE DebugMC -------------------------------
\* Threads that call the system, trace, and then report the system's error code, against Debug.
\* The system keeps one last error per thread; everything tracing does overwrites it.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Calls,      \* how many calls each thread makes
          Preserve,            \* tracing saves and restores the last error
          Closes               \* a conversation that goes wrong closes its pipe
VARIABLES out,    \* what the system answers each call of each thread: 0, or an error
          n, pc,  \* per thread: which call, and where (call, trace, open, wait, send, close, restore, report, done)
          le,     \* per thread: last error
          saved,
          srv,    \* the trace server: absent, busy, ready, broken; it changes as it likes
          moves,  \* how often it still may
          seen,   \* per thread: what it has observably done
          talk, at
D == INSTANCE Debug
vars == <<out, n, pc, le, saved, srv, moves, seen, talk, at>>
Errs == {0, 5}
Junk == 9
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
\* what the thread would do untraced
Untraced(t) == Flat([i \in 1..Calls |-> IF out[t][i] = 0 THEN <<<<"call", i, 0>>>> ELSE <<<<"call", i, out[t][i]>>, <<"report", i, out[t][i]>>>>])
Init == /\ out \in [Threads -> [1..Calls -> Errs]] /\ n = [t \in Threads |-> 1] /\ pc = [t \in Threads |-> "call"] /\ le = [t \in Threads |-> 0] /\ saved = [t \in Threads |-> 0]
        /\ srv \in {"absent", "busy", "ready", "broken"} /\ moves = 2 /\ seen = [t \in Threads |-> <<>>] /\ talk = [t \in Threads |-> {}] /\ at = 1
To(t, p) == pc' = [pc EXCEPT ![t] = p]
Err(t, e) == le' = [le EXCEPT ![t] = e]
Do(t, x) == seen' = [seen EXCEPT ![t] = Append(@, x)]
Still == UNCHANGED <<out, srv, moves, at>>
Call(t) == /\ pc[t] = "call" /\ Do(t, <<"call", n[t], out[t][n[t]]>>) /\ Err(t, out[t][n[t]]) /\ To(t, "trace") /\ UNCHANGED <<n, saved, talk>> /\ Still
Begin(t) == /\ pc[t] = "trace" /\ saved' = [saved EXCEPT ![t] = le[t]] /\ To(t, "open") /\ UNCHANGED <<n, le, seen, talk>> /\ Still
Open(t) == /\ pc[t] = "open" /\ Err(t, Junk)
           /\ CASE srv \in {"ready", "broken"} -> D!MayOpen(t) /\ talk' = D!Put(t, D!Held(t) \cup {<<t, n[t]>>}) /\ To(t, "send")
                [] srv = "busy" -> To(t, "wait") /\ UNCHANGED talk
                [] OTHER -> To(t, "restore") /\ UNCHANGED talk
           /\ UNCHANGED <<n, saved, seen>> /\ Still
\* waiting lasts while the server is busy
Wait(t) == /\ pc[t] = "wait" /\ srv # "busy" /\ Err(t, Junk) /\ To(t, IF srv = "absent" THEN "restore" ELSE "open") /\ UNCHANGED <<n, saved, seen, talk>> /\ Still
Send(t) == /\ pc[t] = "send" /\ Err(t, Junk) /\ To(t, IF srv = "broken" /\ ~Closes THEN "restore" ELSE "close") /\ UNCHANGED <<n, saved, seen, talk>> /\ Still
Close(t) == /\ pc[t] = "close" /\ Err(t, Junk) /\ talk' = D!Put(t, D!Held(t) \ {<<t, n[t]>>}) /\ To(t, "restore") /\ UNCHANGED <<n, saved, seen>> /\ Still
Restore(t) == /\ pc[t] = "restore" /\ IF Preserve THEN Err(t, saved[t]) ELSE UNCHANGED le
              /\ To(t, "report") /\ UNCHANGED <<n, saved, seen, talk>> /\ Still
Report(t) == /\ pc[t] = "report" /\ IF out[t][n[t]] = 0 THEN UNCHANGED seen ELSE Do(t, <<"report", n[t], le[t]>>)
             /\ n' = [n EXCEPT ![t] = @ + 1] /\ To(t, IF n[t] = Calls THEN "done" ELSE "call") /\ UNCHANGED <<le, saved, talk>> /\ Still
Server == moves > 0 /\ moves' = moves - 1 /\ srv' \in {"absent", "busy", "ready", "broken"} /\ UNCHANGED <<out, n, pc, le, saved, seen, talk, at>>
Free == moves = 0 /\ srv = "busy" /\ srv' = "ready" /\ UNCHANGED <<out, n, pc, le, saved, moves, seen, talk, at>>
Go(t) == Call(t) \/ Begin(t) \/ Open(t) \/ Wait(t) \/ Send(t) \/ Close(t) \/ Restore(t) \/ Report(t)
Next == Server \/ Free \/ \E t \in Threads : Go(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Free) /\ WF_vars(Server) /\ \A t \in Threads : WF_vars(Go(t))
IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Same == \A t \in Threads : IsPrefix(seen[t], Untraced(t)) /\ (pc[t] = "done" => seen[t] = Untraced(t))
NoLeak == \A t \in Threads : pc[t] \notin {"send", "close"} => D!Silent(t)
Opens == \A t \in Threads : pc[t] = "open" => D!MayOpen(t)
\* tracing does not hold a thread up for ever
Ends == <>(\A t \in Threads : pc[t] = "done")
=============================================================================
