------------------------------- MODULE LifeMC -------------------------------
\* How the agent keeps the promises of Life: an event loop over overlapped pipes, with a screen that changes and clients that come, read, stall
\* and leave whenever they like.  Output is a sequence of units: positive numbers are what the application wrote, 0 and -1 switch mouse reporting
\* off and on; replies are numbers too.
EXTENDS Life
CONSTANTS N,          \* units the application writes on each screen
          Reqs,       \* requests the controlling client makes
          Cap,        \* units a pipe holds
          Chunk,      \* units written at a time
          Auto, Ex, Err,
          FreshCheck, Pending, Conn  \* parts of the design that can be left out (TRUE as it is): see the end
VARIABLES pc,         \* where the agent is in its loop
          app,        \* units written so far on each screen
          atExit,     \* and when the child exited
          mouse,      \* the application wants mouse input
          scraped,    \* units seen by the agent
          mon,        \* mouse reporting has been switched on
          closing, hand, latch,
          q, pend, size, os, got, known, hopen, \* queue, write in flight and its size, in the pipe, read; the agent knows of the client; has its handle
          creq        \* requests on their way
agent == <<pc, scraped, mon, closing, hand, latch>>
io == <<q, pend, size, os, got, known, hopen>>
vars == <<life, agent, io, app, atExit, mouse, creq>>
Data == IF Err THEN {"conout", "conerr"} ELSE {"conout"}
Pipes == Data \cup {"ctl"}
Init == /\ Init0(Err, FALSE)
        /\ pc = "ctl" /\ app = [p \in Data |-> 0] /\ atExit = [p \in Data |-> 0] /\ mouse = FALSE /\ scraped = [p \in Data |-> 0] /\ mon = FALSE
        /\ closing = FALSE /\ hand = FALSE /\ latch = TRUE
        /\ q = [p \in Pipes |-> <<>>] /\ pend = [p \in Pipes |-> <<>>] /\ size = [p \in Pipes |-> 0] /\ os = [p \in Pipes |-> <<>>] /\ got = [p \in Pipes |-> <<>>]
        /\ known = [p \in Pipes |-> p = "ctl"] /\ hopen = [p \in Pipes |-> TRUE] /\ creq = 0
Alive == pc # "done"
Here(p) == IF p = "ctl" THEN cli = "up" ELSE pipe[p] = "open"   \* the client is at the other end
\* ---------------------------------------------------------------- the world
AppWrites(p) == /\ Alive /\ kid # "none" /\ app[p] < N /\ app' = [app EXCEPT ![p] = @ + 1] /\ UNCHANGED <<life, agent, io, atExit, mouse, creq>>
AppMouse == Alive /\ kid = "up" /\ ~mouse /\ mouse' = TRUE /\ UNCHANGED <<life, agent, io, app, atExit, creq>>
ChildExits == kid = "up" /\ KidExits /\ atExit' = app /\ UNCHANGED <<agent, io, app, mouse, creq>>
Connects(p) == Alive /\ pipe[p] = "waiting" /\ Turn(p, "open") /\ UNCHANGED <<agent, io, app, atExit, mouse, creq>>
Leaves(p) == pipe[p] = "open" /\ Turn(p, "left") /\ UNCHANGED <<agent, io, app, atExit, mouse, creq>>
Reads(p) == os[p] # <<>> /\ (p = "ctl" => cli = "up") /\ (p # "ctl" => pipe[p] # "left") /\ got' = [got EXCEPT ![p] = Append(@, Head(os[p]))] /\ os' = [os EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED <<life, agent, q, pend, size, known, hopen, app, atExit, mouse, creq>>
Moves(p) == pend[p] # <<>> /\ hopen[p] /\ Here(p) /\ Len(os[p]) < Cap /\ os' = [os EXCEPT ![p] = Append(@, Head(pend[p]))] /\ pend' = [pend EXCEPT ![p] = Tail(@)]
            /\ UNCHANGED <<life, agent, q, size, got, known, hopen, app, atExit, mouse, creq>>
Asks == Alive /\ cli = "up" /\ Len(asked) < Reqs
        /\ asked' = Append(asked, [k |-> IF asked = <<>> THEN "spawn" ELSE "list", bad |-> FALSE, sp |-> 1, auto |-> Auto, ex |-> Ex])
        /\ creq' = creq + 1 /\ UNCHANGED <<ran, nrep, cli, pipe, kid, auto, ex, ending, agent, io, app, atExit, mouse>>
Vanishes == cli = "up" /\ Gone /\ UNCHANGED <<agent, io, app, atExit, mouse, creq>>
\* ---------------------------------------------------------------- the agent
ToSend(p) == Len(q[p]) + (IF Pending THEN size[p] ELSE 0)
\* one look at a pipe: finish the write in flight, begin the next.  A pipe whose other end is gone is closed when a write fails
Serve(p) ==
  IF ~hopen[p] THEN UNCHANGED io
  ELSE IF ~known[p] THEN known' = [known EXCEPT ![p] = Here(p) \/ pipe[p] = "left"] /\ UNCHANGED <<q, pend, size, os, got, hopen>>
  ELSE IF size[p] > 0 /\ pend[p] # <<>> /\ Here(p) THEN UNCHANGED io
  ELSE IF ~Here(p) /\ (size[p] > 0 \/ q[p] # <<>>)
       THEN hopen' = [hopen EXCEPT ![p] = FALSE] /\ size' = [size EXCEPT ![p] = 0] /\ pend' = [pend EXCEPT ![p] = <<>>] /\ UNCHANGED <<q, os, got, known>>
  ELSE LET n == IF Len(q[p]) < Chunk THEN Len(q[p]) ELSE Chunk IN
       /\ pend' = [pend EXCEPT ![p] = SubSeq(q[p], 1, n)] /\ size' = [size EXCEPT ![p] = n] /\ q' = [q EXCEPT ![p] = SubSeq(@, n + 1, Len(@))]
       /\ UNCHANGED <<os, got, known, hopen>>
\* end the outputs that have nothing left to send; then perhaps the session
CanClose(p) == hopen[p] /\ (Conn => known[p]) /\ ToSend(p) = 0
After(p) == closing /\ CanClose(p)
AutoClose == \* with the queues as they are now
  /\ hopen' = [p \in Pipes |-> hopen[p] /\ ~(p \in Data /\ After(p))]
  /\ pend' = [p \in Pipes |-> IF p \in Data /\ After(p) THEN <<>> ELSE pend[p]]
  /\ size' = [p \in Pipes |-> IF p \in Data /\ After(p) THEN 0 ELSE size[p]]
  /\ pipe' = [p \in {"conin", "conout", "conerr"} |-> IF p \in Data /\ After(p) /\ pipe[p] # "left" THEN "shut" ELSE pipe[p]]
  /\ IF closing /\ ex /\ \A p \in Data : (~hopen[p] \/ After(p))
     THEN pc' = "done" /\ ending' = ending + 1
     ELSE ending' = ending
NextPc == CASE pc = "ctl" -> "conout" [] pc = "conout" -> "close1" [] pc = "close1" -> (IF Err THEN "conerr" ELSE "p1") [] pc = "conerr" -> "close2" [] pc = "close2" -> "p1"
            [] pc = "p1" -> "p2" [] pc = "p2" -> "p3" [] pc = "p3" -> "p4" [] pc = "p4" -> "ctl"
\* control: replies out, requests in; the end of the client is the end of the session
Ctl == /\ pc = "ctl"
       /\ IF cli = "gone" THEN /\ pc' = "done" /\ End /\ UNCHANGED <<scraped, mon, closing, hand, latch, io, app, atExit, mouse, creq>>
          ELSE /\ Serve("ctl") /\ pc' = "ctl2" /\ UNCHANGED <<life, scraped, mon, closing, hand, latch, app, atExit, mouse, creq>>
Ctl2 == /\ pc = "ctl2" /\ pc' = "conout"
        /\ IF creq = 0 THEN UNCHANGED <<life, io, hand, creq>>
           ELSE /\ creq' = creq - 1 /\ nrep' = nrep + 1
                /\ q' = [q EXCEPT !["ctl"] = Append(@, nrep + 1)]
                /\ IF nrep = 0 THEN ran' = <<[ok |-> TRUE, err |-> 0]>> /\ kid' = "up" /\ auto' = Auto /\ ex' = Ex /\ hand' = TRUE
                   ELSE UNCHANGED <<ran, kid, auto, ex, hand>>
                /\ UNCHANGED <<asked, cli, pipe, ending, pend, size, os, got, known, hopen>>
        /\ UNCHANGED <<scraped, mon, closing, latch, app, atExit, mouse>>
Out(p) == /\ pc = p /\ pc' = (IF p = "conout" THEN "close1" ELSE "close2") /\ Serve(p) /\ UNCHANGED <<life, scraped, mon, closing, hand, latch, app, atExit, mouse, creq>>
Close == /\ pc \in {"close1", "close2", "p4"}
         /\ AutoClose /\ ((closing /\ ex /\ \A p \in Data : (~hopen[p] \/ After(p))) \/ pc' = NextPc)
         /\ UNCHANGED <<asked, ran, nrep, cli, kid, auto, ex, scraped, mon, closing, hand, latch, q, os, got, known, app, atExit, mouse, creq>>
\* the poll: whether to scrape is settled first, then whether the child has exited, then the screens are read
Poll1 == /\ pc = "p1" /\ pc' = "p2" /\ latch' = ~closing
         /\ IF auto /\ hand /\ kid = "exited" THEN closing' = TRUE /\ hand' = FALSE ELSE UNCHANGED <<closing, hand>>
         /\ UNCHANGED <<life, scraped, mon, io, app, atExit, mouse, creq>>
New(p) == [i \in 1..(app[p] - scraped[p]) |-> scraped[p] + i]
Poll2 == /\ pc = "p2" /\ pc' = "p3"
         /\ IF (IF FreshCheck THEN latch ELSE ~closing)
            THEN q' = [p \in Pipes |-> IF p \in Data THEN q[p] \o New(p) ELSE q[p]] /\ scraped' = app
            ELSE UNCHANGED <<q, scraped>>
         /\ UNCHANGED <<life, mon, closing, hand, latch, pend, size, os, got, known, hopen, app, atExit, mouse, creq>>
Poll3 == /\ pc = "p3" /\ pc' = "p4"
         /\ LET want == mouse /\ ~closing IN
            /\ mon' = want
            /\ q' = IF want = mon THEN q ELSE [q EXCEPT !["conout"] = Append(@, IF want THEN -1 ELSE 0)]
         /\ UNCHANGED <<life, scraped, closing, hand, latch, pend, size, os, got, known, hopen, app, atExit, mouse, creq>>
Agent == Ctl \/ Ctl2 \/ (\E p \in Data : Out(p)) \/ Close \/ Poll1 \/ Poll2 \/ Poll3
World == (\E p \in Data : AppWrites(p) \/ Connects(p) \/ Leaves(p)) \/ AppMouse \/ ChildExits \/ Asks \/ Vanishes
Flow == \E p \in Pipes : Reads(p) \/ Moves(p)
Next == Agent \/ World \/ Flow
Spec == Init /\ [][Next]_vars /\ WF_vars(Agent) /\ \A p \in Pipes : WF_vars(Reads(p)) /\ WF_vars(Moves(p))
\* ---------------------------------------------------------------- what is promised
\* P01: nothing is lost, doubled or reordered on the way
Made(p) == got[p] \o os[p] \o pend[p] \o q[p]
Positive(s) == SelectSeq(s, LAMBDA x : x > 0)
InOrder == \A p \in Pipes : Here(p) => LET m == Positive(Made(p)) IN \A i \in 1..Len(m) : m[i] = i
NoneLost == \A p \in Data : Here(p) => Len(Positive(Made(p))) = scraped[p]
\* C01: one reply each
Answers == cli = "up" => Len(Made("ctl")) = nrep /\ nrep <= Len(asked)
\* S01: what has been ended had everything, and leaves the terminal without mouse reporting
Complete == \A p \in Data : pipe[p] = "shut" =>
              LET m == got[p] \o os[p] IN
              /\ Len(Positive(m)) >= atExit[p]
              /\ \A i \in 1..Len(m) : m[i] = -1 => \E j \in (i + 1)..Len(m) : m[j] = 0
\* S02
Once == ending <= 1 /\ (ending = 1 => Over)
\* the guards of Life, step by step
Guards == [][/\ \A p \in Data : pipe[p] # "shut" /\ pipe'[p] = "shut" => MayShut(p)
             /\ ending' > ending => MayEnd \/ Over']_vars
Ended == (Over /\ Alive) ~> ending = 1
Delivers == \A p \in Data : (Closing /\ pipe[p] = "open") ~> (pipe[p] # "open" \/ ending = 1)
Answered == (nrep < Len(asked)) ~> (nrep = Len(asked) \/ cli = "gone" \/ ending = 1)
Reaches == \A n \in 1..Reqs : (Len(asked) >= n) ~> (Len(got["ctl"]) >= n \/ cli = "gone" \/ ending = 1)
=============================================================================
