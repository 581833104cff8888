------------------------------ MODULE AdapterMC ------------------------------
\* How the adapter keeps the promises of Adapter: a main thread that sleeps until it is woken, one thread per direction, wake-up pipes that
\* remember being set, a signal handler, and a session and a user that do what they like.
EXTENDS Adapter
CONSTANTS N,         \* bytes typed, bytes written by the session
          Sizes,     \* changes of the terminal's size
          ResetFirst, CompletedFirst, Armed, Joins   \* parts of the design that can be left out (TRUE as it is)
VARIABLES m, i, o,   \* where the threads are
          wake, iwake, doneI, doneO, stopI,
          ibuf, obuf, conin, conout,  \* bytes in hand, and in the pipes
          size, looked, heard, \* the terminal's size, the last one seen, the signal handler is there
          nin, nout, gone, bad \* how much was typed and written; the session has left; the terminal takes nothing more
threads == <<m, i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard>>
world == <<conin, conout, size, nin, nout, gone, bad>>
vars == <<relay, threads, world>>
Init == /\ Init0 /\ m = "ask" /\ i = "none" /\ o = "none" /\ wake = FALSE /\ iwake = FALSE /\ doneI = FALSE /\ doneO = FALSE /\ stopI = FALSE
        /\ ibuf = <<>> /\ obuf = <<>> /\ conin = <<>> /\ conout = <<>> /\ size = 0 /\ looked = 0 /\ heard = FALSE /\ nin = 0 /\ nout = 0 /\ gone = FALSE /\ bad = FALSE
\* ---------------------------------------------------------------- user and session
UserTypes == nin < N /\ ~hung /\ nin' = nin + 1 /\ Types(<<nin + 1>>) /\ UNCHANGED <<threads, conin, conout, size, nout, gone, bad>>
UserLeaves == ~hung /\ HangsUp /\ UNCHANGED <<threads, world>>
UserResizes == /\ size < Sizes /\ size' = size + 1 /\ wake' = (wake \/ heard)
               /\ UNCHANGED <<relay, m, i, o, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, conin, conout, nin, nout, gone, bad>>
TermFails == ~bad /\ bad' = TRUE /\ UNCHANGED <<relay, threads, conin, conout, size, nin, nout, gone>>
SessWrites == /\ phase = "up" /\ ~gone /\ 1 \notin over /\ nout < N /\ conout = <<>> /\ nout' = nout + 1 /\ conout' = <<nout + 1>> /\ Writes(1, <<nout + 1>>)
              /\ UNCHANGED <<threads, conin, size, nin, gone, bad>>
SessReads == conin # <<>> /\ conin' = <<>> /\ UNCHANGED <<relay, threads, conout, size, nin, nout, gone, bad>>
SessEnds == phase = "up" /\ 1 \notin over /\ EndsOutput(1) /\ UNCHANGED <<threads, world>>
SessDeaf == phase = "up" /\ ~cut /\ EndsInput /\ UNCHANGED <<threads, world>>
SessLeaves == phase = "left" /\ ~gone /\ gone' = TRUE /\ UNCHANGED <<relay, threads, conin, conout, size, nin, nout, bad>>
\* ---------------------------------------------------------------- main thread
Keep(v) == UNCHANGED v
MAsk == m = "ask" /\ m' = "look0" /\ looked' = size /\ Tell(<<size, 0>>) /\ UNCHANGED <<i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, heard, world>>
MStart == m = "look0" /\ m' = "hear" /\ Starts /\ UNCHANGED <<i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
MHear == m = "hear" /\ m' = "arm" /\ heard' = TRUE /\ UNCHANGED <<relay, i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, world>>
MArm == m = "arm" /\ m' = "sleep" /\ wake' = (wake \/ Armed) /\ i' = "reset" /\ o' = "read" /\ UNCHANGED <<relay, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
MSleep == m = "sleep" /\ wake /\ m' = (IF ResetFirst THEN "reset" ELSE "look") /\ UNCHANGED <<relay, i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
MReset == m = "reset" /\ wake' = FALSE /\ m' = (IF ResetFirst THEN "look" ELSE "sleep") /\ UNCHANGED <<relay, i, o, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
MLook == m = "look" /\ m' = "check" /\ (IF looked # size THEN looked' = size /\ Tell(<<size, 0>>) ELSE UNCHANGED <<looked, relay>>)
         /\ UNCHANGED <<i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, heard, world>>
MCheck == /\ m = "check" /\ (IF doneI \/ doneO THEN m' = "stop" /\ Leave ELSE m' = (IF ResetFirst THEN "sleep" ELSE "reset") /\ UNCHANGED relay)
          /\ UNCHANGED <<i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
MStop == m = "stop" /\ m' = "joinI" /\ stopI' = TRUE /\ iwake' = TRUE /\ UNCHANGED <<relay, i, o, wake, doneI, doneO, ibuf, obuf, looked, heard, world>>
MJoinI == m = "joinI" /\ i = "dead" /\ m' = "joinO" /\ UNCHANGED <<relay, i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
MJoinO == m = "joinO" /\ (Joins => o = "dead") /\ m' = "done" /\ End /\ UNCHANGED <<i, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
\* ---------------------------------------------------------------- input thread
IReset == i = "reset" /\ iwake' = FALSE /\ i' = "check" /\ UNCHANGED <<relay, m, o, wake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
ICheck == i = "check" /\ i' = (IF stopI THEN "end" ELSE "wait") /\ UNCHANGED <<relay, m, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
Unsent == Drop(inq, Len(ibuf))
IWait == /\ i = "wait" /\ (iwake \/ inq # <<>> \/ hung) /\ i' = (IF inq # <<>> \/ hung THEN "read" ELSE "reset")
         /\ UNCHANGED <<relay, m, o, wake, iwake, doneI, doneO, stopI, ibuf, obuf, looked, heard, world>>
IRead == /\ i = "read" /\ (IF inq # <<>> THEN \E k \in 1..Len(inq) : ibuf' = SubSeq(inq, 1, k) /\ i' = "write" ELSE i' = "end" /\ UNCHANGED ibuf)
         /\ UNCHANGED <<relay, m, o, wake, iwake, doneI, doneO, stopI, obuf, looked, heard, world>>
IWrite == /\ i = "write" /\ (cut \/ gone \/ conin = <<>>)
          /\ (IF cut \/ gone THEN i' = "end" /\ UNCHANGED <<relay, ibuf, conin>>
              ELSE Send(<<ibuf[1]>>) /\ conin' = <<ibuf[1]>> /\ ibuf' = Tail(ibuf) /\ i' = (IF Len(ibuf) = 1 THEN "reset" ELSE "write"))
          /\ UNCHANGED <<m, o, wake, iwake, doneI, doneO, stopI, obuf, looked, heard, conout, size, nin, nout, gone, bad>>
Finish(w, done) == (IF CompletedFirst THEN w = "end" ELSE w = "end2")
IEnd == /\ i \in {"end", "end2"} /\ (IF i = "end" THEN i' = "end2" ELSE i' = "dead")
        /\ (IF Finish(i, doneI) THEN doneI' = TRUE /\ UNCHANGED wake ELSE wake' = TRUE /\ UNCHANGED doneI)
        /\ UNCHANGED <<relay, m, o, iwake, doneO, stopI, ibuf, obuf, looked, heard, world>>
\* ---------------------------------------------------------------- output thread
ORead == /\ o = "read" /\ (conout # <<>> \/ 1 \in over \/ gone)
         /\ (IF conout # <<>> THEN obuf' = conout /\ conout' = <<>> /\ o' = "write" ELSE o' = "end" /\ UNCHANGED <<obuf, conout>>)
         /\ UNCHANGED <<relay, m, i, wake, iwake, doneI, doneO, stopI, ibuf, looked, heard, conin, size, nin, nout, gone, bad>>
OWrite == /\ o = "write" /\ (IF bad THEN o' = "end" /\ Refuses(1) ELSE o' = "read" /\ Show(1, obuf)) /\ obuf' = <<>>
          /\ UNCHANGED <<m, i, wake, iwake, doneI, doneO, stopI, ibuf, looked, heard, world>>
OEnd == /\ o \in {"end", "end2"} /\ (IF o = "end" THEN o' = "end2" ELSE o' = "dead")
        /\ (IF Finish(o, doneO) THEN doneO' = TRUE /\ UNCHANGED wake ELSE wake' = TRUE /\ UNCHANGED doneO)
        /\ UNCHANGED <<relay, m, i, iwake, doneI, stopI, ibuf, obuf, looked, heard, world>>
Main == MAsk \/ MStart \/ MHear \/ MArm \/ MSleep \/ MReset \/ MLook \/ MCheck \/ MStop \/ MJoinI \/ MJoinO
Input == IReset \/ ICheck \/ IWait \/ IRead \/ IWrite \/ IEnd
Output == ORead \/ OWrite \/ OEnd
Next == Main \/ Input \/ Output \/ UserTypes \/ UserLeaves \/ UserResizes \/ TermFails \/ SessWrites \/ SessReads \/ SessEnds \/ SessDeaf \/ SessLeaves
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Input) /\ WF_vars(Output) /\ WF_vars(SessLeaves) /\ WF_vars(SessReads)
\* ---------------------------------------------------------------- what it is for
NeverOnItsOwn == phase \in {"left", "gone"} => Reason
Complete == phase = "gone" => outq[1] = <<>> \/ 1 \in failed
Quiet == /\ ~ENABLED Main /\ ~ENABLED Input /\ ~ENABLED Output /\ ~ENABLED SessLeaves /\ ~ENABLED SessReads
Settled == Quiet => Still({}, FALSE) /\ (phase = "up" => told = <<size, 0>>)
Ends == Reason /\ phase = "up" /\ (1 \in over \/ hung) ~> phase = "gone"
Passes == \A k \in 1..N : (inq # <<>> /\ Head(inq) = k) ~> (inq = <<>> \/ Head(inq) # k \/ phase = "gone")
=============================================================================
