----------------------------- MODULE DebugTrace -----------------------------
\* Traced executions against Debug: cfg.ref is the log of the same scenario run untraced, with the same schedule.
\* Events: x (an observation at the boundary: calls and what they return, wire messages, bytes, console operations, handles, time, ending),
\*         dbg (op = open|wait|mode|send|close on the trace server's pipe; t = process and thread)
EXTENDS TraceBase
VARIABLES at, talk
D == INSTANCE Debug
vars == <<at, talk, tid, l>>
TraceInit == TraceStart /\ at = 1 /\ talk = [t \in {} |-> {}]
Ref == T.cfg.ref
Step == /\ Is("x") /\ Take
        /\ Chk("D01", D!Matches(Ref, E.x))
        /\ l = Len(T.ev) => Chk("D01", at = Len(Ref) /\ D!AllSilent)
        /\ D!Observed
Talk(op) == Is("dbg") /\ E.op = op /\ Take
Open == Talk("open") /\ Chk("D01", D!MayOpen(E.t)) /\ IF E.ok THEN D!Opened(E.t, E.h) ELSE D!Said
Wait == Talk("wait") /\ Chk("D01", D!Silent(E.t)) /\ D!Said
Use == (Talk("mode") \/ Talk("send")) /\ Chk("D01", D!MayUse(E.t, E.h)) /\ D!Said
Close == Talk("close") /\ Chk("D01", D!MayUse(E.t, E.h)) /\ D!Closed(E.t, E.h)
Next == Step \/ Open \/ Wait \/ Use \/ Close
TraceSpec == TraceInit /\ [][Next]_vars
=============================================================================
