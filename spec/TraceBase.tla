---------------------------- MODULE TraceBase ----------------------------
\* Shared skeleton of the trace specifications.  A trace file holds one recorded execution per line:
\*   {"id": ..., "cfg": {...}, "ev": [events], "stop": optional index}
\* A trace specification consumes the events one by one; Report prints the traces that could not be consumed.
\* Props selects the properties whose obligations are enforced: everything else only updates the tracked state.
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, Json
CONSTANT Props
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
T == Traces[tid]
E == T.ev[l]
More == l <= Len(T.ev)
Chk(p, c) == (p \in Props) => c
Has(r, f) == f \in DOMAIN r
TraceStart == tid \in 1..Len(Traces) /\ l = 1 /\ TLCSet(tid, 0)
Take == l' = l + 1 /\ tid' = tid
Silent == l' = l /\ tid' = tid
Is(n) == More /\ E.e = n
Track == TLCSet(tid, IF l > TLCGet(tid) THEN l ELSE TLCGet(tid))
Stop == ~(Has(T, "stop") /\ l = T.stop)
Report == /\ \A i \in 1..Len(Traces) : TLCGet(i) = Len(Traces[i].ev) + 1 \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
          /\ PrintT("REPORT-DONE")
=============================================================================
