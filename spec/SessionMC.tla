----------------------------- MODULE SessionMC -----------------------------
\* Exhaustive check of the design: a few threads, every interleaving, every agent behaviour.
EXTENDS Session
CONSTANTS Tmo, NCalls, MaxNow, MaxActive
Ops == {[k |-> "size"], [k |-> "spawn"]}
Reps(o) == {[k |-> "bad"]} \cup IF o.k = "size" THEN {[k |-> "empty"]} ELSE {[k |-> "created"], [k |-> "cpfailed"]}
Init == (\E x \in BOOLEAN : SInit(0, Tmo, x))
NActive == Cardinality({i \in CallIds : Active(i)})
Next ==
  \/ \E o \in Ops : Len(st) < NCalls /\ NActive < MaxActive /\ Begin(Len(st) + 1, o)
  \/ \E i \in CallIds : Serialised /\ pipe = "open" /\ agent = "up" /\ Request(i)
  \/ \E i \in CallIds : \E r \in Reps(op[i]) : pipe = "open" /\ agent = "up" /\ Reply(i, r)
  \/ agent = "up" /\ AgentDies
  \/ pipe = "open" /\ AgentCloses
  \/ now < MaxNow /\ NotLate(now + 1) /\ Clock(now + 1)
  \/ \E i \in CallIds : \E c \in Causes(i) : (st[i] # "queued" \/ Serialised) /\ Fail(i, c)
  \/ \E i \in CallIds : (RetErr(i) \/ RetCpFailed(i) \/ RetOk(i))
Spec == Init /\ [][Next]_svars /\ WF_svars(Next)
\* --- the properties, on the design
OneOutstanding == Cardinality(InExchange) <= 1
PoisonedForGood == (\E i \in CallIds : why[i] \notin {"", "cpfailed"}) => chan = "down"
\* a call that ended well was answered before the first failure
NoReplyAfterFailure == [][(chan = "down") => \A i \in CallIds : (st[i] = "queued" => st'[i] # "sent")]_svars
ErrorNamed == \A i \in CallIds : st[i] \in {"failed"} => why[i] \in {"lost", "died", "timeout", "unspecified"}
CpFailKeeps == [][(\E i \in CallIds : st[i] = "replied" /\ st'[i] = "done" /\ why'[i] = "cpfailed") => chan' = chan]_svars
EveryCallEnds == \A i \in 1..NCalls : [](i \in CallIds => <>(i \in CallIds /\ st[i] = "done"))
=============================================================================
