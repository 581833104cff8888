------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* One open session as seen from the calling process: several threads      *)
(* issue calls; a mutex serialises the request/reply exchanges on the      *)
(* control channel; the agent (or its death, silence, or misbehaviour) is  *)
(* the environment.  One action per critical section of the code:          *)
(*   Begin   a thread enters the API                                       *)
(*   Request the request of a call is completely on the wire               *)
(*   Reply   a complete reply is on the wire                               *)
(*   Fail    the call gives up: the channel is closed for good             *)
(*   Ret*    the API call returns                                          *)
(* Replies are records; what a reply means for a call is given by the      *)
(* operators OkResult / CpFailed / Malformed below.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  op,      \* call id -> [k |-> "size"|"plist"|"spawn", ...arguments]
  st,      \* call id -> "queued" | "sent" | "replied" | "failed" | "done"
  why,     \* call id -> reason of failure ("" while none)
  since,   \* call id -> time from which its current wait for the agent counts
  rep,     \* call id -> reply record (or NoRep)
  chan,    \* "up" | "down" : the library's end of the control channel
  agent,   \* "up" | "dead"
  pipe,    \* "open" | "closed" : the agent's end of the control channel
  flt,     \* an OS call was made to fail
  now,
  lax,     \* transfers complete with a delay, so that a death can overtake a complete reply
  tmo      \* agent timeout in ms, -1 = infinite
svars == <<op, st, why, since, rep, chan, agent, pipe, flt, now, lax, tmo>>

NoRep == [k |-> "none"]
CallIds == DOMAIN st
Active(i) == st[i] \in {"queued", "sent", "replied", "failed"}
InExchange == {i \in CallIds : st[i] = "sent"}

SInit(t0, tm, lx) == /\ op = <<>> /\ st = <<>> /\ why = <<>> /\ since = <<>> /\ rep = <<>>
             /\ chan = "up" /\ agent = "up" /\ pipe = "open" /\ flt = FALSE /\ now = t0 /\ tmo = tm /\ lax = lx

Begin(i, o) ==
  /\ i \notin CallIds
  /\ op' = (i :> o) @@ op
  /\ st' = (i :> "queued") @@ st
  /\ why' = (i :> "") @@ why
  /\ rep' = (i :> NoRep) @@ rep
  /\ since' = (i :> now) @@ since
  /\ UNCHANGED <<chan, agent, pipe, flt, now, lax, tmo>>

\* L01: at most one request without a complete reply.
Serialised == InExchange = {}
Request(i) ==
  /\ st[i] = "queued" /\ chan = "up"
  /\ st' = [st EXCEPT ![i] = "sent"]
  /\ since' = [since EXCEPT ![i] = now]
  /\ UNCHANGED <<op, why, rep, chan, agent, pipe, flt, now, lax, tmo>>
Reply(i, r) ==
  /\ st[i] = "sent"
  /\ st' = [st EXCEPT ![i] = "replied"]
  /\ rep' = [rep EXCEPT ![i] = r]
  /\ since' = [since EXCEPT ![i] = now]
  /\ UNCHANGED <<op, why, chan, agent, pipe, flt, now, lax, tmo>>
Progress(i) ==               \* part of a request or reply went over the wire
  /\ since' = [since EXCEPT ![i] = now]
  /\ UNCHANGED <<op, st, why, rep, chan, agent, pipe, flt, now, lax, tmo>>

AgentDies == agent' = "dead" /\ UNCHANGED <<op, st, why, since, rep, chan, pipe, flt, now, lax, tmo>>
AgentCloses == pipe' = "closed" /\ UNCHANGED <<op, st, why, since, rep, chan, agent, flt, now, lax, tmo>>
Fault == flt' = TRUE /\ UNCHANGED <<op, st, why, since, rep, chan, agent, pipe, now, lax, tmo>>
Clock(t) == t >= now /\ now' = t /\ UNCHANGED <<op, st, why, since, rep, chan, agent, pipe, flt, lax, tmo>>

------------------------------------------------------------------------------
\* what a reply means
Malformed(o, r) ==
  \/ r.k = "bad"
  \/ o.k = "size" /\ r.k # "empty"
  \/ o.k = "plist" /\ (r.k # "ints" \/ Len(r.v) = 0 \/ Len(r.v) # r.v[1] + 1)
  \/ o.k = "spawn" /\ ~(r.k \in {"created", "cpfailed"})
CpFailed(o, r) == o.k = "spawn" /\ r.k = "cpfailed"
Good(o, r) == ~Malformed(o, r) /\ ~CpFailed(o, r)

\* why a call may give up, and the error code that names it
Causes(i) ==
  (IF st[i] \in {"queued", "sent"} /\ pipe = "closed" THEN {"lost"} ELSE {})
  \cup (IF st[i] \in {"queued", "sent"} /\ agent = "dead" THEN {"died"} ELSE {})
  \cup (IF st[i] \in {"queued", "sent"} /\ tmo >= 0 /\ now - since[i] >= tmo THEN {"timeout"} ELSE {})
  \cup (IF st[i] = "replied" /\ Malformed(op[i], rep[i]) THEN {"unspecified"} ELSE {})
  \cup (IF st[i] = "replied" /\ rep[i].k = "created" /\ agent = "dead" THEN {"unspecified"} ELSE {})  \* handles can no longer be taken over
  \cup (IF lax /\ st[i] = "replied" /\ agent = "dead" THEN {"died"} ELSE {})
  \cup (IF lax /\ st[i] = "replied" /\ pipe = "closed" THEN {"lost"} ELSE {})
  \cup (IF flt THEN {"unspecified"} ELSE {})
  \cup (IF chan = "down" /\ st[i] = "queued" THEN {"unspecified"} ELSE {})
Wake == [j \in CallIds |-> IF st[j] = "queued" THEN now ELSE since[j]]   \* the mutex changes hands
Fail(i, c) ==
  /\ st[i] \in {"queued", "sent", "replied"}
  /\ c \in Causes(i)
  /\ st' = [st EXCEPT ![i] = "failed"]
  /\ why' = [why EXCEPT ![i] = c]
  /\ chan' = "down"
  /\ since' = Wake
  /\ UNCHANGED <<op, rep, agent, pipe, flt, now, lax, tmo>>
RetErr(i) ==
  /\ st[i] = "failed"
  /\ st' = [st EXCEPT ![i] = "done"]
  /\ since' = Wake
  /\ UNCHANGED <<op, why, rep, chan, agent, pipe, flt, now, lax, tmo>>
RetCpFailed(i) ==
  /\ st[i] = "replied" /\ CpFailed(op[i], rep[i])
  /\ st' = [st EXCEPT ![i] = "done"]
  /\ why' = [why EXCEPT ![i] = "cpfailed"]
  /\ since' = Wake
  /\ UNCHANGED <<op, rep, chan, agent, pipe, flt, now, lax, tmo>>
RetOk(i) ==
  /\ st[i] = "replied" /\ Good(op[i], rep[i])
  /\ st' = [st EXCEPT ![i] = "done"]
  /\ since' = Wake
  /\ UNCHANGED <<op, why, rep, chan, agent, pipe, flt, now, lax, tmo>>

\* L09: nobody waits for the agent past its timeout, nor for a dead or departed agent.
NotLate(t) == \A i \in CallIds :
  st[i] = "sent" => /\ tmo >= 0 => t - since[i] <= tmo
                    /\ (agent = "dead" \/ pipe = "closed") => t <= now
=============================================================================
