-------------------------------- MODULE Open --------------------------------
(***************************************************************************)
(* Opening a session, as the calling process experiences it.  On old       *)
(* systems the agent gets a background desktop, made either by the caller  *)
(* itself (its window station is switched for a while) or by a helper      *)
(* agent: then the control-pipe procedure runs twice, first on leg "desk", *)
(* then on leg "main".  Each leg: create the pipe, start the process, let  *)
(* a client connect, check that the client is that process, read what it   *)
(* announces.  Every step may fail, the started process may die, stall or  *)
(* lie, and somebody else may connect.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  ph,      \* "idle" | "open" | "done"
  sta,     \* the caller's window station: "orig" | "other"
  pipe,    \* leg -> name of its control pipe ("" = none)
  proc,    \* leg -> pid of the process started for it (0 = none, -1 = could not be started)
  conn,    \* leg -> pid of the client that connected (0 = none)
  ann,     \* leg -> announcement received (NoAnn = none yet)
  dead,    \* pids that have ended
  gone,    \* legs whose client closed its end
  flt,     \* OS calls that failed so far
  since,   \* when the caller last got ahead
  now
ovars == <<ph, sta, pipe, proc, conn, ann, dead, gone, flt, since, now>>
Legs == {"desk", "main"}
NoAnn == [k |-> "none"]
OInit(t0) == /\ ph = "idle" /\ sta = "orig" /\ pipe = [g \in Legs |-> ""] /\ proc = [g \in Legs |-> 0]
             /\ conn = [g \in Legs |-> 0] /\ ann = [g \in Legs |-> NoAnn] /\ dead = {} /\ gone = {} /\ flt = {}
             /\ since = t0 /\ now = t0
Leg == IF pipe["main"] # "" THEN "main" ELSE "desk"      \* the leg under way

Begin == ph = "idle" /\ ph' = "open" /\ since' = now /\ UNCHANGED <<sta, pipe, proc, conn, ann, dead, gone, flt, now>>
Station(s) == sta' = s /\ UNCHANGED <<ph, pipe, proc, conn, ann, dead, gone, flt, since, now>>
CreatePipe(g, n) == /\ ph = "open" /\ pipe[g] = "" /\ (g = "desk" => pipe["main"] = "")
                    /\ pipe' = [pipe EXCEPT ![g] = n] /\ since' = now
                    /\ UNCHANGED <<ph, sta, proc, conn, ann, dead, gone, flt, now>>
Start(g, p) == /\ ph = "open" /\ pipe[g] # "" /\ proc[g] = 0
               /\ proc' = [proc EXCEPT ![g] = p] /\ since' = now
               /\ UNCHANGED <<ph, sta, pipe, conn, ann, dead, gone, flt, now>>
Connect(g, p) == /\ pipe[g] # "" /\ conn[g] = 0
                 /\ conn' = [conn EXCEPT ![g] = p] /\ since' = now
                 /\ UNCHANGED <<ph, sta, pipe, proc, ann, dead, gone, flt, now>>
Announce(g, a) == /\ conn[g] # 0 /\ ann[g] = NoAnn
                  /\ ann' = [ann EXCEPT ![g] = a] /\ since' = now
                  /\ UNCHANGED <<ph, sta, pipe, proc, conn, dead, gone, flt, now>>
Progress == since' = now /\ UNCHANGED <<ph, sta, pipe, proc, conn, ann, dead, gone, flt, now>>
Die(p) == dead' = dead \cup {p} /\ UNCHANGED <<ph, sta, pipe, proc, conn, ann, gone, flt, since, now>>
Leave(g) == gone' = gone \cup {g} /\ UNCHANGED <<ph, sta, pipe, proc, conn, ann, dead, flt, since, now>>
Fault(a) == flt' = flt \cup {a} /\ UNCHANGED <<ph, sta, pipe, proc, conn, ann, dead, gone, since, now>>
Clock(t) == t >= now /\ now' = t /\ UNCHANGED <<ph, sta, pipe, proc, conn, ann, dead, gone, flt, since>>
Finish == ph = "open" /\ ph' = "done" /\ UNCHANGED <<sta, pipe, proc, conn, ann, dead, gone, flt, since, now>>

\* L06: the client of the leg is known to be the process started for it (where the system can tell)
Verified(g, canTell) == canTell => conn[g] = proc[g] /\ proc[g] > 0 /\ "GetNamedPipeClientProcessId" \notin flt
Waiting == IF ph # "open" THEN {} ELSE {g \in Legs : g = Leg /\ proc[g] > 0 /\ ann[g] = NoAnn}
\* L09
NotLate(t, tmo) == Waiting # {} => /\ tmo >= 0 => t - since <= tmo
                                   /\ (\A g \in Waiting : proc[g] \notin dead /\ g \notin gone) \/ t <= now
Good(g, a, n) == a.k = "names" /\ Len(a.v) = n
\* why an open may fail, and the code naming it; n = number of names the main agent must announce
Causes(tmo, canTell, n, lax) ==
  UNION {
    IF flt # {} THEN {"unspecified"} ELSE {},
    IF "CreateProcessW" \in flt \/ \E g \in Legs : proc[g] = -1 THEN {"creation"} ELSE {},
    IF "GetFileAttributesW" \in flt THEN {"exemissing"} ELSE {},
    UNION {IF proc[g] \in dead THEN {"died"} ELSE {} : g \in {h \in Waiting : TRUE}},
    IF Waiting \cap gone # {} THEN {"lost"} ELSE {},
    IF Waiting # {} /\ tmo >= 0 /\ now - since >= tmo THEN {"timeout"} ELSE {},
    UNION {IF conn[g] # 0 /\ canTell /\ conn[g] # proc[g] THEN {"unspecified"} ELSE {} : g \in Legs},
    IF ann["main"].k # "none" /\ ~Good("main", ann["main"], n) THEN {"unspecified", "oom"} ELSE {},
    IF ann["desk"].k # "none" /\ ~Good("desk", ann["desk"], 1) THEN {"unspecified", "oom"} ELSE {},
    IF lax /\ Leg \in gone THEN {"lost"} ELSE {},
    IF lax /\ proc[Leg] \in dead THEN {"died"} ELSE {}}
OkState(canTell, n) ==
  /\ pipe["main"] # "" /\ proc["main"] > 0 /\ conn["main"] # 0 /\ Good("main", ann["main"], n)
=============================================================================
