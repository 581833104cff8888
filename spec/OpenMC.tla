------------------------------- MODULE OpenMC -------------------------------
\* Exhaustive check of the opening procedure: every failure point, death, stall, lie and intruder.
EXTENDS Open
CONSTANTS MaxNow, Tmo
VARIABLES bg, held, res, unwinding
vars == <<ovars, bg, held, res, unwinding>>
Init == OInit(0) /\ bg \in {"none", "self", "agent"} /\ held = {} /\ res = "" /\ unwinding = FALSE
Run == ph = "open" /\ ~unwinding
Hold(x) == held' = held \cup {x}
Keep == UNCHANGED <<bg, res, unwinding>>
Next ==
  \/ Begin /\ UNCHANGED held /\ Keep
  \* the caller's own steps
  \/ Run /\ bg = "self" /\ sta = "orig" /\ pipe["main"] = "" /\ "station" \notin held /\ Station("other") /\ Hold("station") /\ Keep
  \/ Run /\ (IF bg = "agent" THEN TRUE ELSE FALSE) /\ CreatePipe("desk", "d") /\ Hold("deskpipe") /\ Keep
  \/ Run /\ (bg = "self" => "station" \in held) /\ (bg = "agent" => ann["desk"].k = "names" /\ Verified("desk", TRUE)) /\ CreatePipe("main", "m") /\ Hold("pipe") /\ Keep
  \/ Run /\ \E g \in Legs, p \in {-1, 1, 2} : (p < 0 \/ p = IF g = "desk" THEN 1 ELSE 2) /\ Start(g, p) /\ Hold((IF g = "desk" THEN "procdesk" ELSE "procmain")) /\ Keep
  \/ Run /\ ann["main"].k # "none" /\ sta = "other" /\ Station("orig") /\ held' = held \ {"station"} /\ Keep
  \/ Run /\ ann["main"].k # "none" /\ "deskpipe" \in held /\ held' = held \ {"deskpipe", "procdesk"} /\ UNCHANGED <<ovars, bg, res, unwinding>>
  \* the environment
  \/ \E g \in Legs, p \in {1, 2, 9} : proc[g] > 0 /\ (p = 9 \/ (p = proc[g] /\ p \notin dead)) /\ Connect(g, p) /\ UNCHANGED held /\ Keep
  \/ \E g \in Legs, k \in {"names", "bad"} : g \notin gone /\ Announce(g, [k |-> k, v |-> IF k = "bad" THEN <<>> ELSE IF g = "desk" THEN <<"x">> ELSE <<"i", "o">>]) /\ UNCHANGED held /\ Keep
  \/ \E g \in Legs : proc[g] > 0 /\ proc[g] \notin dead /\ Die(proc[g]) /\ UNCHANGED held /\ Keep
  \/ \E g \in Legs : conn[g] # 0 /\ g \notin gone /\ Leave(g) /\ UNCHANGED held /\ Keep
  \/ now < MaxNow /\ NotLate(now + 1, Tmo) /\ Clock(now + 1) /\ UNCHANGED held /\ Keep
  \/ Run /\ flt = {} /\ \E a \in {"any", "CreateProcessW", "GetNamedPipeClientProcessId"} : Fault(a) /\ UNCHANGED held /\ Keep
  \* the end
  \/ Run /\ Causes(Tmo, TRUE, 2, FALSE) # {} /\ unwinding' = TRUE /\ (\E c \in Causes(Tmo, TRUE, 2, FALSE) : res' = c) /\ UNCHANGED <<ovars, bg, held>>
  \/ unwinding /\ ph = "open" /\ sta = "other" /\ Station("orig") /\ held' = held \ {"station"} /\ UNCHANGED <<bg, res, unwinding>>
  \/ unwinding /\ ph = "open" /\ sta = "orig" /\ held # {} /\ held' = {} /\ UNCHANGED <<ovars, bg, res, unwinding>>
  \/ unwinding /\ sta = "orig" /\ held = {} /\ Finish /\ UNCHANGED <<held, bg, res, unwinding>>
  \/ Run /\ flt = {} /\ OkState(TRUE, 2) /\ Verified("main", TRUE) /\ sta = "orig" /\ "deskpipe" \notin held /\ "station" \notin held /\ Finish /\ res' = "ok" /\ UNCHANGED <<held, bg, unwinding>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
StationRestored == ph = "done" => sta = "orig"
OnlyOwn == res = "ok" => \A g \in Legs : conn[g] # 0 => conn[g] = proc[g]
Released == ph = "done" => held = IF res = "ok" THEN {"pipe", "procmain"} ELSE {}
Named == ph = "done" => res # ""
OpenEnds == [](ph = "open" => <>(ph = "done"))
=============================================================================
