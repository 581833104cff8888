------------------------------ MODULE OpenTrace ------------------------------
\* Judges recorded executions of the real winpty_open.
\* Events: begin, pipe, dial, start, station, conn, ann, part, die, leave, fault, clock, ret, stat; "crash" and "pendclose" never.
EXTENDS TraceBase
VARIABLES ph, sta, pipe, proc, conn, ann, dead, gone, flt, since, now,
          names     \* all pipe names seen in this run
O == INSTANCE Open
ov == <<ph, sta, pipe, proc, conn, ann, dead, gone, flt, since, now>>
vars == <<ov, names, tid, l>>
C == T.cfg      \* tmo, flags, mouse, cols, rows, old, show, canTell, xp, random, hb, lax
NNames == IF C.conerr THEN 3 ELSE 2
TraceInit == TraceStart /\ O!OInit(T.cfg.t0) /\ names = {}
Tick == /\ More /\ E.now > now /\ Silent /\ Chk("L09", O!NotLate(E.now, C.tmo)) /\ O!Clock(E.now) /\ UNCHANGED names
At(n) == Is(n) /\ E.now = now /\ Take

Begin == At("begin") /\ O!Begin /\ UNCHANGED names
\* L06: how every pipe of a session is created
Private(e) == /\ e.first /\ e.max = 1 /\ ~e.inh
              /\ (e.remote \/ C.xp)
              /\ e.sd = "allow:all:ADMINS,allow:all:OWNER,allow:all:SYSTEM"
              /\ e.name \notin names
              /\ C.random /\ "RtlGenRandom" \notin flt => e.diff >= 12
Control == /\ At("pipe") /\ E.role = "control"
           /\ Chk("L06", Private(E))
           /\ names' = names \cup {E.name}
           /\ IF E.err = 0 THEN O!CreatePipe(E.leg, E.name) ELSE O!Fault("CreateNamedPipeW")
Data == /\ At("pipe") /\ E.role = "data" /\ Chk("L06", Private(E)) /\ names' = names \cup {E.name} /\ UNCHANGED ov
\* the connecting side
Dial == /\ At("dial") /\ Chk("L06", E.sqos /\ E.level \in {0, 1}) /\ UNCHANGED <<ov, names>>

Background == C.old /\ ~C.show
Start == /\ At("start") /\ UNCHANGED names
         /\ Chk("L06", E.pipe = pipe[E.leg])
         /\ E.leg = "main" =>
              /\ Chk("L07", E.args = <<C.flags, C.mouse, C.cols, C.rows>> /\ E.newcon)
              \* on old systems the agent runs on the background desktop that was made for it
              /\ Chk("L08", E.desktop = IF ~Background THEN ""
                                        ELSE IF pipe["desk"] # "" THEN (IF O!Good("desk", ann["desk"], 1) THEN ann["desk"].v[1] ELSE "?")
                                        ELSE IF E.desktop = "" /\ flt # {} THEN "" ELSE E.made)
              /\ Chk("L08", E.desktop # "" \/ ~Background \/ flt # {} \/ ann["desk"] = [k |-> "names", v |-> <<"">>])
              \* whatever the helper says is believed only once it is known to be the helper
              /\ Chk("L06", conn["desk"] # 0 /\ E.desktop # "" => O!Verified("desk", C.canTell))
         /\ E.leg = "desk" => Chk("L08", Background)
         /\ O!Start(E.leg, IF E.err = 0 THEN E.pid ELSE -1)
\* only a caller that allowed it has its station switched
Station == At("station") /\ Chk("L08", Background /\ C.ownDesktop) /\ O!Station(E.s) /\ UNCHANGED names
Conn == At("conn") /\ O!Connect(E.leg, E.pid) /\ UNCHANGED names
Ann == At("ann") /\ UNCHANGED names
       /\ Chk("L08", Has(E, "made") => E.a = [k |-> "names", v |-> <<E.made>>])      \* the real helper names the desktop it made
       /\ IF ph = "open" /\ ann[E.leg].k = "none" THEN O!Announce(E.leg, E.a) ELSE UNCHANGED ov
Part == At("part") /\ O!Progress /\ UNCHANGED names
Die == At("die") /\ O!Die(E.pid) /\ UNCHANGED names
Leave == At("leave") /\ O!Leave(E.leg) /\ UNCHANGED names
Flt == At("fault") /\ O!Fault(E.api) /\ UNCHANGED names
Mark == At("clock") /\ UNCHANGED <<ov, names>>
Common(r) == /\ Chk("L02", ~r.poison /\ (r.noerr \/ (r.ok <=> r.code = "success")))
             /\ Chk("L03", r.pend = 0)
             /\ Chk("L04", r.dbl = 0)
             /\ Chk("L08", r.sta = "orig" /\ sta = "orig")
RetOk == /\ At("ret") /\ E.ok /\ Common(E)
         /\ O!OkState(C.canTell, NNames)
         /\ Chk("L06", O!Verified("main", C.canTell))
         /\ Chk("L07", E.names = IF C.conerr THEN ann["main"].v ELSE ann["main"].v \o <<"">>)
         /\ Chk("L06", E.agent = proc["main"])
         /\ Chk("L04", E.handles <= C.hb + 4)      \* pipe, event, agent process (and possibly a thread handle or so)
         /\ O!Finish /\ UNCHANGED names
RetErr == /\ At("ret") /\ ~E.ok /\ Common(E)
          /\ LET cs == O!Causes(C.tmo, C.canTell, NNames, C.lax) IN
             /\ cs # {} \/ Props \cap {"L02", "L09"} = {}
             /\ Chk("L02", E.noerr \/ E.code \in cs)
             /\ Chk("L09", E.noerr \/ (E.code \in {"timeout", "died", "lost"} => E.code \in cs))
          /\ Chk("L04", E.handles = C.hb)
          /\ O!Finish /\ UNCHANGED names
\* afterwards
Late == /\ At("stat") /\ UNCHANGED <<ov, names>>
        /\ Chk("L03", ph = "done" => E.pend = 0)
        /\ Chk("L04", ph = "done" => E.dbl = 0 /\ (E.failed => E.handles = C.hb))
        /\ Chk("L08", ph = "done" => E.sta = "orig" /\ E.stations = 0)
Next == Tick \/ Begin \/ Control \/ Data \/ Dial \/ Start \/ Station \/ Conn \/ Ann \/ Part \/ Die \/ Leave \/ Flt \/ Mark \/ RetOk \/ RetErr \/ Late
TraceSpec == TraceInit /\ [][Next]_vars
=============================================================================
