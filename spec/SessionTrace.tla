---------------------------- MODULE SessionTrace ----------------------------
\* Judges recorded executions of the real libwinpty (against a scripted or the real agent) with Session's actions.
\* A trace starts when the session has been opened.  Events: begin, req, rep, part, die, close, fault, child, down,
\* ret, freed, stat, clock.  "crash", "pendclose", "badclose" are never acceptable.
EXTENDS TraceBase
VARIABLES op, st, why, since, rep, chan, agent, pipe, flt, now, lax, tmo,
          kid,       \* what the handles of the last child created by the agent refer to
          kept,      \* handles handed to the caller and kept open by it
          freed,
          att        \* sets of processes attached to the console: the current one first, then those since the last process list request
S == INSTANCE Session
aux == <<kid, kept, freed, att>>
ses == <<op, st, why, since, rep, chan, agent, pipe, flt, now, lax, tmo>>
vars == <<ses, aux, tid, l>>

TraceInit == /\ TraceStart
             /\ S!SInit(T.cfg.t0, T.cfg.tmo, T.cfg.lax) /\ kid = [proc |-> "", thread |-> ""] /\ kept = 0 /\ freed = FALSE /\ att = <<T.cfg.att>>

\* The clock of the recording moves first, as a step of its own.
Tick == /\ More /\ E.now > now /\ Silent /\ Chk("L09", S!NotLate(E.now)) /\ S!Clock(E.now) /\ UNCHANGED aux
At(n) == Is(n) /\ E.now = now /\ Take

Begin == At("begin") /\ S!Begin(E.i, E.op) /\ UNCHANGED aux

SameReq(i) == /\ op[i].k = E.k
              /\ E.k = "size" => op[i].a = E.a
              /\ E.k = "spawn" => Chk("L07", op[i].s = E.s) /\ Chk("L08", E.desk = T.cfg.desk) /\ \A p \in {"L02", "L04"} : Chk(p, <<op[i].w[1], op[i].w[2]>> = E.w)
Req == At("req") /\ att' = <<att[1]>> /\ UNCHANGED <<kid, kept, freed>>
       /\ \E i \in S!CallIds : /\ SameReq(i) /\ S!Request(i)
                               /\ Chk("L01", S!Serialised)
\* the agent reports exactly the processes attached at some moment while it answered
TrueList(r) == att[1] # <<>> => r.k = "ints" /\ \E k \in 1..Len(att) : /\ Len(r.v) = Len(att[k]) + 1 /\ r.v[1] = Len(att[k])
                                                                 /\ {r.v[j] : j \in 2..Len(r.v)} = {att[k][j] : j \in 1..Len(att[k])}
Rep == At("rep") /\ UNCHANGED aux
       /\ IF S!InExchange = {} THEN UNCHANGED ses   \* nobody is listening any more
          ELSE \E i \in S!InExchange : /\ S!Reply(i, E.r)
                                        /\ Chk("L05", op[i].k = "plist" => TrueList(E.r))
Part == At("part") /\ UNCHANGED aux
        /\ LET c == {i \in S!CallIds : st[i] = "sent"} IN
           IF c = {} \/ E.dir = "req" THEN UNCHANGED ses
           ELSE \E i \in c : S!Progress(i)
Die == At("die") /\ S!AgentDies /\ UNCHANGED aux
       /\ Chk("L05", E.self => \A i \in S!InExchange : op[i].k # "plist")
Procs == At("procs") /\ att' = <<E.v>> \o att /\ UNCHANGED <<ses, kid, kept, freed>>
Close == At("close") /\ S!AgentCloses /\ UNCHANGED aux
Flt == At("fault") /\ S!Fault /\ UNCHANGED aux
\* the agent asks the system for a process: exactly the one the outstanding call described
Ordered(p) == \A i \in S!InExchange : op[i].k = "spawn" =>
  /\ Chk("L07", /\ p.s = <<op[i].s[2], op[i].s[3], op[i].s[4], op[i].s[5]>>
                /\ \A k \in 1..4 : p.given[k] = (op[i].s[k + 1] # "")
                /\ ~p.newcon /\ ~p.detached /\ p.uni)
  /\ Chk("L08", p.desktop = T.cfg.desk)
Kid == /\ At("child") /\ (Has(E, "pr") => Ordered(E.pr))
       /\ kid' = IF Has(E, "h") THEN E.h ELSE kid
       /\ UNCHANGED <<ses, kept, freed, att>>
Mark == At("clock") /\ UNCHANGED <<ses, aux>>

\* giving up happens inside a call, before its return is recorded
GiveUp == /\ Is("ret") /\ ~E.ok /\ E.now = now /\ Silent /\ UNCHANGED aux
          /\ \E i \in S!CallIds : \E c \in S!Causes(i) :
               /\ \/ E.i = i /\ (E.noerr \/ E.code = c \/ "L02" \notin Props)
                  \/ E.i # i /\ chan = "up"
               /\ S!Fail(i, c)

Alone == ~\E j \in S!CallIds : S!Active(j)
Common(r) ==
  /\ Chk("L02", ~r.poison /\ (r.noerr \/ (r.ok <=> r.code = "success")))
  /\ Chk("L03", r.pend = 0)
  /\ Chk("L04", r.dbl = 0)

Result(i, r) ==      \* the values of a successful return
  LET o == op[i] IN
  /\ o.k = "plist" => /\ Chk("L01", r.count = rep[i].v[1])
                      /\ Chk("L05", /\ r.count = rep[i].v[1]
                                    /\ ~r.overrun
                                    /\ IF r.count <= o.a[1] THEN \A j \in 1..o.a[1] : r.list[j] = IF j <= r.count THEN rep[i].v[j + 1] ELSE -1
                                       ELSE \A j \in 1..o.a[1] : r.list[j] = -1 \/ \E k \in 1..r.count : r.list[j] = rep[i].v[k + 1])
  /\ o.k = "spawn" =>
       LET exp(w, given, kind) == IF ~w THEN "-" ELSE IF given THEN kind ELSE "null" IN
       /\ \A p \in {"L01", "L02", "L04"} :
            /\ Chk(p, r.proc = exp(o.w[1], rep[i].p, kid.proc))
            /\ Chk(p, r.thread = exp(o.w[2], rep[i].t, kid.thread))
       /\ Chk("L02", r.cperr \in {0, -1})
RetOk == /\ At("ret") /\ E.ok
         /\ E.i \in S!CallIds /\ S!RetOk(E.i)
         /\ Chk("L01", chan = "up") /\ Result(E.i, E)
         /\ Common(E) /\ kept' = kept + E.kept
         /\ UNCHANGED <<kid, freed, att>>
Failed(i, r, w) ==   \* the values of a failed return, w its cause
  /\ op[i].k = "spawn" =>
       /\ \A p \in {"L02", "L04"} : Chk(p, r.proc \in {"-", "null"} /\ r.thread \in {"-", "null"})
       /\ Chk("L02", r.cperr = IF ~op[i].w[3] THEN -1 ELSE IF w = "cpfailed" THEN rep[i].v ELSE 0)
  /\ op[i].k = "plist" => Chk("L02", r.count = 0) /\ Chk("L05", ~r.overrun /\ r.count = 0)
RetErr == /\ At("ret") /\ ~E.ok
          /\ E.i \in S!CallIds /\ (S!RetErr(E.i) \/ S!RetCpFailed(E.i))
          /\ Chk("L02", E.noerr \/ E.code = why'[E.i])
          /\ Chk("L09", E.noerr \/ (E.code = "timeout" <=> why'[E.i] = "timeout"))
          /\ Failed(E.i, E, why'[E.i])
          /\ Common(E) /\ UNCHANGED aux

Free == /\ At("freed") /\ freed' = TRUE
        /\ Chk("L03", E.pend = 0)
        /\ Chk("L04", E.dbl = 0 /\ E.handles <= T.cfg.hb + kept)
        /\ chan' = "down"
        /\ UNCHANGED <<op, st, why, since, rep, agent, pipe, flt, now, lax, tmo, kid, kept, att>>
\* A look at the process from outside.
Stat == /\ At("stat")
        /\ Chk("L03", Alone => E.pend = 0)
        /\ Chk("L04", Alone => E.dbl = 0 /\ (freed => E.handles <= T.cfg.hb + kept))
        /\ Chk("L04", Alone /\ agent = "up" /\ ~freed /\ ~flt /\ chan = "up" => E.agentProcs <= T.cfg.own)
        /\ Chk("L01", Alone /\ chan = "down" => E.down # "no")
        /\ Chk("L01", E.down = "yes" => chan = "down")
        /\ UNCHANGED <<ses, aux>>
Next == Tick \/ Begin \/ Req \/ Rep \/ Part \/ Die \/ Close \/ Flt \/ Procs \/ Kid \/ Mark \/ RetOk \/ RetErr \/ GiveUp \/ Free \/ Stat
\* what the future depends on: calls that have returned are forgotten
View == <<tid, l, [i \in {j \in S!CallIds : S!Active(j)} |-> <<st[i], why[i], since[i], rep[i]>>], {j \in S!CallIds : ~S!Active(j)},
          chan, agent, pipe, flt, now, aux>>
TraceSpec == TraceInit /\ [][Next]_vars
=============================================================================
