------------------------------ MODULE LifeTrace ------------------------------
\* Judges recorded sessions of the real agent with Life.
\* cfg: err (there is a CONERR pipe), c, r (initial size), stream (there is a reference: cfg.ref), ref [conout, conerr] (the bytes an attentive
\* reader of the same session gets, up to the child's exit where output ends there), text (what was written, visible characters; only if cfg.plain)
\* Events: req (b), badframe, rep (b), run (ok, err, pid), att (v), gone, exit, abort, conn (p), left (p), shut (p), end, died, in (b), chars (v),
\* out (p, b, eof), modes (k), win (c, r), settle (rd: set of what has been read empty, full: time enough for everything)
EXTENDS TraceBase, Life, Wire
VARIABLES atts,      \* sets of processes attached to the console, as lists; the current one last
          since,     \* how long atts was when each request came
          dead,      \* the agent has exited
          pos,       \* bytes of each output pipe read
          extra,     \* what came after the reference
          on,        \* mouse modes on in the terminal
          typed,     \* characters sent and not yet seen by the application
          served     \* requests received when the console was asked to close
aux == <<atts, since, dead, pos, extra, on, typed, served>>
vars == <<life, aux, tid, l>>
C == T.cfg
TraceInit == /\ TraceStart /\ Init0(T.cfg.err, TRUE) /\ atts = <<T.cfg.att>> /\ since = <<>> /\ dead = FALSE
             /\ pos = [p \in {"conout", "conerr"} |-> 0] /\ extra = [p \in {"conout", "conerr"} |-> <<>>] /\ on = {} /\ typed = <<>> /\ served = 0
Everybody(c) == \A p \in {"C01", "C02", "P01", "S01", "S02"} : Chk(p, c)
\* ---------------------------------------------------------------- control
Req == Is("req") /\ Take /\ Ask(Request(E.b)) /\ since' = (IF Len(asked') > Len(asked) THEN Append(since, Len(atts)) ELSE since)
       /\ UNCHANGED <<atts, dead, pos, extra, on, typed, served>>
BadFrame == Is("badframe") /\ Take /\ Ask(Other("bad")) /\ since' = Append(since, Len(atts)) /\ UNCHANGED <<atts, dead, pos, extra, on, typed, served>>
RunIt == /\ Is("run") /\ Take
         /\ Chk("C01", MayRun) /\ Chk("C02", ending = 0)
         /\ Run([ok |-> E.ok, err |-> E.err])
         /\ UNCHANGED aux
Zero(b) == \A i \in 1..Len(b) : b[i] = 0
Elems(v) == {v[j] : j \in 1..Len(v)}
\* the reply to request i
Good(i, b) == \E f \in {Fields(b, 1, <<>>)} : \E k \in {Kinds(f)} :
  LET res == ran[asked[i].sp] IN
  CASE asked[i].k = "size" -> b = <<>>
    [] asked[i].k = "list" -> /\ k # <<>> /\ \A j \in 1..Len(k) : k[j] = "i"
                              /\ \E s \in {{f[j].n : j \in 2..Len(f)}} : \E a \in since[i]..Len(atts) : f[1].n = Len(atts[a]) /\ Len(f) = Len(atts[a]) + 1 /\ s = Elems(atts[a])
    [] asked[i].k = "spawn" -> IF res.ok THEN k = <<"i", "q", "q">> /\ f[1].n = 1 /\ (Zero(f[2].s) <=> ~asked[i].wp) /\ (Zero(f[3].s) <=> ~asked[i].wt)
                               ELSE k = <<"i", "i">> /\ f[1].n = 0 /\ f[2].n = res.err
    [] OTHER -> FALSE
Rep == /\ Is("rep") /\ Take /\ Reply
       /\ Chk("C01", MayReply /\ Good(nrep + 1, E.b))
       /\ UNCHANGED aux
Att == Is("att") /\ Take /\ atts' = Append(atts, E.v) /\ UNCHANGED <<life, since, dead, pos, extra, on, typed, served>>
GoneNow == Is("gone") /\ Take /\ Gone /\ UNCHANGED aux
RECURSIVE LastSize(_)
LastSize(n) == IF n = 0 THEN 0 ELSE IF asked[n].k = "size" /\ ~asked[n].bad THEN n ELSE LastSize(n - 1)
Win == /\ Is("win") /\ Take /\ UNCHANGED <<life, aux>>
       /\ Chk("C01", cli = "up" => LET m == LastSize(Len(asked)) IN <<E.c, E.r>> = IF m = 0 THEN <<C.c, C.r>> ELSE <<asked[m].c, asked[m].r>>)
\* ---------------------------------------------------------------- the data pipes
Connect == Is("conn") /\ Take /\ Turn(E.p, "open") /\ UNCHANGED aux
Left == Is("left") /\ Take /\ Turn(E.p, "left") /\ UNCHANGED aux
Shut == /\ Is("shut") /\ Take /\ UNCHANGED aux
        /\ IF pipe[E.p] = "left" \/ dead THEN UNCHANGED life
           ELSE Turn(E.p, "shut") /\ Chk("S01", E.p # "conin" /\ MayShut(E.p)) /\ Chk("P01", E.p # "conin" /\ Closing) /\ Chk("S02", E.p # "conin")
In == Is("in") /\ Take /\ typed' = typed \o E.b /\ UNCHANGED <<life, atts, since, dead, pos, extra, on, served>>
Chars == /\ Is("chars") /\ Take /\ Chk("C02", ending = 0)
         /\ Chk("P01", Len(E.v) <= Len(typed) /\ SubSeq(typed, 1, Len(E.v)) = E.v)
         /\ typed' = SubSeq(typed, Len(E.v) + 1, Len(typed)) /\ UNCHANGED <<life, atts, since, dead, pos, extra, on, served>>
\* what follows the final screen: switching mouse reporting off, possibly a query
RECURSIVE Tail1(_, _)
Tail1(b, i) == \* b from i on consists of complete ESC [ ? digits l, or ESC [ 6 n
  IF i > Len(b) THEN TRUE
  ELSE IF SubSeq(b, i, i + 3) = <<27, 91, 54, 110>> THEN Tail1(b, i + 4)
  ELSE /\ SubSeq(b, i, i + 2) = <<27, 91, 63>>
       /\ \E j \in (i + 4)..(i + 8) : /\ j <= Len(b) /\ b[j] = 108 /\ \A k \in (i + 3)..(j - 1) : b[k] \in 48..57
                                     /\ Tail1(b, j + 1)
Out == /\ Is("out") /\ Take
       /\ LET p == E.p
              ref == C.ref[p]
              n == Len(E.b)
              m == IF pos[p] + n <= Len(ref) THEN n ELSE IF pos[p] >= Len(ref) THEN 0 ELSE Len(ref) - pos[p]
              x == extra[p] \o SubSeq(E.b, m + 1, n) IN
          /\ C.stream => /\ \A q \in {"P01", "S01"} : Chk(q, SubSeq(ref, pos[p] + 1, pos[p] + m) = SubSeq(E.b, 1, m))
                         /\ \A q \in {"P01", "S01"} : Chk(q, m < n => Closing)
          /\ pos' = [pos EXCEPT ![p] = @ + n] /\ extra' = [extra EXCEPT ![p] = x]
          /\ E.eof /\ ~dead /\ ending = 0 => Chk("S01", pipe[p] = "shut")
          /\ E.eof /\ pipe[p] = "shut" /\ C.stream => /\ Chk("S01", pos[p] + n >= Len(ref) /\ Tail1(x, 1) /\ (p = "conout" => on = {}))
                                                      /\ \A q \in {"P01", "S02"} : Chk(q, pos[p] + n >= Len(ref))
       /\ UNCHANGED <<life, atts, since, dead, on, typed, served>>
RECURSIVE Modes(_, _, _)
Modes(k, i, o) == IF i > Len(k) THEN o ELSE Modes(k, i + 1, IF k[i][2] THEN o \cup {k[i][1]} ELSE o \ {k[i][1]})
Mode == Is("modes") /\ Take /\ on' = Modes(E.k, 1, on) /\ UNCHANGED <<life, atts, since, dead, pos, extra, typed, served>>
\* ---------------------------------------------------------------- the end
Exit == Is("exit") /\ Take /\ KidExits /\ UNCHANGED aux
EndIt == /\ Is("end") /\ Take /\ End /\ served' = nrep /\ UNCHANGED <<atts, since, dead, pos, extra, on, typed>>
         /\ Chk("C02", ending = 0) /\ \A p \in {"S02", "C01", "P01", "S01"} : Chk(p, Over) /\ Chk("S02", ending = 0)
Died == Is("died") /\ Take /\ dead' = TRUE /\ UNCHANGED <<life, atts, since, pos, extra, on, typed, served>> /\ Everybody(ending > 0 \/ Broken)
Abort == Is("abort") /\ Take /\ dead' = TRUE /\ UNCHANGED <<life, atts, since, pos, extra, on, typed, served>> /\ Everybody(Broken)
Read(p) == \E i \in 1..Len(E.rd) : E.rd[i] = p
AllAnswered == Read("ctl") /\ ~Broken /\ cli = "up" /\ ending = 0 => nrep = Len(asked)
Settle ==
  /\ Is("settle") /\ Take /\ UNCHANGED <<life, aux>>
  /\ \A p \in {"C01", "S02", "P01"} : Chk(p, AllAnswered)
  /\ Chk("C02", cli = "gone" => ending = 1)
  /\ Chk("C02", cli = "gone" /\ E.full => dead /\ atts[Len(atts)] = <<>>)
  /\ ending = 0 =>
       /\ Chk("P01", typed = <<>> \/ pipe["conin"] = "waiting")
       /\ \A p \in Outs : Read(p) /\ C.stream /\ pipe[p] = "open" => \A q \in {"P01", "S01"} : Chk(q, pos[p] >= Len(C.ref[p]))
       /\ \A p \in Outs : Read(p) /\ pipe[p] = "open" => Chk("S01", ~Closing)
  /\ Chk("S02", Over <=> ending > 0)
  /\ Chk("S02", Over /\ E.full => dead /\ atts[Len(atts)] = <<>>)
  /\ C.plain /\ E.full => Chk("P01", SelectSeq(C.ref["conout"], LAMBDA x : x > 32) = C.text)
TraceNext == Req \/ BadFrame \/ RunIt \/ Rep \/ Att \/ GoneNow \/ Win \/ Connect \/ Left \/ Shut \/ In \/ Chars \/ Out \/ Mode \/ Exit \/ EndIt \/ Died \/ Abort \/ Settle
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
