---------------------------- MODULE AdapterTrace ----------------------------
\* Judges runs of the real adapter (with the real client library, a simulated terminal and a scripted session) against Adapter.
\* cfg: argv (UTF-16 words after the program name), dirs (PATH), files, tty (terminals among 0 1 2), shared (they are one), size (of the terminal), modes (per descriptor),
\*      open (the session opens), spawn ("good" or an error number), env (what the user exported), script (only "cut": the child never reports)
\* Events: agent (flags, mouse, c, r, env), start (flags, prog, cmd, cwd, envb), up, nostart, typed b, hup, in b, cut, said p b, ended p, show p b, refuse p, size c r, tell c r,
\*         mode (fd, m), kid (code), leave, exit (code, how), still (alive, deaf, blocked)
EXTENDS TraceBase, Adapter
VARIABLES sizes,     \* the terminal's sizes so far
          modes, kid, said1, said2, started, launched, echo
aux == <<sizes, modes, kid, said1, said2, started, launched, echo>>
vars == <<relay, aux, tid, l>>
C == T.cfg
Elems(v) == {v[j] : j \in 1..Len(v)}
Mode(m) == [m EXCEPT !.i = Elems(@), !.o = Elems(@), !.c = Elems(@), !.l = Elems(@)]
Orig == [fd \in 1..3 |-> Mode(C.modes)]
P == Plan(C.argv, 1, {})
HasErr == "err" \in P.opts
IsTty(fd) == fd \in Elems(C.tty)
\* the modes a descriptor has while the relay works
OutTtys == {fd \in {1} \cup (IF HasErr THEN {2} ELSE {}) : IsTty(fd)}
Want(fd) == IF C.shared THEN (LET m == IF IsTty(0) THEN RawIn(Orig[1]) ELSE Orig[1] IN IF OutTtys # {} THEN RawOut(m) ELSE m)
            ELSE IF ~IsTty(fd) THEN Orig[fd + 1] ELSE IF fd = 0 THEN RawIn(Orig[1]) ELSE IF fd \in OutTtys THEN RawOut(Orig[fd + 1]) ELSE Orig[fd + 1]
Usable(z) == z[1] > 0 /\ z[2] > 0
TraceInit == /\ TraceStart /\ Init0 /\ sizes = <<T.cfg.size>> /\ kid = "none" /\ said1 = <<>> /\ said2 = <<>> /\ started = FALSE /\ launched = FALSE /\ echo = <<>>
             /\ modes = [fd \in 1..3 |-> Mode(T.cfg.modes)]
Wanted == Program(C.files, C.dirs, P.words[1])
Known == {sizes[j] : j \in 1..Len(sizes)}
Default == <<80, 25>>
Agent == /\ Is("agent") /\ Take /\ Tell(<<E.c, E.r>>) /\ launched' = TRUE /\ UNCHANGED <<sizes, modes, kid, said1, said2, started, echo>>
         /\ Chk("U02", /\ P.k = "run" /\ ~launched
                       /\ E.flags = 8 + (IF HasErr THEN 1 ELSE 0) + (IF "plain" \in P.opts THEN 2 ELSE 0) + (IF "color" \in P.opts THEN 4 ELSE 0)
                       /\ (E.mouse = 2) = ("mouse" \in P.opts)
                       /\ ~E.term /\ (C.debug # <<>> => E.debug = C.debug) /\ (C.show # <<>> => E.show = C.show))
         /\ Chk("U03", <<E.c, E.r>> \in (IF IsTty(0) THEN {z \in Known : Usable(z)} \cup (IF \E z \in Known : ~Usable(z) THEN {Default} ELSE {}) ELSE {Default}))
Start == /\ Is("start") /\ Take /\ started' = TRUE /\ UNCHANGED <<relay, sizes, modes, kid, said1, said2, launched, echo>>
         /\ Chk("U02", /\ P.k = "run" /\ ~started /\ Wanted # NotFound /\ E.flags = 1 /\ E.prog = <<>> /\ E.cwd = <<>> /\ E.envb = <<>>
                       /\ Words(E.cmd) = <<Wanted>> \o Tail(P.words))
Up == Is("up") /\ Take /\ Starts /\ UNCHANGED aux
Typed == Is("typed") /\ Take /\ Types(E.b) /\ UNCHANGED aux
Hup == Is("hup") /\ Take /\ HangsUp /\ UNCHANGED aux
In == Is("in") /\ Take /\ Chk("U01", MaySend(E.b)) /\ Send(E.b) /\ UNCHANGED aux
Cut == Is("cut") /\ Take /\ (IF phase = "up" \/ phase = "new" THEN EndsInput ELSE UNCHANGED relay) /\ UNCHANGED aux
Said == Is("said") /\ Take /\ Writes(E.p, E.b) /\ UNCHANGED aux
Ended == Is("ended") /\ Take /\ EndsOutput(E.p) /\ UNCHANGED aux
\* before the program runs, the adapter speaks for itself
ShowIt == /\ Is("show") /\ Take
          /\ IF phase = "new" \/ C.barred THEN /\ (IF E.p = 1 THEN said1' = said1 \o E.b /\ said2' = said2 ELSE said2' = said2 \o E.b /\ said1' = said1)
                                   /\ UNCHANGED <<relay, sizes, modes, kid, started, launched, echo>>
             ELSE /\ Chk("U01", phase # "gone" /\ (E.p = 2 => HasErr) /\ MayShow(E.p, E.b)) /\ Show(E.p, E.b) /\ UNCHANGED aux
                  /\ Chk("U03", modes[E.p + 1] = Want(E.p))
Refuse == Is("refuse") /\ Take /\ Refuses(E.p) /\ UNCHANGED aux
Size == Is("size") /\ Take /\ sizes' = Append(sizes, <<E.c, E.r>>) /\ UNCHANGED <<relay, modes, kid, said1, said2, started, launched, echo>>
TellIt == Is("tell") /\ Take /\ Chk("U03", phase = "up" /\ IsTty(0) /\ <<E.c, E.r>> \in Known) /\ Tell(<<E.c, E.r>>) /\ UNCHANGED aux
ModeIt == /\ Is("mode") /\ Take /\ modes' = [fd \in 1..3 |-> IF fd = E.fd + 1 \/ C.shared THEN Mode(E.m) ELSE modes[fd]]
          /\ UNCHANGED <<relay, sizes, kid, said1, said2, started, launched, echo>>
Kid == Is("kid") /\ Take /\ kid' = E.code /\ UNCHANGED <<relay, sizes, modes, said1, said2, started, launched, echo>>
LeaveIt == Is("leave") /\ Take /\ (IF phase = "up" THEN Chk("U01", MayLeave) /\ Leave ELSE UNCHANGED relay) /\ UNCHANGED aux
Contains(s, w) == \E j \in 0..(Len(s) - Len(w)) : SubSeq(s, j + 1, j + Len(w)) = w
\* why it did not run the program: exit code and words
Excuse(code) ==
  CASE P.k = "help" -> code = "0" /\ said1 # <<>> /\ said2 = <<>>
    [] P.k = "version" -> code = "0" /\ said1 # <<>> /\ said2 = <<>>
    [] P.k = "usage" -> code = "1" /\ said1 # <<>>
    [] P.k = "bad" -> code = "1" /\ said2 # <<>>
    [] P.k = "keys" -> code = (IF IsTty(0) \/ "any" \in P.opts THEN "0" ELSE "1")
    [] OTHER -> code = "1" /\ said2 # <<>> /\ Contains(said2, IF Wanted = NotFound /\ ~C.unopened THEN C.bytes[Len(C.argv) - Len(P.words) + 1] ELSE C.why)
ExitIt == /\ Is("exit") /\ Take /\ End /\ UNCHANGED aux
          /\ Chk("U03", modes = Orig)
          /\ IF phase = "new" THEN Chk("U02", Excuse(E.code) /\ (P.k # "run" => ~launched) /\ (P.k = "run" => C.excused \/ Wanted = NotFound)) /\ Chk("U01", E.how \in {"main", "exit"})
             ELSE /\ Chk("U01", E.how \in {"main", "exit"} /\ (C.barred \/ MayEnd))
                  /\ Chk("U02", IF C.barred THEN E.code = "1" ELSE kid # "none" => E.code = kid)
Blocked == Elems(E.blocked)
Still0 == /\ Is("still") /\ Take /\ UNCHANGED <<relay, aux>>
          /\ E.alive => /\ Chk("U01", ~C.barred /\ Still(Blocked, E.deaf))
                        /\ Chk("U03", phase = "up" => /\ IsTty(0) => (told = sizes[Len(sizes)] \/ ~Usable(sizes[Len(sizes)]))
                                                      /\ \A fd \in 0..2 : modes[fd + 1] = Want(fd))
                        /\ Chk("U02", phase = "new" => P.k = "keys")
          /\ ~E.alive => Chk("U01", phase = "gone")
Next == Agent \/ Start \/ Up \/ Typed \/ Hup \/ In \/ Cut \/ Said \/ Ended \/ ShowIt \/ Refuse \/ Size \/ TellIt \/ ModeIt \/ Kid \/ LeaveIt \/ ExitIt \/ Still0
TraceSpec == TraceInit /\ [][Next]_vars
=============================================================================
