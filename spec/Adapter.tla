------------------------------- MODULE Adapter -------------------------------
\* What the Unix adapter promises: it asks for a session of the terminal's size, starts the program it was told to start, and is a relay
\* between the terminal and the session until one of them has had enough.
EXTENDS Integers, Sequences, FiniteSets
VARIABLES phase,     \* "new", "up" (the program runs), "left" (the session has been dismissed), "gone" (the adapter has exited)
          inq,       \* typed and not yet in the session's input pipe
          outq,      \* written by the session and not yet on the terminal, for output 1 and error 2
          hung,      \* the terminal's input has ended
          cut,       \* the session takes no input any more
          over,      \* outputs the session has ended
          failed,    \* outputs the terminal refuses
          told       \* the size the session knows
relay == <<phase, inq, outq, hung, cut, over, failed, told>>
Init0 == phase = "new" /\ inq = <<>> /\ outq = [p \in {1, 2} |-> <<>>] /\ hung = FALSE /\ cut = FALSE /\ over = {} /\ failed = {} /\ told = <<0, 0>>
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Prefix(b, s) == Len(b) <= Len(s) /\ SubSeq(s, 1, Len(b)) = b
\* ---------------------------------------------------------------- what happens
Types(b) == inq' = inq \o b /\ UNCHANGED <<phase, outq, hung, cut, over, failed, told>>
HangsUp == hung' = TRUE /\ UNCHANGED <<phase, inq, outq, cut, over, failed, told>>
Writes(p, b) == outq' = [outq EXCEPT ![p] = @ \o b] /\ UNCHANGED <<phase, inq, hung, cut, over, failed, told>>
EndsOutput(p) == over' = over \cup {p} /\ UNCHANGED <<phase, inq, outq, hung, cut, failed, told>>
EndsInput == cut' = TRUE /\ UNCHANGED <<phase, inq, outq, hung, over, failed, told>>
Refuses(p) == failed' = failed \cup {p} /\ UNCHANGED <<phase, inq, outq, hung, cut, over, told>>
MaySend(b) == Prefix(b, inq)
Send(b) == inq' = Drop(inq, Len(b)) /\ UNCHANGED <<phase, outq, hung, cut, over, failed, told>>
MayShow(p, b) == Prefix(b, outq[p])
Show(p, b) == outq' = [outq EXCEPT ![p] = Drop(@, Len(b))] /\ UNCHANGED <<phase, inq, hung, cut, over, failed, told>>
Tell(z) == told' = z /\ UNCHANGED <<phase, inq, outq, hung, cut, over, failed>>
Starts == phase' = "up" /\ UNCHANGED <<inq, outq, hung, cut, over, failed, told>>
\* a reason to stop, and one that nobody has to wait for
Reason == hung \/ cut \/ over # {} \/ failed # {}
Noticed(deaf) == \/ (hung /\ (inq = <<>> \/ ~deaf)) \/ (cut /\ inq # <<>>) \/ failed # {} \/ \E p \in over : outq[p] = <<>>
MayLeave == Reason
Leave == phase' = "left" /\ UNCHANGED <<inq, outq, hung, cut, over, failed, told>>
\* what the session wrote has been shown; what was typed before a hang-up has been passed on, unless something else ended it
MayEnd == /\ Reason
          /\ \A p \in {1, 2} : outq[p] = <<>> \/ p \in failed
          /\ (~cut /\ over = {} /\ failed = {}) => inq = <<>>
End == phase' = "gone" /\ UNCHANGED <<inq, outq, hung, cut, over, failed, told>>
\* nothing moves any more: deaf = the session's input pipe is full, blocked = outputs the terminal takes nothing for
Still(blocked, deaf) ==
  LET waits == \E p \in blocked : outq[p] # <<>> IN
  /\ phase = "up" => /\ cut \/ inq = <<>> \/ deaf
                     /\ \A p \in {1, 2} : outq[p] = <<>> \/ p \in blocked
                     /\ ~Noticed(deaf)
  /\ phase = "left" => waits
\* ---------------------------------------------------------------- which program: a command line that means the words it was made of
Quote == 34
Slash == 92
Blank(c) == c = 32 \/ c = 9
RECURSIVE Fold(_, _, _, _, _, _, _)
\* the rules of CommandLineToArgvW: word = what has been read of it, on = there is one, q = within quotes, n = backslashes
Fold(s, i, words, word, on, q, n) ==
  LET bs(k) == [j \in 1..k |-> Slash] IN
  IF i > Len(s) THEN (IF on THEN Append(words, word \o bs(n)) ELSE words)
  ELSE IF s[i] = Slash THEN Fold(s, i + 1, words, word, TRUE, q, n + 1)
  ELSE IF s[i] = Quote THEN (IF n % 2 = 1 THEN Fold(s, i + 1, words, word \o bs(n \div 2) \o <<Quote>>, TRUE, q, 0)
                             ELSE IF q /\ i < Len(s) /\ s[i + 1] = Quote THEN Fold(s, i + 2, words, word \o bs(n \div 2) \o <<Quote>>, TRUE, FALSE, 0)
                             ELSE Fold(s, i + 1, words, word \o bs(n \div 2), TRUE, ~q, 0))
  ELSE IF Blank(s[i]) /\ ~q THEN Fold(s, i + 1, IF on THEN Append(words, word \o bs(n)) ELSE words, <<>>, FALSE, FALSE, 0)
  ELSE Fold(s, i + 1, words, word \o bs(n) \o <<s[i]>>, TRUE, q, 0)
RECURSIVE Until(_, _, _)
Until(s, i, stops) == IF i > Len(s) \/ s[i] \in stops THEN i ELSE Until(s, i + 1, stops)
Words(s) == IF s = <<>> THEN <<>>
            ELSE IF s[1] = Quote THEN (LET k == Until(s, 2, {Quote}) IN Fold(s, k + 1, <<SubSeq(s, 2, k - 1)>>, <<>>, FALSE, FALSE, 0))
            ELSE LET k == Until(s, 1, {32, 9}) IN Fold(s, k, <<SubSeq(s, 1, k - 1)>>, <<>>, FALSE, FALSE, 0)
\* ---------------------------------------------------------------- options
Opt == [h |-> <<45, 104>>, help |-> <<45, 45, 104, 101, 108, 112>>, mouse |-> <<45, 45, 109, 111, 117, 115, 101>>, keys |-> <<45, 45, 115, 104, 111, 119, 107, 101, 121>>,
        version |-> <<45, 45, 118, 101, 114, 115, 105, 111, 110>>, stop |-> <<45, 45>>, any |-> <<45, 88, 97, 108, 108, 111, 119, 45, 110, 111, 110, 45, 116, 116, 121>>,
        err |-> <<45, 88, 99, 111, 110, 101, 114, 114>>, plain |-> <<45, 88, 112, 108, 97, 105, 110>>, color |-> <<45, 88, 99, 111, 108, 111, 114>>]
Flags == {"mouse", "keys", "any", "err", "plain", "color"}
RECURSIVE Plan(_, _, _)
\* what to do with the arguments from i on: [k |-> "help"|"version"|"bad"|"usage"|"keys"|"run", opts, words]
Plan(args, i, opts) ==
  LET rest == SubSeq(args, i, Len(args))
      go(w) == [k |-> IF "keys" \in opts THEN "keys" ELSE IF w = <<>> THEN "usage" ELSE "run", opts |-> opts, words |-> w]
      only(k) == [k |-> k, opts |-> opts, words |-> <<>>] IN
  IF rest = <<>> THEN go(<<>>)
  ELSE LET a == args[i] IN
       IF a = <<>> \/ a[1] # 45 THEN go(rest)
       ELSE IF a = Opt.h \/ a = Opt.help THEN only("help")
       ELSE IF a = Opt.version THEN only("version")
       ELSE IF a = Opt.stop THEN go(Tail(rest))
       ELSE IF \E f \in Flags : a = Opt[f] THEN Plan(args, i + 1, opts \cup {CHOOSE f \in Flags : a = Opt[f]})
       ELSE only("bad")
\* ---------------------------------------------------------------- looking for a program: files is a list of [ask, real, win, x]
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Exe == <<46, 101, 120, 101>>
Ext(s) == IF Len(s) < 4 THEN <<>> ELSE [j \in 1..4 |-> Lower(s[Len(s) - 4 + j])]
Plain(s) == Ext(s) \notin {Exe, <<46, 98, 97, 116>>, <<46, 99, 109, 100>>, <<46, 99, 111, 109>>}
Named(files, n) == {j \in 1..Len(files) : files[j].ask = n}
Runs(files, n) == \E j \in 1..Len(files) : files[j].real = n /\ files[j].x
Back(s) == [j \in 1..Len(s) |-> IF s[j] = 47 THEN Slash ELSE s[j]]
NotFound == <<>>
RECURSIVE Search(_, _, _)
Search(files, dirs, n) ==
  IF dirs = <<>> THEN NotFound
  ELSE LET d == Head(dirs)
           ask == IF d = <<>> \/ d[Len(d)] = 47 THEN d \o n ELSE d \o <<47>> \o n
           hit == Named(files, ask) IN
       IF hit = {} THEN Search(files, Tail(dirs), n)
       ELSE LET f == files[CHOOSE j \in hit : TRUE]
                tail == IF Plain(f.real) THEN Exe ELSE <<>> IN
            IF Runs(files, f.real \o tail) THEN Back(f.win \o tail) ELSE Search(files, Tail(dirs), n)
Program(files, dirs, n) == IF \E j \in 1..Len(n) : n[j] \in {47, Slash}
                           THEN (LET hit == Named(files, n) IN IF hit = {} THEN NotFound ELSE Back(files[CHOOSE j \in hit : TRUE].win))
                           ELSE Search(files, dirs, n)
\* ---------------------------------------------------------------- terminal modes: [i, o, c, l: sets of names, min, time, size]
RawIn(m) == [m EXCEPT !.i = @ \ {"BRKINT", "ICRNL", "INPCK", "ISTRIP", "IXON"}, !.l = @ \ {"ECHO", "ICANON", "IEXTEN", "ISIG"}, !.c = @ \ {"PARENB"}, !.size = 8, !.min = 1, !.time = 0]
RawOut(m) == [m EXCEPT !.o = @ \ {"OPOST"}, !.c = @ \ {"PARENB"}, !.size = 8]
=============================================================================
