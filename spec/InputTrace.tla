----------------------------- MODULE InputTrace -----------------------------
\* Judges what the real agent makes of terminal input.
\* cfg: mode (mouse mode 0 none, 1 automatic, 2 forced), plain, german, chunk (the agent may get the bytes in smaller pieces)
\* Events: in (b, now), rec (r: records, now), op, mode (m), win, tok (k: output tokens), settle, pass, dead, misuse
EXTENDS TraceBase, Input
VARIABLES rd,        \* the reader
          cont,      \* "no", or what is to be continued after an interrupt: "feed", "eof"
          due,       \* what has to reach the application next
          lastIn,    \* when bytes last came
          mode, win, \* the console's input mode, the window
          owed,      \* queries to come
          could,     \* a query may come although nothing is left undecided now
          on,        \* mouse modes on in the terminal
          hist, ref, \* the records of this pass, and of the first one (<<>>, <<records>>)
          open, held \* key that is down, modifiers that are down
vars == <<rd, cont, due, lastIn, mode, win, owed, could, on, hist, ref, open, held, tid, l>>
C == T.cfg
P == CHOOSE p \in Props : TRUE
NoOpen == [vk |-> -1, dn |-> <<>>, up |-> 0, st |-> 0]
TraceInit == /\ TraceStart /\ rd = Reader0 /\ cont = "no" /\ due = <<>> /\ lastIn = 0 /\ mode = 7 /\ win = [l |-> 0, t |-> 0, w |-> 80, h |-> 25]
             /\ owed = 0 /\ could = FALSE /\ on = {} /\ hist = <<>> /\ ref = <<>> /\ open = NoOpen /\ held = <<>>
\* ---------------------------------------------------------------- what each property looks at
Has2(m, v) == (m \div v) % 2 = 1
IsMod3(v) == v \in {VSHIFT, VCTRL, VALT}
Char1(r) == r[1] = "k" /\ r[2] = 1 /\ ~IsMod3(r[3]) /\ r[4] # 0
See(r) ==
  CASE P = "I02" -> IF r[1] = "k" THEN IF r[2] = 1 /\ ~IsMod3(r[3]) THEN <<<<r[3], r[4]>>>> ELSE <<>> ELSE IF r[1] = "m" /\ r[2] = 0 THEN <<>> ELSE <<r>>
    [] P = "I04" -> IF r[1] = "p" THEN <<r>> ELSE <<>>
    [] P = "I05" -> IF Char1(r) THEN <<<<r[4], (r[5] \div CTRL) % 2>>>> ELSE IF r[1] = "c" THEN <<r>> ELSE <<>>
    [] P = "I06" -> IF Char1(r) THEN <<<<r[4], (r[5] \div LALT) % 2>>>> ELSE <<>>
    [] P \in {"I07", "I08"} -> <<r>>
    [] OTHER -> <<>>
RECURSIVE SeeAll(_, _)
SeeAll(s, i) == IF i > Len(s) THEN <<>> ELSE See(s[i]) \o SeeAll(s, i + 1)
Strict == P \in {"I02", "I04", "I05", "I06", "I07", "I08"}
\* ---------------------------------------------------------------- steps
Env(t) == [proc |-> Has2(mode, 1), vt |-> Has2(mode, 512), mouse |-> Has2(mode, 16) /\ ~Has2(mode, 64), german |-> C.german, win |-> win, now |-> t]
Pending == rd.buf # <<>> /\ cont = "no"
Late(t) == Pending /\ t > lastIn + 1000
MustHaveExpired(t) == Pending /\ t > lastIn + 1100
After(r, how) ==
  LET ask == ~r.int /\ how = "feed" /\ r.rd.buf # <<>> /\ ~r.rd.asked IN
  /\ rd' = IF ask THEN [r.rd EXCEPT !.asked = TRUE] ELSE r.rd
  /\ owed' = IF ask /\ ~C.plain THEN owed + 1 ELSE owed
  /\ due' = due \o SeeAll(r.out, 1) /\ cont' = IF r.int THEN how ELSE "no"
\* what has been undecided for a second is decided
Flush == /\ More /\ Has(E, "now") /\ Late(E.now) /\ Silent
         /\ After(Expire(rd, Env(E.now)), "eof") /\ UNCHANGED <<lastIn, mode, win, could, on, hist, ref, open, held>>
\* the rest, once an interrupt has been raised
Continue == /\ More /\ cont # "no" /\ (due = <<>> \/ ~Strict) /\ Silent
            /\ After(IF cont = "eof" THEN Expire(rd, Env(lastIn)) ELSE Run(rd, FALSE, Env(lastIn), <<>>), cont)
            /\ UNCHANGED <<lastIn, mode, win, could, on, hist, ref, open, held>>
InTime == ~(Has(E, "now") /\ MustHaveExpired(E.now))
In == /\ Is("in") /\ Take /\ InTime /\ cont = "no"
      /\ After(Feed(rd, E.b, Env(E.now)), "feed")
      /\ could' = (could \/ (C.chunk /\ \E i \in 1..Len(E.b) : E.b[i] = 27 \/ CharLen(E.b[i]) > 1))
      /\ lastIn' = E.now /\ UNCHANGED <<mode, win, on, hist, ref, open, held>>
\* ---------------------------------------------------------------- balance
ModBits(h) == LET b(k, v) == IF \E i \in 1..Len(h) : h[i] = k THEN v ELSE 0 IN b(<<VCTRL, 0>>, CTRL) + b(<<VALT, 0>>, LALT) + b(<<VALT, 1>>, RALT) + b(<<VSHIFT, 0>>, SHIFT)
RECURSIVE Balance(_, _, _, _)
Balance(s, i, o, h) ==
  IF i > Len(s) THEN [ok |-> TRUE, open |-> o, held |-> h]
  ELSE LET r == s[i]
           m == <<r[3], (r[5] \div ENHANCED) % 2>>
           bits == r[5] - ENHANCED * ((r[5] \div ENHANCED) % 2)
           bad == [ok |-> FALSE, open |-> o, held |-> h] IN
       IF r[1] # "k" THEN IF o = NoOpen /\ h = <<>> THEN Balance(s, i + 1, o, h) ELSE bad
       ELSE IF IsMod3(r[3]) THEN
         LET h2 == IF r[2] = 1 THEN Append(h, m) ELSE SubSeq(h, 1, Len(h) - 1) IN
         IF o = NoOpen /\ r[4] = 0 /\ (IF r[2] = 1 THEN m \notin {h[j] : j \in 1..Len(h)} ELSE h # <<>> /\ h[Len(h)] = m) /\ bits = ModBits(h2) /\ (m[2] = 1 => r[3] = VALT)
         THEN Balance(s, i + 1, o, h2) ELSE bad
       ELSE IF bits # ModBits(h) THEN bad
       ELSE IF r[2] = 1 THEN
         IF o = NoOpen THEN Balance(s, i + 1, [vk |-> r[3], dn |-> <<r[4]>>, up |-> 0, st |-> r[5]], h)
         ELSE IF o.vk = r[3] /\ o.up = 0 /\ o.st = r[5] /\ Len(o.dn) = 1 /\ o.dn[1] \in 55296..56319 /\ r[4] \in 56320..57343 THEN Balance(s, i + 1, [o EXCEPT !.dn = Append(o.dn, r[4])], h)
         ELSE bad
       ELSE LET alt == <<VALT, 0>> \in {h[j] : j \in 1..Len(h)} IN
         IF o.vk = r[3] /\ o.st = r[5] /\ (r[4] = o.dn[o.up + 1] \/ (alt /\ r[4] = 0))
         THEN Balance(s, i + 1, IF o.up + 1 = Len(o.dn) \/ (alt /\ r[4] = 0) THEN NoOpen ELSE [o EXCEPT !.up = o.up + 1], h)
         ELSE bad
Rec == /\ Is("rec") /\ Take /\ InTime
       /\ LET s == SeeAll(E.r, 1) IN
          /\ Strict => Len(s) <= Len(due) /\ SubSeq(due, 1, Len(s)) = s
          /\ due' = IF Strict THEN SubSeq(due, Len(s) + 1, Len(due)) ELSE <<>>
       /\ Chk("I07", \A i \in 1..Len(E.r) : E.r[i][1] = "k" => E.rep)
       /\ Chk("I08", \A i \in 1..Len(E.r) : E.r[i][1] = "m" => Has2(mode, 512))
       /\ IF P = "I03" THEN LET b == Balance(E.r, 1, open, held) IN b.ok /\ open' = b.open /\ held' = b.held ELSE UNCHANGED <<open, held>>
       /\ hist' = IF P = "I01" THEN hist \o E.r ELSE hist
       /\ UNCHANGED <<rd, cont, lastIn, mode, win, owed, could, on, ref>>
Keep == UNCHANGED <<rd, cont, due, lastIn, hist, ref, open, held>>
Mode == Is("mode") /\ Take /\ InTime /\ mode' = E.m /\ Keep /\ UNCHANGED <<win, owed, could, on>>
Win == Is("win") /\ Take /\ win' = [l |-> E.l, t |-> E.t, w |-> E.w, h |-> E.h] /\ Keep /\ UNCHANGED <<mode, owed, could, on>>
\* what the terminal is told: queries, mouse reporting
RECURSIVE Toks(_, _, _)
Toks(k, i, a) ==
  IF i > Len(k) THEN a
  ELSE IF k[i][1] = "d" THEN Toks(k, i + 1, [a EXCEPT !.d = @ + 1])
  ELSE IF k[i][1] = "o" THEN Toks(k, i + 1, [a EXCEPT !.on = IF k[i][2][2] THEN @ \cup {k[i][2][1]} ELSE @ \ {k[i][2][1]}])
  ELSE Toks(k, i + 1, a)
Tok == /\ Is("tok") /\ Take
       /\ LET a == Toks(E.k, 1, [d |-> 0, on |-> on]) IN
          /\ Chk("I02", C.plain => a.d = 0)
          /\ \/ a.d <= owed /\ owed' = owed - a.d /\ UNCHANGED <<could, rd>>
             \/ a.d = owed + 1 /\ could /\ ~rd.asked /\ owed' = 0 /\ could' = FALSE /\ rd' = [rd EXCEPT !.asked = TRUE]
             \/ P # "I02" /\ a.d > owed /\ owed' = 0 /\ UNCHANGED <<could, rd>>
          /\ on' = a.on
       /\ UNCHANGED <<cont, due, lastIn, mode, win, hist, ref, open, held>>
Tracking == {1000, 1002, 1003}
WantsMouse == ~C.plain /\ (C.mode = 2 \/ (C.mode = 1 /\ Has2(mode, 16) /\ ~Has2(mode, 64) /\ Has2(mode, 128)))
\* everything has been read, output included.  polled: the agent has had its regular look since the last change of mode
Settle == /\ Is("settle") /\ Take /\ InTime
          /\ (cont = "no" /\ due = <<>>) \/ ~Strict
          /\ Chk("I02", owed = 0)
          /\ Chk("I03", open = NoOpen /\ held = <<>>)
          /\ E.polled => Chk("I04", IF WantsMouse THEN on \cap Tracking # {} ELSE on = {})
          /\ UNCHANGED <<rd, cont, due, lastIn, mode, win, owed, could, on, hist, ref, open, held>>
\* the same bytes again, cut differently
Pass == /\ Is("pass") /\ Take
        /\ (IF ref = <<>> THEN TRUE ELSE Chk("I01", hist = ref[1]))
        /\ ref' = IF ref = <<>> THEN <<hist>> ELSE ref
        /\ hist' = <<>> /\ UNCHANGED <<rd, cont, due, lastIn, mode, win, owed, could, on, open, held>>
TraceNext == Flush \/ Continue \/ In \/ Rec \/ Mode \/ Win \/ Tok \/ Settle \/ Pass
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
