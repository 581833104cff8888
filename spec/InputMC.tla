------------------------------ MODULE InputMC ------------------------------
\* Every byte sequence up to length Max over Alphabet, and every way of cutting it in two; every point where none follow.
EXTENDS Input, FiniteSets
CONSTANTS Alphabet, Max, VT
VARIABLES s
Env == [proc |-> FALSE, vt |-> VT, mouse |-> TRUE, german |-> FALSE, win |-> [l |-> 0, t |-> 0, w |-> 80, h |-> 25], now |-> 1000]
Asked == [Reader0 EXCEPT !.asked = TRUE]
Init == s = <<>>
Next == Len(s) < Max /\ \E b \in Alphabet : s' = Append(s, b)
Spec == Init /\ [][Next]_s
\* the records do not depend on the cuts, nor does what is kept
Chunks == \A q \in {Reader0, Asked} : LET whole == Feed(q, s, Env) IN
            \A i \in 1..(Len(s) - 1) : LET a == Feed(q, SubSeq(s, 1, i), Env) b == Feed(a.rd, SubSeq(s, i + 1, Len(s)), Env) IN
              /\ a.out \o b.out = whole.out /\ b.rd.buf = whole.rd.buf /\ b.rd.ms = whole.rd.ms
\* only something that could become one sequence is kept, and it does not stay
Kept == LET r == Feed(Reader0, s, Env) IN
        /\ r.rd.buf # <<>> => r.rd.buf[1] = 27 \/ CharLen(r.rd.buf[1]) > 1
        /\ \A i \in 1..Len(r.rd.buf) : i > 1 /\ r.rd.buf[1] # 27 => Cont(r.rd.buf[i])
\* the answer to a query is never delivered, whatever came before it
Answer == <<27, 91, 49, 59, 50, 82>>
Swallowed == LET a == Feed(Asked, s, Env) b == Feed(a.rd, Answer, Env) e == Expire([a.rd EXCEPT !.asked = FALSE], Env) IN
             \* (a report may still take the first bytes; a string sequence does not exist here)
             a.rd.buf \in {<<>>, <<27>>, <<27, 79>>, <<27, 91>>, <<27, 91, 77>>, <<27, 91, 49>>, <<27, 91, 49, 59>>} => b.out = e.out /\ b.rd.buf = <<>> /\ ~b.rd.asked
\* keys and modifiers are released in reverse order
RECURSIVE Bal(_, _, _)
Bal(o, i, held) ==      \* held: modifier keys down, in order
  IF i > Len(o) THEN held = <<>>
  ELSE LET r == o[i] IN
    IF r[1] # "k" THEN Bal(o, i + 1, held)
    ELSE IF r[3] \in {VSHIFT, VCTRL, VALT} THEN
           IF r[2] = 1 THEN Bal(o, i + 1, Append(held, <<r[3], (r[5] \div ENHANCED) % 2>>))
           ELSE held # <<>> /\ held[Len(held)] = <<r[3], (r[5] \div ENHANCED) % 2>> /\ Bal(o, i + 1, SubSeq(held, 1, Len(held) - 1))
    ELSE Bal(o, i + 1, held)
Balanced == Bal(Feed(Reader0, s, Env).out, 1, <<>>)
\* nothing is left undecided when no more comes, and every byte had its say: ASCII text comes through as it is
Decided == Expire(Feed(Reader0, s, Env).rd, Env).rd.buf = <<>>
=============================================================================
