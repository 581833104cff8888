------------------------------- MODULE Input -------------------------------
\* From terminal bytes to console input: how the bytes are divided up, and what each piece means.
\* The reader keeps the bytes it cannot decide yet; Feed is what it does with more of them, Expire when none come.
EXTENDS Keys
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
\* ---------------------------------------------------------------- numbers in sequences: at most 7 digits
RECURSIVE Num(_, _, _, _)
Num(s, i, n, v) == IF i > Len(s) THEN Wait ELSE IF ~Digit(s[i]) THEN IF n = 0 THEN No ELSE [st |-> "ok", i |-> i, v |-> v]
                   ELSE IF n = 7 THEN No ELSE Num(s, i + 1, n + 1, 10 * v + s[i] - 48)
Signed(s, i) == IF At(s, i) = 45 THEN LET r == Num(s, i + 1, 0, 0) IN IF r.st = "ok" THEN [r EXCEPT !.v = 0 - r.v] ELSE r ELSE Num(s, i, 0, 0)
\* reads the pattern: each element a byte, "n" (a number) or "i" (a signed number); vals: the numbers read
RECURSIVE Pat(_, _, _, _, _)
Pat(s, i, p, k, vals) ==
  IF k > Len(p) THEN [st |-> "ok", n |-> i - 1, v |-> vals]
  ELSE IF i > Len(s) THEN Wait
  ELSE IF p[k] >= 0 THEN IF s[i] = p[k] THEN Pat(s, i + 1, p, k + 1, vals) ELSE No
  ELSE LET r == IF p[k] = -1 THEN Num(s, i, 0, 0) ELSE Signed(s, i) IN
       IF r.st = "ok" THEN Pat(s, r.i, p, k + 1, Append(vals, r.v)) ELSE r
N == -1
I == -2
\* the terminal's answer to a status query: ESC [ row ; column R
Dsr(s) == Pat(s, 1, <<27, 91, N, 59, N, 82>>, 1, <<>>)
\* mouse reports.  f: buttons and modifiers; x, y: zero based; up: button released
MouseReport(n, f, x, y, up) == [st |-> "ok", n |-> n, f |-> f, x |-> x, y |-> y, up |-> up]
Sgr(s) == LET m == Pat(s, 1, <<27, 91, 60, N, 59, I, 59, I, 77>>, 1, <<>>) u == Pat(s, 1, <<27, 91, 60, N, 59, I, 59, I, 109>>, 1, <<>>) IN
          IF m.st = "ok" THEN MouseReport(m.n, m.v[1], m.v[2] - 1, m.v[3] - 1, FALSE) ELSE IF u.st = "ok" THEN MouseReport(u.n, u.v[1], u.v[2] - 1, u.v[3] - 1, TRUE)
          ELSE IF m.st = "more" THEN Wait ELSE No
Rxvt(s) == LET m == Pat(s, 1, <<27, 91, N, 59, I, 59, I, 77>>, 1, <<>>) IN IF m.st = "ok" THEN MouseReport(m.n, m.v[1] - 32, m.v[2] - 1, m.v[3] - 1, FALSE) ELSE m
X10(s) == LET h == <<27, 91, 77>> IN
          IF SubSeq(s, 1, Lo(3, Len(s))) # SubSeq(h, 1, Lo(3, Len(s))) THEN No
          ELSE IF Len(s) >= 4 /\ s[4] < 32 THEN No
          ELSE IF Len(s) < 6 THEN Wait ELSE MouseReport(6, s[4] - 32, (s[5] + 223) % 256, (s[6] + 223) % 256, FALSE)
Mouse(s) == LET a == Sgr(s) b == Rxvt(s) IN IF a.st # "no" THEN a ELSE IF b.st # "no" THEN b ELSE X10(s)
\* ---------------------------------------------------------------- characters
CharLen(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
Cont(b) == b \in 128..191
Bits(s, i) == s[i] - 128
CodePoint(s) ==           \* -1: not a character
  CASE Len(s) = 1 -> s[1]
    [] Len(s) = 2 -> LET c == (s[1] - 192) * 64 + Bits(s, 2) IN IF c < 128 THEN -1 ELSE c
    [] Len(s) = 3 -> LET c == (s[1] - 224) * 4096 + Bits(s, 2) * 64 + Bits(s, 3) IN IF c < 2048 \/ c \in 55296..57343 THEN -1 ELSE c
    [] Len(s) = 4 -> LET c == (s[1] - 240) * 262144 + Bits(s, 2) * 4096 + Bits(s, 3) * 64 + Bits(s, 4) IN IF c < 65536 \/ c > 1114111 THEN -1 ELSE c
\* the character s begins with; malformed ones go up to the first byte that cannot belong to them
Char(s) ==
  LET n == CharLen(s[1])
      brk == {i \in 2..Lo(n, Len(s)) : ~Cont(s[i])} IN
  IF n = 0 THEN [st |-> "bad", n |-> 1]
  ELSE IF brk # {} THEN [st |-> "bad", n |-> (CHOOSE i \in brk : \A j \in brk : i <= j) - 1]
  ELSE IF Len(s) < n THEN Wait
  ELSE LET c == CodePoint(SubSeq(s, 1, n)) IN IF c = -1 THEN [st |-> "bad", n |-> n] ELSE [st |-> "ok", n |-> n, c |-> c]
\* ---------------------------------------------------------------- the next piece of nonempty s
\* eof: nothing more is coming; proc: Ctrl-C interrupts; asked: a status query is outstanding
Piece(k, n) == [k |-> k, n |-> n]
Text(s) == LET c == Char(s) IN IF c.st = "ok" THEN [k |-> "char", n |-> c.n, c |-> c.c, esc |-> FALSE] ELSE IF c.st = "bad" THEN Piece("bad", c.n) ELSE Piece("more", 0)
Scan(s, eof, proc, asked) ==
  LET esc == s[1] = 27 d == Dsr(s) m == Mouse(s) k == ParseKey(s)
      alt == Char(Tail(s)) IN
  IF s[1] = 3 /\ proc THEN Piece("int", 1)
  ELSE IF esc /\ d.st = "ok" THEN Piece("dsr", d.n)
  ELSE IF esc /\ d.st = "more" /\ ~eof THEN Piece("more", 0)
  ELSE IF esc /\ m.st = "ok" THEN [k |-> "mouse", n |-> m.n, m |-> m]
  ELSE IF esc /\ m.st = "more" /\ ~eof THEN Piece("more", 0)
  ELSE IF esc /\ asked /\ Len(s) > 1 /\ s[2] = 27 /\ Dsr(Tail(s)).st = "ok" THEN [k |-> "char", n |-> 1, c |-> 27, esc |-> FALSE]   \* an ESC resolved by the answer
  ELSE IF k.st = "more" /\ ~eof THEN Piece("more", 0)
  ELSE IF k.st = "key" THEN [k |-> "key", n |-> k.n, key |-> k.key]
  ELSE IF esc /\ Len(s) > 1 /\ s[2] # 27 /\ CharLen(s[2]) > 0 THEN
         IF alt.st = "ok" THEN [k |-> "char", n |-> 1 + alt.n, c |-> alt.c, esc |-> TRUE] ELSE IF alt.st = "bad" THEN Piece("bad", 1 + alt.n) ELSE Piece("more", 0)
  ELSE Text(s)
\* ---------------------------------------------------------------- the mouse
\* ms: pressed (set of flags 1 left, 4 middle, 2 right), dc: what a double click has to repeat; win: the window's left, top, width, height
NoClick == [b |-> 0, x |-> 0, y |-> 0, t |-> 0]
Sum(S) == (IF 1 \in S THEN 1 ELSE 0) + (IF 2 \in S THEN 2 ELSE 0) + (IF 4 \in S THEN 4 ELSE 0)
Flag(f, v) == (f \div v) % 2 = 1
DoubleClickTime == 500
MouseStep(m, ms, win, now) ==
  LET b == m.f % 4
      flag == CASE b = 0 -> 1 [] b = 1 -> 4 [] b = 2 -> 2 [] OTHER -> 0
      st == Bit(Flag(m.f, 4), SHIFT) + Bit(Flag(m.f, 8), LALT) + Bit(Flag(m.f, 16), CTRL)
      at(v, w) == Hi(0, Lo(v, w - 1))
      wheel == Flag(m.f, 64)
      fresh == ~m.up /\ flag \notin ms.pressed
      again == fresh /\ ms.dc.b = flag /\ ms.dc.x = m.x /\ ms.dc.y = m.y /\ now - ms.dc.t < DoubleClickTime
      s2 == IF wheel THEN ms
            ELSE IF b = 3 THEN [ms EXCEPT !.pressed = {}]
            ELSE IF m.up THEN [pressed |-> ms.pressed \ {flag}, dc |-> IF flag = ms.dc.b THEN ms.dc ELSE NoClick]
            ELSE IF fresh THEN [pressed |-> ms.pressed \cup {flag}, dc |-> IF again THEN NoClick ELSE [b |-> flag, x |-> m.x, y |-> m.y, t |-> now]]
            ELSE ms IN
  [ms |-> s2,
   rec |-> IF wheel /\ b > 1 THEN <<>>
           ELSE <<<<"p", win.l + at(m.x, win.w), win.t + at(m.y, win.h), Sum(s2.pressed), IF wheel THEN (IF b = 0 THEN 120 ELSE -120) ELSE 0,
                    IF wheel THEN 4 ELSE Bit(Flag(m.f, 32), 1) + Bit(~wheel /\ b # 3 /\ again, 2), st>>>>]
\* ---------------------------------------------------------------- feeding
\* env: proc, vt (the application reads terminal input), mouse (it wants mouse input), german (keyboard), win, now
\* rd: the reader's state: buf, asked, ms.  Result: the new state and what reaches the application, in order
KeyRecords(p, vt) == IF vt THEN VtRecords(p) ELSE Records(p)
\* Stops after an interrupt, since its handler may change the modes: int says so, and there may be more to do.
RECURSIVE Run(_, _, _, _)
Run(rd, eof, env, out) ==
  IF rd.buf = <<>> THEN [rd |-> rd, out |-> out, int |-> FALSE]
  ELSE LET p == Scan(rd.buf, eof, env.proc, rd.asked)
           past(r) == [r EXCEPT !.buf = SubSeq(r.buf, p.n + 1, Len(r.buf))]
           on(r, o) == Run(past(r), eof, env, out \o o) IN
       CASE p.k = "more" -> [rd |-> rd, out |-> out, int |-> FALSE]
         [] p.k = "int" -> [rd |-> past(rd), out |-> Append(out, <<"c">>), int |-> TRUE]
         [] p.k = "dsr" -> on([rd EXCEPT !.asked = FALSE], <<>>)
         [] p.k = "mouse" -> LET r == MouseStep(p.m, rd.ms, env.win, env.now) IN on([rd EXCEPT !.ms = r.ms], IF env.mouse THEN r.rec ELSE <<>>)
         [] p.k = "key" -> on(rd, KeyRecords(Press(p.key), env.vt))
         [] p.k = "char" -> on(rd, KeyRecords(CharPress(p.c, p.esc, env.german), env.vt))
         [] p.k = "bad" -> on(rd, <<>>)
Reader0 == [buf |-> <<>>, asked |-> FALSE, ms |-> [pressed |-> {}, dc |-> NoClick]]
Feed(rd, bytes, env) == Run([rd EXCEPT !.buf = rd.buf \o bytes], FALSE, env, <<>>)
\* what is left is decided as it stands; a character cut short is dropped
Expire(rd, env) == LET r == Run(rd, TRUE, env, <<>>) IN IF r.int THEN r ELSE [r EXCEPT !.rd.buf = <<>>]
=============================================================================
