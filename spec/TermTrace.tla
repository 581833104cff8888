----------------------------- MODULE TermTrace -----------------------------
\* Judges what the real agent sends for a history of console operations, at the level of what a terminal shows.
\* cfg: w, h   size; plain, color; terms: number of output pipes; newcon; append: the history only adds output
\* Events: out, op, rs, title, spawn, snap.
EXTENDS TraceBase, Con, FiniteSetsExt
VARIABLES trm,       \* the terminals: 1 output, 2 error output
          quiet,     \* nothing has changed since the agent caught up
          due,       \* titles the console has had since the last one sent
          last,      \* the last look: what the window held
          paper,     \* append-only histories: lines completed, as <<code point, attributes>> cells, the first one being line `base`
          base, cur, col, pattr,  \* the line being printed, the column, the attributes
          heldTitle, \* the last title sent
          rsd        \* the terminal has been resized
tv == <<trm, quiet, due, last, paper, base, cur, col, pattr, heldTitle, rsd>>
vars == <<tv, tid, l>>
M == INSTANCE Term
C == T.cfg
NoLook == [ok |-> FALSE]
TraceInit == /\ TraceStart /\ trm = [p \in 1..T.cfg.terms |-> M!TermNew(T.cfg.w, T.cfg.h, T.cfg.keep)] /\ quiet = FALSE /\ due = <<>> /\ last = NoLook
             /\ paper = <<>> /\ base = 1 /\ cur = <<>> /\ col = 0 /\ pattr = 7 /\ heldTitle = "" /\ rsd = FALSE

\* ---------------------------------------------------------------- vocabulary
Escapes == {"k", "m", "u", "g", "h", "j", "v", "o", "i", "d"}
Allowed(k) == IF C.plain THEN k[1] \in {"t", "r", "n"} \/ (C.color /\ k[1] = "m")
              ELSE k[1] \in {"t", "r", "n"} \cup Escapes
SgrOk(p) == Len(p) >= 1 /\ p[1] = 0 /\ \A i \in 2..Len(p) : p[i] \in ({1, 4, 7, 8} \cup 30..37 \cup 40..47 \cup 90..97 \cup 100..107)
WellFormed(k) == /\ Allowed(k)
                 /\ k[1] = "m" => SgrOk(k[2])
                 /\ k[1] = "o" => k[2][1] \in {1000, 1002, 1003, 1005, 1006, 1015} /\ (C.mouse \/ ~k[2][2])
\* in plain output every line end is CR LF
PairedEnds(ks) == \A i \in 1..Len(ks) : ks[i][1] = "n" => ks[i][2] = 1

\* ---------------------------------------------------------------- append-only histories
Rendition == TLCEval([a \in 0..255 |-> IF C.plain /\ ~C.color THEN 0 ELSE Rend(a, C.newcon, FALSE)])
Printed(i) == i >= base /\ i <= base + Len(paper)          \* some line with this number, possibly not complete
LineAt(i) == IF i = base + Len(paper) THEN cur ELSE paper[i - base + 1]
Total == base + Len(paper)
\* lines that have left the screen are the lines printed, each once, in order
Delivered(t, from, to) == LET rend == Rendition IN \A i \in from..to : Printed(i) /\ TermGlyphs(t.rows[i - t.off], t.w) = Glyphs(LineAt(i), rend)
Out == /\ Is("out") /\ Take
       /\ LET t0 == trm[E.p] t == TLCEval(M!Feed(t0, E.k))
              sent == SubSeq(t.titles, Len(t0.titles) + 1, Len(t.titles)) IN
          /\ Chk("X06", ~quiet)
          /\ Chk("X04", /\ t.bad = <<>> /\ \A i \in 1..Len(E.k) : WellFormed(E.k[i])
                        /\ C.plain => PairedEnds(E.k))
          /\ Chk("X08", E.p \in 1..C.terms)
          /\ C.append => LET from == t0.off + M!Top(t0) IN
                         \A p \in {"X02", "X01"} : Chk(p, t.clears = 0 /\ Delivered(t, from, t.off + M!Top(t) - 1))
          /\ trm' = [trm EXCEPT ![E.p] = M!Prune(t, IF C.append THEN 0 ELSE 45)]
          /\ IF sent = <<>> THEN UNCHANGED <<due, heldTitle>>
             ELSE LET step(acc, s) == LET at == {i \in 1..Len(acc.due) : acc.due[i] = s} IN
                        IF acc.ok /\ s # acc.held /\ at # {} THEN [ok |-> TRUE, held |-> s, due |-> SubSeq(acc.due, Min(at), Len(acc.due))]
                        ELSE [ok |-> FALSE, held |-> s, due |-> acc.due]
                      r == FoldLeft(step, [ok |-> TRUE, held |-> heldTitle, due |-> due], sent) IN
                  /\ Chk("T01", r.ok /\ E.p = 1 /\ ~C.plain) /\ heldTitle' = r.held /\ due' = r.due
          /\ LET drop == IF C.append THEN t.off + M!Top(t) - base - 5 ELSE 0 IN
             IF drop > 200 /\ drop < Len(paper) THEN base' = base + drop /\ paper' = SubSeq(paper, drop + 1, Len(paper)) ELSE UNCHANGED <<base, paper>>
       /\ UNCHANGED <<quiet, last, cur, col, pattr, rsd>>

\* the application prints: a line longer than the buffer is wide continues on the next one
Typed(str) ==
  LET put(a, c) ==
        IF c = 13 THEN [a EXCEPT !.col = 0]
        ELSE IF c = 10 THEN [p |-> Append(a.p, a.cur), cur |-> <<>>, col |-> 0]
        ELSE LET row == SubSeq(a.cur, 1, a.col) \o <<<<c, pattr>>>> \o SubSeq(a.cur, a.col + 2, Len(a.cur)) IN
             IF a.col + 1 = C.bw THEN [p |-> Append(a.p, row), cur |-> <<>>, col |-> 0] ELSE [a EXCEPT !.cur = row, !.col = @ + 1] IN
  FoldLeft(put, [p |-> <<>>, cur |-> cur, col |-> col], str)
Op == /\ Is("op") /\ Take /\ quiet' = FALSE
      /\ IF ~C.append THEN UNCHANGED <<paper, cur, col, pattr>>
         ELSE IF Has(E, "s") THEN LET r == TLCEval(Typed(E.s)) IN paper' = paper \o r.p /\ cur' = r.cur /\ col' = r.col /\ UNCHANGED pattr
         ELSE IF Has(E, "attr") THEN pattr' = E.attr /\ UNCHANGED <<paper, cur, col>>
         ELSE UNCHANGED <<paper, cur, col, pattr>>
      /\ UNCHANGED <<trm, due, last, base, heldTitle, rsd>>
\* a title the agent itself gives the console is not news
Title == /\ Is("title") /\ Take /\ quiet' = FALSE
         /\ IF E.own THEN heldTitle' = E.t /\ due' = <<>> ELSE due' = Append(due, E.t) /\ UNCHANGED heldTitle
         /\ UNCHANGED <<trm, last, paper, base, cur, col, pattr, rsd>>
Size == /\ Is("rs") /\ Take /\ quiet' = FALSE /\ trm' = [p \in 1..C.terms |-> M!Resize(trm[p], E.w, E.h)] /\ rsd' = TRUE /\ last' = NoLook
        /\ UNCHANGED <<due, paper, base, cur, col, pattr, heldTitle>>

\* ---------------------------------------------------------------- a look at the console, once the agent has caught up
\* buffer b as shown by terminal t
RegionH(b, t) == M!Lo(Len(b.cells), t.h)
Crop(b, t) == [b EXCEPT !.cells = [i \in 1..RegionH(b, t) |-> SubSeq(b.cells[i], 1, M!Lo(Len(b.cells[i]), t.w))]]
Expect(b) == LET rend == TLCEval([a \in Attrs(b.cells) |-> IF C.plain /\ ~C.color THEN 0 ELSE Rend(a, LvbReverse(b.mode, E.cp, C.newcon), LvbUnder(b.mode, E.cp))]) IN
             [i \in 1..Len(b.cells) |-> Glyphs(b.cells[i], rend)]
BlankRow(r) == \A j \in 1..Len(r) : r[j][1] = 32 /\ r[j][2] = r[Len(r)][2]
\* below the cursor and everything written, empty lines continuing the last line's background may not have been drawn
Undrawn(b, i) == /\ i > b.cy
              /\ \A j \in i..Len(b.cells) : BlankRow(b.cells[j]) /\ b.cells[j][1][2] = b.cells[j - 1][Len(b.cells[j - 1])][2]
\* a pair of surrogates takes two cells but possibly one column: what is beyond the last character is then only known to be blank
Surrogate(r) == \E j \in 1..Len(r) : HighSur(r[j][1]) \/ LowSur(r[j][1])
BlankFrom(s, n) == \A j \in n..Len(s) : s[j][1] = 32
UpTo(s, n) == [j \in 1..n |-> IF j <= Len(s) THEN s[j] ELSE <<32, 0>>]
SameRow(have, want, r) == \/ have = want
                          \/ /\ Surrogate(r)
                             /\ LET n == Len(want) IN UpTo(have, n) = want /\ BlankFrom(have, n + 1)
ShowsAt(b, t, k, want) == \A i \in 1..Len(b.cells) : LET have == IF k + i - 1 > Len(t.rows) THEN <<>> ELSE TermGlyphs(t.rows[k + i - 1], Len(b.cells[1])) IN
                            \/ SameRow(have, want[i], b.cells[i])
                            \/ have = <<>> /\ i > 1 /\ Undrawn(b, i)
                            \/ rsd /\ i > b.cy /\ k + i - 1 > Len(t.rows)   \* a terminal made smaller has dropped lines below its cursor
\* Line of the terminal that shows the window's first line.  A terminal made taller may show lines from its scrollback above it.
Places(t) == IF rsd THEN M!Top(t)..Len(t.rows) ELSE {M!Top(t)}
CursorOn(b) == b.vis /\ b.cy >= 1 /\ b.cy <= Len(b.cells) /\ b.cx >= 0 /\ b.cx < Len(b.cells[1])
CursorAt(b, t, k) == t.y = k + b.cy - 1 /\ t.x = b.cx
Surrogates(b) == b.cy >= 1 /\ b.cy <= Len(b.cells) /\ Surrogate(b.cells[b.cy])
\* first line of the window that has changed since the last look
Changed(b, o) == {i \in 1..Len(b.cells) : b.cells[i] # o.cells[i]}
\* (at the end of a buffer with scrollback, the buffer's contents move instead of the window)
Same(b, o) == (b.bh > b.wh => b.t + b.wh < b.bh) /\ b.n = o.n /\ b.t = o.t /\ Len(b.cells) = Len(o.cells) /\ Len(b.cells[1]) = Len(o.cells[1]) /\ b.mode = o.mode
Judge(p) ==
  LET t == trm[p] b == TLCEval(Crop(E.bufs[p], t)) want == TLCEval(Expect(b))
      fits == {k \in Places(t) : ShowsAt(b, t, k, want)} IN
  /\ ~C.plain => \A q \in {"X01"} \cup (IF C.terms = 2 THEN {"X08"} ELSE {}) \cup (IF rsd THEN {"X07"} ELSE {}) : Chk(q, fits # {})
  /\ ~C.plain => Chk("X03", /\ t.vis = CursorOn(b)
                            /\ CursorOn(b) /\ ~Surrogates(b) => \E k \in (IF fits = {} THEN Places(t) ELSE fits) : CursorAt(b, t, k))
  /\ ~C.plain /\ E.one /\ last.ok /\ Same(b, last.bufs[p]) /\ t.clears = last.clears[p] /\ E.cp = last.cp =>
       Chk("X06", LET c == Changed(b, last.bufs[p]) first == t.off + M!Top(t) - 1 + (IF c = {} THEN 1000000 ELSE Min(c)) IN
                  t.low >= M!Lo(first, last.high[p] + 1))
  \* everything printed has arrived
  /\ C.append => LET top == t.off + M!Top(t) all == Total IN \A q \in {"X01", "X02"} \cup (IF C.plain THEN {"X04"} ELSE {}) : Chk(q,
       /\ IF C.plain THEN t.off + t.y = all \/ (cur = <<>> /\ t.off + t.y = all - 1) ELSE top = M!Hi(1, all - t.h + 1)
       /\ Delivered(t, top, M!Lo(all, t.off + Len(t.rows))))
Snap == /\ Is("snap") /\ Take /\ quiet' = TRUE
        /\ \A p \in 1..C.terms : Judge(p)
        /\ Chk("T01", C.plain \/ heldTitle = E.title)
        /\ trm' = [p \in 1..C.terms |-> [trm[p] EXCEPT !.low = 1000000]]
        /\ last' = [ok |-> TRUE, bufs |-> E.bufs, clears |-> [p \in 1..C.terms |-> trm[p].clears], high |-> [p \in 1..C.terms |-> trm[p].high], cp |-> E.cp]
        /\ due' = <<heldTitle>>
        /\ UNCHANGED <<paper, base, cur, col, pattr, heldTitle, rsd>>
\* a process is started: where its standard output and error output go
Spawn == /\ Is("spawn") /\ Take /\ quiet' = FALSE
         /\ Chk("X08", E.sin = "conin" /\ E.out = 1 /\ E.err = C.terms /\ (C.terms = 2 => E.n = 2))
         /\ UNCHANGED <<trm, due, last, paper, base, cur, col, pattr, heldTitle, rsd>>
Next == Spawn \/ Out \/ Op \/ Title \/ Size \/ Snap
TraceSpec == TraceInit /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
