------------------------------- MODULE Scrape -------------------------------
\* How the agent follows a console that only gains lines, without losing or repeating any: it looks without stopping the
\* application (a tentative look, in several steps), and looks again with the console frozen when the first look may have been torn.
\* A marker left in the scrollback tells how far the buffer has scrolled.  The terminal can be corrected in its last H lines only.
EXTENDS Integers, Sequences
CONSTANTS N,        \* rows of the buffer
          H,        \* rows of the window
          MaxLine,  \* lines the application prints
          Burst,    \* lines it prints between two looks at most
          Types,    \* times it adds to a line at most
          Recheck   \* the tentative look is checked for being torn
VARIABLES buf, cy, top, v, text, since,   \* console: rows 0..N-1, cursor row, window's first row, number and texts of the lines printed, lines since the last look
          sync, ctr, scrolled, scraped, maxb, dtop, dirty, sent,   \* the agent's memory
          pc, info, mark, rows,           \* a tentative look in progress: what it has seen, and how many lines were new when it began
          term, bad, clean                \* the terminal's lines; it was asked to change a line that had left the screen; nothing happened since the last look
con == <<buf, cy, top, v, text, since>>
mem == <<sync, ctr, scrolled, scraped, maxb, dtop, dirty, sent>>
look == <<pc, info, mark, rows>>
vars == <<con, mem, look, term, bad, clean>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
NoInfo == [top |-> 0, cy |-> 0]
Init == /\ buf = [i \in 0..(N - 1) |-> 0] /\ cy = 0 /\ top = 0 /\ v = 0 /\ text = <<0>> /\ since = 0
        /\ sync = -1 /\ ctr = 0 /\ scrolled = 0 /\ scraped = 0 /\ maxb = -1 /\ dtop = -1 /\ dirty = 0 /\ sent = [i \in 0..MaxLine |-> -1]
        /\ pc = "idle" /\ info = NoInfo /\ mark = -1 /\ rows = buf /\ term = <<>> /\ bad = FALSE /\ clean = FALSE
\* ------------------------------------------------ the application
Type == /\ text[v + 1] % 10 < Types
        /\ LET c == 10 * (v + 1) + (text[v + 1] % 10) + 1 IN buf' = [buf EXCEPT ![cy] = c] /\ text' = [text EXCEPT ![v + 1] = c]
        /\ clean' = FALSE /\ UNCHANGED <<cy, top, v, since, mem, look, term, bad>>
Line == /\ v < MaxLine /\ since < Burst /\ v' = v + 1 /\ text' = Append(text, 0) /\ since' = since + 1 /\ clean' = FALSE
        /\ IF cy < N - 1 THEN cy' = cy + 1 /\ top' = Max(top, cy + 2 - H) /\ UNCHANGED buf
           ELSE buf' = [i \in 0..(N - 1) |-> IF i = N - 1 THEN 0 ELSE buf[i + 1]] /\ UNCHANGED <<cy, top>>
        /\ UNCHANGED <<mem, look, term, bad>>
\* ------------------------------------------------ the agent
Find(m) == LET f == {i \in 0..sync : buf[i] = -m} IN IF f = {} THEN -1 ELSE CHOOSE i \in f : \A j \in f : j <= i
Wants(t, s) == t - 2 >= s + 2
\* rows known to have been used, after noticing the window's first row w and the cursor's row c
Used(d, w, c) == Max(Max(IF dtop # -1 /\ w > dtop THEN Max(d, w + H) ELSE d, c + 1), w)
\* the lines of one look are sent.  w: window's first row, r: rows, d: rows known to have been used, sc: rows scrolled away
Emit(w, r, d0, sc) ==
  LET nonblank == {i \in d0..(w + H - 1) : r[i] # 0}
      d == IF nonblank = {} THEN d0 ELSE 1 + CHOOSE i \in nonblank : \A j \in nonblank : j <= i
      first == Min(scraped, w + sc)
      stop == Min(d, w + H) + sc
      RECURSIVE Go(_, _)
      Go(i, a) == IF i >= stop THEN a
                  ELSE LET x == r[i - sc]
                           saw == a.saw \/ i > a.maxb \/ a.sent[i] # x
                           b == [a EXCEPT !.maxb = Max(@, i), !.sent[i] = IF saw THEN x ELSE @, !.saw = saw] IN
                       Go(i + 1, IF ~saw THEN b
                                 ELSE [b EXCEPT !.bad = @ \/ i < Len(a.term) - H,
                                                !.term = [k \in 1..Max(Len(a.term), i + 1) |-> IF k = i + 1 THEN x ELSE IF k <= Len(a.term) THEN a.term[k] ELSE 0]])
      z == IF first < sc THEN [term |-> term, bad |-> TRUE, maxb |-> maxb, sent |-> sent]      \* lines were lost
           ELSE Go(first, [term |-> term, bad |-> bad, maxb |-> maxb, sent |-> sent, saw |-> FALSE]) IN
  /\ dirty' = d /\ scraped' = w + sc /\ term' = z.term /\ bad' = z.bad /\ maxb' = z.maxb /\ sent' = z.sent
Idle == pc' = "idle" /\ info' = NoInfo /\ mark' = -1 /\ rows' = [i \in 0..(N - 1) |-> 0]
Begin == pc = "idle" /\ ~clean /\ pc' = "mark" /\ info' = [top |-> top, cy |-> cy] /\ mark' = since /\ clean' = TRUE /\ UNCHANGED <<con, mem, rows, term, bad>>
Mark == /\ pc = "mark"
        /\ LET f == IF sync = -1 THEN -1 ELSE Find(ctr) IN
           IF sync # -1 /\ f = -1 THEN pc' = "frozen" /\ UNCHANGED <<sync, scrolled, dirty, dtop>>
           ELSE LET d == IF f # sync THEN Max(dirty, info.top + H) ELSE dirty IN
                /\ scrolled' = scrolled + (sync - f) /\ sync' = f
                /\ IF Wants(info.top, f) THEN pc' = "frozen" /\ dirty' = d /\ UNCHANGED dtop
                   ELSE pc' = "read" /\ dirty' = Used(d, info.top, info.cy) /\ dtop' = info.top
        /\ UNCHANGED <<con, ctr, scraped, maxb, sent, info, mark, rows, term, bad, clean>>
Read == pc = "read" /\ rows' = buf /\ pc' = "check" /\ UNCHANGED <<con, mem, info, mark, term, bad, clean>>
Check == /\ pc = "check" /\ pc' = (IF Recheck /\ info # [top |-> top, cy |-> cy] THEN "frozen" ELSE "check2")
         /\ UNCHANGED <<con, mem, info, mark, rows, term, bad, clean>>
Check2 == /\ pc = "check2"
          /\ IF Recheck /\ sync # -1 /\ sync # Find(ctr) THEN pc' = "frozen" /\ UNCHANGED <<con, mem, info, mark, rows, term, bad, clean>>
             ELSE Emit(info.top, rows, dirty, scrolled) /\ Idle /\ since' = since - mark /\ UNCHANGED <<buf, cy, top, v, text, sync, ctr, scrolled, dtop, clean>>
\* all in one step: the console is frozen
Frozen == /\ pc = "frozen"
          /\ LET f == IF sync = -1 THEN -1 ELSE Find(ctr)
                 sc == scrolled + (sync - f)
                 new == Wants(top, f) IN
             IF sync # -1 /\ f = -1 THEN bad' = TRUE /\ UNCHANGED <<buf, mem, term>>      \* the marker is gone: everything would be cleared
             ELSE /\ Emit(top, buf, Used(IF f # sync THEN Max(dirty, top + H) ELSE dirty, top, cy), sc)
                  /\ scrolled' = sc /\ dtop' = top
                  /\ sync' = (IF new THEN top - 2 ELSE f) /\ ctr' = (IF new THEN ctr + 1 ELSE ctr)
                  /\ buf' = IF new THEN [buf EXCEPT ![top - 3] = 0, ![top - 2] = -(ctr + 1)] ELSE buf
          /\ Idle /\ since' = 0 /\ clean' = TRUE /\ UNCHANGED <<cy, top, v, text>>
Next == Type \/ Line \/ Begin \/ Mark \/ Read \/ Check \/ Check2 \/ Frozen
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------ the properties
Sound == ~bad
\* a line that has left the terminal's screen is the line printed
Once == \A i \in 1..(Len(term) - H) : i <= Len(text) /\ term[i] = text[i]
\* once the agent has looked and nothing has happened since, the terminal shows everything printed
Caught == pc = "idle" /\ clean => /\ \A i \in 1..Len(text) : IF i <= Len(term) THEN term[i] = text[i] ELSE text[i] = 0
                                  /\ \A i \in (Len(text) + 1)..Len(term) : term[i] = 0
=============================================================================
