------------------------------- MODULE Term -------------------------------
\* A terminal, as the reader of winpty's output: the grid with its scrollback, cursor, rendition, modes and title,
\* and the effect on it of each token of the documented vocabulary.
\*   rows   lines ever shown (the oldest ones dropped, `off` counts them); the screen is the last h of them
\*   y, x   cursor: index into rows, column (x = w: the next character wraps)
\*   low    first line touched since the last look; high: last line touched since the last clear (both counted from the beginning)
\* A cell is <<code point, rendition>>; the second half of a wide character is <<-1, rendition>>.  Cells missing at the
\* end of a row are blank.  Cells beyond the width are remembered and shown again when the terminal is widened; those of a
\* row written to meanwhile are remembered by some terminals only (keep).
EXTENDS Integers, Sequences, SequencesExt
Hi(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Blank == <<32, 0>>
NoPen == [fg |-> 0, bg |-> 0, bold |-> FALSE, ul |-> FALSE, inv |-> FALSE, hid |-> FALSE]
Bit(b, n) == IF b THEN n ELSE 0
\* a rendition as a number: colours 0 (default) or 1 + SGR colour 0..15
Code(p) == p.fg + 17 * p.bg + 289 * (Bit(p.bold, 1) + Bit(p.ul, 2) + Bit(p.inv, 4) + Bit(p.hid, 8))
TermNew(w, h, keep) == [w |-> w, h |-> h, keep |-> keep, rows |-> [i \in 1..h |-> <<>>], off |-> 0, y |-> 1, x |-> 0, pen |-> NoPen, vis |-> TRUE,
                  modes |-> {}, titles |-> <<>>, low |-> 1000000, high |-> 0, clears |-> 0, bad |-> <<>>]
Top(t) == Hi(1, Len(t.rows) - t.h + 1)
Pad(row, n) == IF Len(row) >= n THEN row ELSE row \o [i \in 1..(n - Len(row)) |-> Blank]
Wide(c) == \/ c >= 4352 /\ c <= 4447
           \/ c >= 11904 /\ c <= 42191 /\ c # 12351
           \/ c >= 44032 /\ c <= 55203
           \/ c >= 63744 /\ c <= 64255
           \/ c >= 65072 /\ c <= 65103
           \/ c >= 65281 /\ c <= 65376
           \/ c >= 65504 /\ c <= 65510
           \/ c >= 127744 /\ c <= 129535
           \/ c >= 131072 /\ c <= 262141
\* the part of a row beyond the width
Beyond(t, row) == IF t.keep THEN SubSeq(row, t.w + 1, Len(row)) ELSE <<>>
Touch(t) == [t EXCEPT !.low = Lo(@, t.off + t.y), !.high = Hi(@, t.off + t.y)]
LineFeed(t) == IF t.y = Len(t.rows) THEN [t EXCEPT !.rows = Append(@, <<>>), !.y = @ + 1, !.x = Lo(@, t.w - 1)]
               ELSE [t EXCEPT !.y = @ + 1, !.x = Lo(@, t.w - 1)]
Return(t) == [t EXCEPT !.x = 0]
Wrap(t) == Return(LineFeed(t))
\* n cells written at the cursor
Place(t, cells) ==
  LET row == Pad(t.rows[t.y], t.x) n == Len(cells) IN
  Touch([t EXCEPT !.rows[t.y] = SubSeq(row, 1, t.x) \o cells \o SubSeq(row, t.x + n + 1, Lo(t.w, Len(row))) \o Beyond(t, row), !.x = @ + n])
Put(t, c) == LET n == IF Wide(c) THEN 2 ELSE 1
                 u == IF t.x + n > t.w THEN Wrap(t) ELSE t
                 k == Code(t.pen) IN
             Place(u, IF n = 2 THEN <<<<c, k>>, <<-1, k>>>> ELSE <<<<c, k>>>>)
Text(t, s) == IF t.x + Len(s) <= t.w /\ \A i \in 1..Len(s) : s[i] < 4352
              THEN LET k == Code(t.pen) IN Place(t, [i \in 1..Len(s) |-> <<s[i], k>>])
              ELSE FoldLeft(Put, t, s)
\* erase from the cursor to the end of the line; just past the last column, the last cell goes too
EraseLine(t) ==
  LET x == Lo(t.x, t.w - 1) row == Pad(t.rows[t.y], x) k == Code(t.pen) IN
  Touch([t EXCEPT !.rows[t.y] = SubSeq(row, 1, x) \o (IF k = 0 /\ Beyond(t, row) = <<>> THEN <<>> ELSE [i \in 1..(t.w - x) |-> <<32, k>>]) \o Beyond(t, row)])
ClearScreen(t) == LET n == Top(t) IN
  [t EXCEPT !.rows = [i \in 1..Len(t.rows) |-> IF i < n THEN t.rows[i] ELSE <<>>], !.low = Lo(@, t.off + n), !.high = t.off + n - 1, !.clears = @ + 1]
Sgr(p, n) == CASE n = 0 -> NoPen [] n = 1 -> [p EXCEPT !.bold = TRUE] [] n = 4 -> [p EXCEPT !.ul = TRUE] [] n = 7 -> [p EXCEPT !.inv = TRUE] [] n = 8 -> [p EXCEPT !.hid = TRUE]
               [] n >= 30 /\ n <= 37 -> [p EXCEPT !.fg = n - 29] [] n = 39 -> [p EXCEPT !.fg = 0]
               [] n >= 90 /\ n <= 97 -> [p EXCEPT !.fg = n - 81]
               [] n >= 40 /\ n <= 47 -> [p EXCEPT !.bg = n - 39] [] n = 49 -> [p EXCEPT !.bg = 0]
               [] n >= 100 /\ n <= 107 -> [p EXCEPT !.bg = n - 91]
               [] OTHER -> p
\* One token: <<name, argument>>
\*   t code points | r | n (1: right after r) | k erase line | m SGR parameters | u up | g column | h home | j clear screen | v show cursor | o <<mode, on>> |
\*   i title | d device report | c stray control character | x anything else
Apply(t, k) ==
  CASE k[1] = "t" -> Text(t, k[2])
    [] k[1] = "r" -> Return(t)
    [] k[1] = "n" -> LineFeed(t)
    [] k[1] = "k" -> EraseLine(t)
    [] k[1] = "m" -> [t EXCEPT !.pen = FoldLeft(Sgr, @, k[2])]
    [] k[1] = "u" -> [t EXCEPT !.y = Hi(Top(t), @ - k[2])]
    [] k[1] = "g" -> [t EXCEPT !.x = Lo(k[2], t.w) - 1]
    [] k[1] = "h" -> [t EXCEPT !.y = Top(t), !.x = 0]
    [] k[1] = "j" -> ClearScreen(t)
    [] k[1] = "v" -> [t EXCEPT !.vis = k[2]]
    [] k[1] = "o" -> [t EXCEPT !.modes = IF k[2][2] THEN @ \union {k[2][1]} ELSE @ \ {k[2][1]}]
    [] k[1] = "i" -> [t EXCEPT !.titles = Append(@, k[2])]
    [] k[1] = "d" -> t
    [] OTHER -> [t EXCEPT !.bad = Append(@, k)]
Feed(t, ks) == FoldLeft(Apply, t, ks)
\* forget lines far above the screen
Prune(t, keep) == LET n == Top(t) - 1 - keep IN IF n <= 20 THEN t ELSE [t EXCEPT !.rows = SubSeq(@, n + 1, Len(@)), !.off = @ + n, !.y = @ - n]
\* The user resizes the terminal: lines below the cursor make room first, then lines leave at the top; a taller one shows them again.
Resize(t, w, h) ==
  LET n == Hi(t.y, Lo(Len(t.rows), Top(t) + h - 1)) r == SubSeq(t.rows, 1, n) IN
  [t EXCEPT !.w = w, !.h = h, !.rows = IF n >= h THEN r ELSE r \o [i \in 1..(h - n) |-> <<>>], !.x = Lo(@, w - 1)]
=============================================================================
