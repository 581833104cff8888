-------------------------------- MODULE Con --------------------------------
\* What a region of a Windows console buffer looks like, in a terminal's terms.  A console cell is <<UTF-16 unit, attributes>>.
EXTENDS Integers, Sequences, SequencesExt
LOCAL MaxOf(a, b) == IF a > b THEN a ELSE b
HasBit(n, b) == (n \div b) % 2 = 1
Cjk(cp) == cp \in {932, 936, 949, 950}
\* blue-green-red-bright to red-green-blue-bright
Ansi(n) == (IF HasBit(n, 4) THEN 1 ELSE 0) + (IF HasBit(n, 2) THEN 2 ELSE 0) + (IF HasBit(n, 1) THEN 4 ELSE 0) + (IF HasBit(n, 8) THEN 8 ELSE 0)
\* the two colours and the reverse/underscore flags a cell shows
LvbReverse(mode, cp, newcon) == Cjk(cp) \/ HasBit(mode, 16) \/ HasBit(mode, 4) \/ newcon
LvbUnder(mode, cp) == Cjk(cp) \/ HasBit(mode, 16) \/ HasBit(mode, 4)
\* rendition number, as Term!Code: default colours stand for light grey on black
RendOf(fore, back, ul) ==
  LET bits(bold, inv) == 289 * ((IF bold THEN 1 ELSE 0) + (IF ul THEN 2 ELSE 0) + (IF inv THEN 4 ELSE 0) + (IF fore = back THEN 8 ELSE 0)) IN
  CASE back = 0 /\ fore = 7 -> bits(FALSE, FALSE)
    [] back = 0 /\ fore = 15 -> bits(TRUE, FALSE)
    [] back = 0 /\ fore \notin {7, 15} -> 1 + fore + bits(FALSE, FALSE)
    [] back = 15 /\ fore \in {0, 7} -> bits(FALSE, TRUE)
    [] back = 15 /\ fore \notin {0, 7} -> 17 * (1 + fore) + bits(FALSE, TRUE)
    [] OTHER -> 1 + fore + 17 * (1 + back) + bits(FALSE, FALSE)
RendTab == [a \in 0..255 |-> [r \in BOOLEAN |-> [u \in BOOLEAN |->
             LET f == Ansi(a % 16) b == Ansi(a \div 16) IN IF r THEN RendOf(b, f, u) ELSE RendOf(f, b, u)]]]
Rend(attr, rev, und) == RendTab[attr % 256][rev /\ HasBit(attr, 16384)][und /\ HasBit(attr, 32768)]
\* characters that cannot be sent as they are
Fix(c) == CASE c = 1 -> 9556 [] c = 2 -> 9559 [] c = 3 -> 9562 [] c = 4 -> 9565 [] c = 5 -> 9553 [] c = 6 -> 9552
            [] c = 0 -> 32
            [] (c > 6 /\ c < 32) \/ (c > 126 /\ c < 160) -> 63
            [] OTHER -> c
Lead(c) == HasBit(c, 256)
Trail(c) == HasBit(c, 512)
Full(r, i) == i < Len(r) /\ Lead(r[i][2]) /\ Trail(r[i + 1][2]) /\ r[i][1] = r[i + 1][1]
HighSur(c) == c >= 55296 /\ c < 56320
LowSur(c) == c >= 56320 /\ c < 57344
\* the character starting at cell i: <<code point, number of cells>>
CharAt(r, i) ==
  LET n == IF Full(r, i) THEN 2 ELSE 1 c == r[i][1] IN
  IF i = Len(r) /\ Lead(r[i][2]) THEN <<63, 1>>      \* cut off in the middle
  ELSE IF HighSur(c) THEN IF i + n <= Len(r) /\ LowSur(r[i + n][1])
                     THEN <<65536 + (c - 55296) * 1024 + (r[i + n][1] - 56320), n + (IF Full(r, i + n) THEN 2 ELSE 1)>>
                     ELSE <<63, n>>
  ELSE IF LowSur(c) THEN <<63, n>> ELSE <<Fix(c), n>>
\* of a blank only the background, inversion and underline can be seen
Shown(g) == IF g[1] # 32 THEN g
            ELSE LET bits == g[2] \div 289 bg == (g[2] % 289) \div 17 inv == HasBit(bits, 4) IN
                 <<32, (IF inv THEN 0 ELSE 17 * bg) + 289 * ((IF inv THEN 4 ELSE 0) + (IF HasBit(bits, 2) THEN 2 ELSE 0))>>
RECURSIVE TrimTo(_, _)
TrimTo(s, n) == IF n > 0 /\ s[n] = <<32, 0>> THEN TrimTo(s, n - 1) ELSE SubSeq(s, 1, n)
Trim(s) == TrimTo(s, Len(s))
RECURSIVE GlyphsFrom(_, _, _)
GlyphsFrom(r, i, rend) == IF i > Len(r) THEN <<>>
                          ELSE LET c == CharAt(r, i) IN <<Shown(<<c[1], rend[r[i][2]]>>)>> \o GlyphsFrom(r, i + c[2], rend)
\* all of a row's characters as a reader sees them, trailing blanks dropped.  rend: rendition number of each attribute word
Plain(r) == \A i \in 1..Len(r) : r[i][2] % 1024 < 256 /\ ~HighSur(r[i][1]) /\ ~LowSur(r[i][1])
Glyphs(r, rend) == Trim(IF Plain(r) THEN [i \in 1..Len(r) |-> Shown(<<Fix(r[i][1]), rend[r[i][2]]>>)] ELSE GlyphsFrom(r, 1, rend))
Attrs(rows) == UNION {{rows[i][j][2] : j \in 1..Len(rows[i])} : i \in 1..Len(rows)}
\* what the terminal shows in one of its rows of width w
TermGlyphs(row, w) == Trim(LET s == SelectSeq(SubSeq(row, 1, IF Len(row) < w THEN Len(row) ELSE w), LAMBDA c : c[1] # -1) IN [i \in 1..Len(s) |-> Shown(s[i])])
=============================================================================
