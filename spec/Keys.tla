------------------------------- MODULE Keys -------------------------------
\* The key vocabulary: which terminal sequences denote which keys, which keys type which characters, and what a key
\* press is for the application (console input records; or characters when it reads terminal input).
\* Bytes, virtual keys and characters are integers.  A key: vk, ch (its character, 0 if none), sh, alt, ctl.
EXTENDS Integers, Sequences
\* ---------------------------------------------------------------- virtual keys, modifier bits
BACK == 8  TAB == 9  CLEAR == 12  RETURN == 13  VSHIFT == 16  VCTRL == 17  VALT == 18  ESCKEY == 27
PRIOR == 33  NEXTK == 34  END == 35  HOME == 36  LEFT == 37  UP == 38  RIGHT == 39  DOWN == 40  INS == 45  DEL == 46
MUL == 106  ADD == 107  SUB == 109  DIVI == 111
F(n) == 111 + n
RALT == 1  LALT == 2  CTRL == 8  SHIFT == 16  ENHANCED == 256
Grey == {UP, DOWN, LEFT, RIGHT, INS, DEL, HOME, END, PRIOR, NEXTK}       \* keys of the enhanced block
Ops == {ADD, SUB, MUL, DIVI}
Bit(b, v) == IF b THEN v ELSE 0
\* ---------------------------------------------------------------- final letters
K(v) == [vk |-> v, ch |-> 0, sh |-> FALSE, ctl |-> FALSE]
KC(v, c) == [vk |-> v, ch |-> c, sh |-> FALSE, ctl |-> FALSE]
KS(v) == [vk |-> v, ch |-> 0, sh |-> TRUE, ctl |-> FALSE]
KCt(v) == [vk |-> v, ch |-> 0, sh |-> FALSE, ctl |-> TRUE]
NoKey == [vk |-> 0, ch |-> 0, sh |-> FALSE, ctl |-> FALSE]
\* cursor keys: A B C D, a b c d
Cursor(c) == CASE c \in {65, 97} -> UP [] c \in {66, 98} -> DOWN [] c \in {67, 99} -> RIGHT [] c \in {68, 100} -> LEFT
\* the keypad: M and j k m n .. y
Keypad(c) == CASE c = 77 -> KC(RETURN, 13) [] c = 106 -> KC(MUL, 42) [] c = 107 -> KC(ADD, 43) [] c = 109 -> KC(SUB, 45) [] c = 110 -> K(DEL) [] c = 111 -> KC(DIVI, 47)
               [] c = 112 -> K(INS) [] c = 113 -> K(END) [] c = 114 -> K(DOWN) [] c = 115 -> K(NEXTK) [] c = 116 -> K(LEFT) [] c = 117 -> K(CLEAR)
               [] c = 118 -> K(RIGHT) [] c = 119 -> K(HOME) [] c = 120 -> K(UP) [] c = 121 -> K(PRIOR)
KeypadLetters == {77, 106, 107} \cup 109..121
Pf == 80..83                                                             \* P Q R S: F1 .. F4
\* ESC [ letter
CsiBare(c) == IF c \in 65..68 THEN K(Cursor(c)) ELSE IF c \in 97..100 THEN KS(Cursor(c)) ELSE IF c \in {69, 71} THEN K(CLEAR)
              ELSE IF c = 72 THEN K(HOME) ELSE IF c = 70 THEN K(END) ELSE IF c \in KeypadLetters THEN Keypad(c)
              ELSE IF c = 90 THEN [KS(TAB) EXCEPT !.ch = 9] ELSE NoKey
\* ESC [ 1 ; mod letter
CsiMod(c) == IF c \in 65..68 THEN K(Cursor(c)) ELSE IF c \in {69, 71} THEN K(CLEAR) ELSE IF c = 72 THEN K(HOME) ELSE IF c = 70 THEN K(END)
             ELSE IF c \in KeypadLetters THEN Keypad(c) ELSE IF c \in Pf THEN K(F(c - 79)) ELSE NoKey
\* ESC [ mod letter
CsiShortMod(c) == IF c \in 65..68 THEN K(Cursor(c)) ELSE IF c = 72 THEN K(HOME) ELSE IF c = 70 THEN K(END) ELSE NoKey
\* ESC O letter
Ss3Bare(c, esc) == IF c \in 65..68 THEN K(Cursor(c)) ELSE IF c \in 97..100 THEN KCt(Cursor(c)) ELSE IF c = 71 THEN K(CLEAR) ELSE IF c = 72 THEN K(HOME) ELSE IF c = 70 THEN K(END)
                   ELSE IF c \in KeypadLetters THEN Keypad(c) ELSE IF c \in Pf /\ ~esc THEN K(F(c - 79)) ELSE NoKey
\* ESC O mod letter
Ss3Mod(c, esc) == IF c \in KeypadLetters THEN Keypad(c) ELSE IF c \in Pf /\ ~esc THEN K(F(c - 79)) ELSE NoKey
\* ESC [ number ~
Numbered(n) == CASE n \in {1, 7} -> K(HOME) [] n = 2 -> K(INS) [] n = 3 -> K(DEL) [] n \in {4, 8} -> K(END) [] n = 5 -> K(PRIOR) [] n = 6 -> K(NEXTK)
                 [] n \in 11..15 -> K(F(n - 10)) [] n \in 17..21 -> K(F(n - 11)) [] n \in {23, 24} -> K(F(n - 12))
                 [] n \in {25, 26} -> KS(F(n - 22)) [] n \in {28, 29} -> KS(F(n - 23)) [] n \in 31..34 -> KS(F(n - 24)) [] OTHER -> NoKey
Suffixes == {126, 36, 94, 64}                                            \* ~ plain, $ shift, ^ control, @ both
\* ---------------------------------------------------------------- reading a sequence
No == [st |-> "no"]
Wait == [st |-> "more"]
Key(n, k, m, esc) ==       \* n bytes; m: xterm modifier parameter minus 1
  LET ctl == k.ctl \/ (m \div 4) % 2 = 1
      c == IF ctl /\ k.vk \in Ops THEN 0 ELSE IF ctl /\ k.vk = RETURN THEN 10 ELSE k.ch IN
  IF k.vk = 0 THEN No
  ELSE [st |-> "key", n |-> n, key |-> [vk |-> k.vk, ch |-> c, sh |-> k.sh \/ m % 2 = 1, alt |-> esc \/ (m \div 2) % 2 = 1, ctl |-> ctl]]
Sfx(k, c) == [k EXCEPT !.sh = k.sh \/ c \in {36, 64}, !.ctl = k.ctl \/ c \in {94, 64}]
IsMod(c) == c \in 50..56
Digit(c) == c \in 48..57
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
Ss3(s, j, esc) ==
  LET c == At(s, j) d == At(s, j + 1) x == At(s, j + 2) y == At(s, j + 3) IN
  IF c = -1 THEN Wait
  ELSE IF IsMod(c) THEN IF d = -1 THEN Wait ELSE Key(j + 1, Ss3Mod(d, esc), c - 49, esc)
  ELSE IF c = 49 /\ ~esc THEN IF d = -1 THEN Wait ELSE IF d # 59 THEN No ELSE IF x = -1 THEN Wait ELSE IF ~IsMod(x) THEN No
                              ELSE IF y = -1 THEN Wait ELSE IF y \in Pf THEN Key(j + 3, K(F(y - 79)), x - 49, esc) ELSE No
  ELSE Key(j, Ss3Bare(c, esc), 0, esc)
Csi(s, j, esc) ==
  LET c == At(s, j) d == At(s, j + 1)
      \* after the number: its end is at i
      tail(n, i) == LET x == At(s, i) m == At(s, i + 1) y == At(s, i + 2) IN
        IF x = -1 THEN Wait
        ELSE IF x \in Suffixes THEN Key(i, Sfx(Numbered(n), x), 0, esc)
        ELSE IF x = 59 THEN IF m = -1 THEN Wait ELSE IF ~IsMod(m) THEN No ELSE IF y = -1 THEN Wait
                            ELSE IF y \in Suffixes THEN Key(i + 2, Sfx(Numbered(n), y), m - 49, esc)
                            ELSE IF n = 1 THEN Key(i + 2, CsiMod(y), m - 49, esc) ELSE No
        ELSE No IN
  IF c = -1 THEN Wait
  ELSE IF c = 91 THEN IF d = -1 THEN Wait ELSE IF d \in 65..69 THEN Key(j + 1, K(F(d - 64)), 0, esc) ELSE No
  ELSE IF c = 90 /\ esc THEN No
  ELSE IF c \in 49..56 THEN
    IF d # -1 /\ Digit(d) THEN IF Numbered(10 * (c - 48) + d - 48) = NoKey THEN No ELSE tail(10 * (c - 48) + d - 48, j + 2)
    ELSE IF d # -1 /\ IsMod(c) /\ CsiShortMod(d) # NoKey THEN Key(j + 1, CsiShortMod(d), c - 49, esc)
    ELSE tail(c - 48, j + 1)
  ELSE Key(j, CsiBare(c), 0, esc)
\* the key a nonempty byte sequence begins with
ParseKey(s) ==
  IF s[1] = 127 THEN Key(1, KC(BACK, 8), 0, FALSE)
  ELSE IF s[1] = 3 THEN Key(1, [KC(67, 3) EXCEPT !.ctl = TRUE], 0, FALSE)
  ELSE IF s[1] # 27 THEN No
  ELSE IF Len(s) = 1 THEN Wait
  ELSE IF s[2] = 127 THEN Key(2, KC(BACK, 8), 0, TRUE)
  ELSE LET esc == s[2] = 27 i == IF esc THEN 3 ELSE 2 IN
       IF At(s, i) = -1 THEN Wait ELSE IF s[i] = 79 THEN Ss3(s, i + 1, esc) ELSE IF s[i] = 91 THEN Csi(s, i + 1, esc) ELSE No
\* ---------------------------------------------------------------- the keyboard: which keys type a character
\* vk, modifiers (1 shift, 2 control, 4 alt); vk 0: none does
Lay(v, m) == [vk |-> v, m |-> m]
Shifted == [c \in {33, 64, 35, 36, 37, 94, 38, 42, 40, 41} |-> CASE c = 33 -> 49 [] c = 64 -> 50 [] c = 35 -> 51 [] c = 36 -> 52 [] c = 37 -> 53 [] c = 94 -> 54 [] c = 38 -> 55 [] c = 42 -> 56 [] c = 40 -> 57 [] c = 41 -> 48]
Oem == <<<<59, 58, 186>>, <<61, 43, 187>>, <<44, 60, 188>>, <<45, 95, 189>>, <<46, 62, 190>>, <<47, 63, 191>>, <<96, 126, 192>>, <<91, 123, 219>>, <<92, 124, 220>>, <<93, 125, 221>>, <<39, 34, 222>>>>
US(c) ==
  IF c \in 97..122 THEN Lay(c - 32, 0) ELSE IF c \in 65..90 THEN Lay(c, 1) ELSE IF c \in 48..57 THEN Lay(c, 0)
  ELSE IF c \in {32, 13, 9, 8, 27} THEN Lay(c, 0) ELSE IF c = 10 THEN Lay(13, 2) ELSE IF c = 127 THEN Lay(8, 2)
  ELSE IF c \in 1..26 THEN Lay(c + 64, 2)
  ELSE IF c \in 28..29 THEN Lay(c + 192, 2) ELSE IF c = 30 THEN Lay(54, 3) ELSE IF c = 31 THEN Lay(189, 3) ELSE IF c = 0 THEN Lay(50, 3)
  ELSE IF c \in DOMAIN Shifted THEN Lay(Shifted[c], 1)
  ELSE LET hit == {i \in 1..Len(Oem) : c \in {Oem[i][1], Oem[i][2]}} IN
       IF hit = {} THEN Lay(0, 0) ELSE LET o == Oem[CHOOSE i \in hit : TRUE] IN Lay(o[3], IF c = o[1] THEN 0 ELSE 1)
\* a layout on which some characters need AltGr and some keys type letters beyond ASCII
German == <<<<64, 81, 6>>, <<8364, 69, 6>>, <<123, 55, 6>>, <<91, 56, 6>>, <<93, 57, 6>>, <<125, 48, 6>>, <<92, 219, 6>>, <<126, 187, 6>>, <<124, 226, 6>>, <<178, 50, 6>>, <<179, 51, 6>>, <<181, 77, 6>>,
            <<246, 192, 0>>, <<214, 192, 1>>, <<228, 222, 0>>, <<196, 222, 1>>, <<252, 186, 0>>, <<220, 186, 1>>, <<223, 219, 0>>, <<122, 89, 0>>, <<121, 90, 0>>, <<90, 89, 1>>, <<89, 90, 1>>,
            <<34, 50, 1>>, <<47, 55, 1>>, <<60, 226, 0>>>>
Layout(c, german) ==
  LET hit == IF german THEN {i \in 1..Len(German) : German[i][1] = c} ELSE {} IN
  IF c > 65535 THEN Lay(0, 0) ELSE IF hit = {} THEN US(c) ELSE LET o == German[CHOOSE i \in hit : TRUE] IN Lay(o[2], o[3])
\* ---------------------------------------------------------------- a press
\* vk; dn, up: the characters of the press and the release; modifiers; vtc, vta..: what terminal input is made from
Press(k) == LET dn == IF k.ctl /\ k.alt THEN 0 ELSE k.ch IN
  [vk |-> k.vk, dn |-> dn, up |-> IF k.alt THEN 0 ELSE dn, ctl |-> k.ctl, alt |-> k.alt, ralt |-> FALSE, sh |-> k.sh, enh |-> k.vk \in Grey,
   vtc |-> k.ch, vsh |-> k.sh, valt |-> k.alt, vctl |-> k.ctl]
CharPress(c, esc, german) ==
  LET y == Layout(c, german) ctl == (y.m \div 2) % 2 = 1 dn == IF esc /\ ctl THEN 0 ELSE c IN
  [vk |-> y.vk, dn |-> dn, up |-> IF esc THEN 0 ELSE dn, ctl |-> ctl, alt |-> esc, ralt |-> y.m \div 4 = 1, sh |-> y.m % 2 = 1, enh |-> FALSE,
   vtc |-> c, vsh |-> FALSE, valt |-> esc, vctl |-> FALSE]
\* records: <<"k", 1 pressed, virtual key, UTF-16 unit, modifiers>>
R(d, v, c, st) == <<"k", Bit(d, 1), v, c, st>>
Utf16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Units(d, v, c, st) == LET u == Utf16(c) IN [i \in 1..Len(u) |-> R(d, v, u[i], st)]
\* the modifiers go down before the key and up after it, in reverse order; each record carries those down at the time
Around(p, mid) ==
  LET c == Bit(p.ctl, CTRL) a == c + Bit(p.alt, LALT) r == a + Bit(p.ralt, RALT) s == r + Bit(p.sh, SHIFT) IN
  (IF p.ctl THEN <<R(TRUE, VCTRL, 0, c)>> ELSE <<>>) \o (IF p.alt THEN <<R(TRUE, VALT, 0, a)>> ELSE <<>>) \o (IF p.ralt THEN <<R(TRUE, VALT, 0, r + ENHANCED)>> ELSE <<>>)
  \o (IF p.sh THEN <<R(TRUE, VSHIFT, 0, s)>> ELSE <<>>)
  \o mid
  \o (IF p.sh THEN <<R(FALSE, VSHIFT, 0, r)>> ELSE <<>>) \o (IF p.ralt THEN <<R(FALSE, VALT, 0, a + ENHANCED)>> ELSE <<>>) \o (IF p.alt THEN <<R(FALSE, VALT, 0, c)>> ELSE <<>>)
  \o (IF p.ctl THEN <<R(FALSE, VCTRL, 0, 0)>> ELSE <<>>)
Mods(p) == Bit(p.ctl, CTRL) + Bit(p.alt, LALT) + Bit(p.ralt, RALT) + Bit(p.sh, SHIFT) + Bit(p.enh, ENHANCED)
Records(p) == Around(p, Units(TRUE, p.vk, p.dn, Mods(p)) \o Units(FALSE, p.vk, p.up, Mods(p)))
\* ---------------------------------------------------------------- terminal input: the characters a key sends
VtLetter(v) == CASE v = UP -> 65 [] v = DOWN -> 66 [] v = RIGHT -> 67 [] v = LEFT -> 68 [] v = CLEAR -> 69 [] v = HOME -> 72 [] v = END -> 70 [] OTHER -> 0
VtNumber(v) == CASE v = INS -> 2 [] v = DEL -> 3 [] v = PRIOR -> 5 [] v = NEXTK -> 6 [] v \in F(1)..F(5) -> v - F(0) + 10 [] v \in F(6)..F(10) -> v - F(0) + 11 [] v \in F(11)..F(12) -> v - F(0) + 12 [] OTHER -> 0
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + n \div 10, 48 + (n % 10)>>
VtChars(p) ==
  LET m == Bit(p.vsh, 1) + Bit(p.valt, 2) + Bit(p.vctl, 4)
      mod == IF m = 0 THEN <<>> ELSE <<59, 49 + m>> IN
  IF VtLetter(p.vk) # 0 THEN <<27, 91>> \o (IF m = 0 THEN <<>> ELSE <<49>>) \o mod \o <<VtLetter(p.vk)>>
  ELSE IF VtNumber(p.vk) # 0 THEN <<27, 91>> \o Dec(VtNumber(p.vk)) \o mod \o <<126>>
  ELSE IF p.vk = BACK THEN (IF p.valt THEN <<27>> ELSE <<>>) \o <<127>>
  ELSE IF p.vk = TAB /\ p.vsh THEN <<27, 91, 90>>
  ELSE IF p.vtc = 0 THEN <<>> ELSE (IF p.valt THEN <<27>> ELSE <<>>) \o Utf16(p.vtc)
\* unmodified navigation keys are left to the console, which encodes them as the application's cursor-key mode asks
ByConsole(p) == p.vk \in {UP, DOWN, LEFT, RIGHT, HOME, END} /\ ~p.ctl /\ ~p.alt /\ ~p.ralt /\ ~p.sh
VtRecords(p) ==
  IF ByConsole(p) THEN <<<<"m", 1, p.vk>>, <<"m", 0, p.vk>>>>
  ELSE LET cs == VtChars(p) IN Around(p, [i \in 1..Len(cs) |-> R(TRUE, 0, cs[i], 0)] \o Units(FALSE, p.vk, p.up, Mods(p)))
=============================================================================
