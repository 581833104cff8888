------------------------------ MODULE Resize ------------------------------
\* Design of a resize under a running application: the agent stops the console (a selection) only for the steps that
\* must not be disturbed; changing the font and the buffer's size need it running.  Rows only (columns behave alike).
\*   B: screen buffer rows; top, h: the window; y: the cursor; the request is for R rows; Largest: the system's limit.
EXTENDS Integers, FiniteSets
CONSTANTS MaxB,      \* bound on buffer rows
          MaxR,      \* bound on requested rows
          Largest,   \* largest window the system allows
          MaxOps,    \* application steps
          Line,      \* buffer rows that stand for "with scrollback"
          Held       \* FALSE: the window is moved without stopping the console (violates Kept)
VARIABLES B, top, h, y, sel, pc, R, origB, origH, ops, dirty, ok, req,
          seen       \* the console as queried before a move
vars == <<B, top, h, y, sel, pc, R, origB, origH, ops, dirty, ok, req, seen>>
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Vis == Lo(R, Largest)
InWin(s) == s.y >= s.top /\ s.y <= s.top + s.h - 1
Now == [top |-> top, h |-> h, y |-> y]
Include(t, n, line) == IF line < t THEN line ELSE IF line > t + n - 1 THEN line - n + 1 ELSE t
Init == /\ B \in {Line} \cup 1..MaxB /\ h \in 1..Lo(B, Lo(MaxR, Largest)) /\ top \in 0..(B - h) /\ y \in 0..(B - 1)
        /\ sel = FALSE /\ pc = "idle" /\ R = 1 /\ origB = 0 /\ origH = 0 /\ ops = 0 /\ dirty \in {0, y + 1} /\ ok = TRUE /\ req = 0 /\ seen = Now
\* the application: possible only while nothing is selected
App == /\ ~sel /\ ops < MaxOps /\ ops' = ops + 1
       /\ \/ /\ y < B - 1 /\ y' = y + 1 /\ top' = Include(top, h, y + 1)       \* a line
          \/ /\ y' = 0 /\ top' = 0                                             \* clear the screen
          \/ \E k \in 0..(B - 1) : y' = k /\ top' = Include(top, h, k)         \* move the cursor
       /\ UNCHANGED <<B, h, sel, pc, R, origB, origH, dirty, ok, req, seen>>
Request == /\ pc = "idle" /\ req < 2 /\ req' = req + 1 /\ R' \in 1..MaxR /\ pc' = "look" /\ sel' = TRUE
           /\ UNCHANGED <<B, top, h, y, origB, origH, ops, dirty, ok, seen>>
\* looks at the console (and sends what it shows); from here on lines up to `dirty` are tracked
Look == /\ pc = "look" /\ pc' = "font" /\ origB' = B /\ origH' = h /\ dirty' = (IF B = Line THEN Hi(y + 1, top) ELSE 0) /\ UNCHANGED <<B, top, h, y, sel, R, ops, ok, req, seen>>
Font == /\ pc = "font" /\ sel' = FALSE /\ pc' = "shrink" /\ UNCHANGED <<B, top, h, y, R, origB, origH, ops, dirty, ok, req, seen>>
Stop == /\ pc \in {"shrink", "grow"} /\ ~sel /\ sel' = Held /\ seen' = Now /\ pc' = (IF pc = "shrink" THEN "shrink2" ELSE "grow2")
        /\ UNCHANGED <<B, top, h, y, R, origB, origH, ops, dirty, ok, req>>
Move(t, n) == /\ ok' = (ok /\ t >= 0 /\ n >= 1 /\ t + n <= B /\ n <= Largest) /\ top' = t /\ h' = n
Shrink == /\ pc = "shrink2"
          /\ LET n == Lo(B, Vis) t == Lo(B - n, seen.top) IN Move(IF InWin(seen) THEN Include(t, n, seen.y) ELSE t, n)
          /\ sel' = FALSE /\ pc' = "buffer" /\ UNCHANGED <<B, y, R, origB, origH, ops, dirty, req, seen>>
Buffer == /\ pc = "buffer"
          /\ LET n == IF origH = origB THEN R ELSE Hi(R, origB)
                 drop == IF y >= n THEN y - n + 1 ELSE 0 IN
             /\ ok' = (ok /\ n >= h)                                           \* the system refuses a buffer smaller than the window
             /\ B' = n /\ y' = y - drop
             /\ LET t == Hi(0, top - drop) IN top' = (IF t + h > n THEN n - h ELSE t)
          /\ pc' = "grow" /\ UNCHANGED <<h, sel, R, origB, origH, ops, dirty, req, seen>>
Grow == /\ pc = "grow2"
        /\ LET t0 == Lo(B - Vis, seen.top)
               t1 == IF B = Line /\ dirty > t0 + Vis THEN dirty - Vis ELSE t0 IN
           Move(IF InWin(seen) THEN Include(t1, Vis, seen.y) ELSE t1, Vis)
        /\ sel' = FALSE /\ pc' = "done" /\ UNCHANGED <<B, y, R, origB, origH, ops, dirty, req, seen>>
\* the request is answered
Answer == /\ pc = "done" /\ pc' = "idle" /\ UNCHANGED <<B, top, h, y, sel, R, origB, origH, ops, dirty, ok, req, seen>>
Next == App \/ Request \/ Look \/ Font \/ Stop \/ Shrink \/ Buffer \/ Grow \/ Answer
Spec == Init /\ [][Next]_vars /\ WF_vars(Request \/ Look \/ Font \/ Stop \/ Shrink \/ Buffer \/ Grow \/ Answer)
\* ---------------------------------------------------------------- properties
NoCallFails == ok
RunsForChanges == pc \in {"buffer"} => ~sel
Exact == pc = "done" => h = Vis
Fits == top >= 0 /\ top + h <= B /\ h >= 1
Scrollback == pc = "done" => B >= R /\ (origB > origH => B >= origB) /\ (origB = origH => B = R)
Released == pc = "idle" => ~sel
\* a move of the window does not take a visible cursor out of it
InNow == InWin(Now)
Kept == [][((pc \in {"shrink2", "grow2"}) /\ (pc' # pc) /\ InNow) => (InNow')]_vars
Ends == pc = "look" ~> pc = "done"
=============================================================================
