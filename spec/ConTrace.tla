----------------------------- MODULE ConTrace -----------------------------
\* What the agent does to the console: selections ("freezes") around what must not be disturbed, and resizes.
\* cfg: w, h (initial request), lx, ly (largest window the system allows), minw (smallest buffer width), newcon, bufs (labels of the agent's buffers)
\* Events: con (f = mark|all|esc|font|bufsize|win|read|write|cursor|attr|wait|post|message...), req, size, ans, op, snap
EXTENDS TraceBase
VARIABLES sel,      \* a selection is active
          up,       \* the agent has finished setting up
          req,      \* the last size asked for
          owed,     \* requests accepted whose size event has not been delivered; the answer is due after it
          own,      \* the application has changed the window or buffer itself since the last request
          pre,      \* the buffers as they were when last looked at
          clean     \* no console call has been made to fail since the last request
cv == <<sel, up, req, owed, own, pre, clean>>
vars == <<cv, tid, l>>
C == T.cfg
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
MaxCols == 2500
MaxRows == 2000
Size(c, r) == [c |-> Lo(c, MaxCols), r |-> Lo(r, MaxRows)]
TraceInit == /\ TraceStart /\ sel = FALSE /\ up = FALSE /\ req = Size(T.cfg.w, T.cfg.h) /\ owed = 0 /\ own = FALSE /\ pre = [ok |-> FALSE] /\ clean = TRUE

\* Things done to the console.  The application can be disturbed, or disturb, only where nothing is selected:
\*  - fonts and buffer sizes are changed with no selection (they can hang the console otherwise)
\*  - contents are read and written and the window moved with one, except that newer consoles may be read without
Free == {"font", "bufsize"}
Held == {"write", "win", "cursor"}
Do == /\ Is("con") /\ Take
      /\ LET f == E.f IN
         /\ f \in {"mark", "all"} => Chk("X05", ~sel)
         /\ f = "esc" => Chk("X05", sel)
         /\ f \in Free => Chk("X05", ~sel)
         /\ up /\ f \in Held => Chk("X05", sel)
         /\ up /\ f = "read" /\ ~C.newcon => Chk("X05", sel)
         /\ f \in {"wait", "post"} => Chk("X05", ~sel)
         /\ Chk("X05", f # "message")
         /\ sel' = IF f \in {"mark", "all"} THEN TRUE ELSE IF f = "esc" THEN FALSE ELSE sel
         /\ up' = (up \/ f = "wait")
      /\ UNCHANGED <<req, owed, own, pre, clean>>
Fault == /\ Is("fault") /\ Take /\ clean' = FALSE /\ UNCHANGED <<sel, up, req, owed, own, pre>>
\* ---------------------------------------------------------------- resizes
Want(r) == [c |-> Lo(r.c, C.lx), r |-> Lo(r.r, C.ly)]
Request == /\ Is("req") /\ Take /\ req' = Size(E.c, E.r) /\ owed' = owed + 1 /\ own' = FALSE /\ clean' = TRUE /\ UNCHANGED <<sel, up, pre>>
\* the application is told, once, when the window has its new size
Tell == /\ Is("size") /\ Take
        /\ Chk("X07", owed = 1)
        /\ clean /\ ~own /\ Len(C.bufs) = 1 => Chk("X07", E.winw = Want(req).c /\ E.winh = Want(req).r)
        /\ Chk("X07", E.w = E.bufw /\ E.h = E.bufh)
        /\ owed' = 2 /\ UNCHANGED <<sel, up, req, own, pre, clean>>
Answer == /\ Is("ans") /\ Take /\ Chk("X07", owed = 2 /\ E.ok) /\ owed' = 0 /\ UNCHANGED <<sel, up, req, own, pre, clean>>
Op == /\ Is("op") /\ Take /\ own' = (own \/ E.sizes) /\ UNCHANGED <<sel, up, req, owed, pre, clean>>
\* ---------------------------------------------------------------- looking at the result
GoodBuf(b) == LET s == Want(req) ww == b.r - b.l + 1 wh == b.b - b.t + 1 IN
  /\ ww = s.c /\ wh = s.r
  /\ b.w >= ww /\ b.h >= wh
  /\ b.w = Hi(req.c, C.minw)
\* a full-screen program gets no scrollback, and scrollback is not taken away
Scroll(b, o) == b.n = o.n => IF o.h = o.b - o.t + 1 THEN b.h = req.r ELSE b.h = Hi(o.h, req.r)
Snap == /\ Is("snap") /\ Take
        /\ Chk("X05", ~E.frozen /\ E.pending = 0)
        /\ Chk("X07", owed = 0)
        /\ clean /\ ~own => \A i \in 1..Len(E.bufs) : Chk("X07", GoodBuf(E.bufs[i]))
        /\ clean /\ ~own /\ pre.ok /\ Len(pre.bufs) = Len(E.bufs) /\ pre.req # req => \A i \in 1..Len(E.bufs) : Chk("X07", Scroll(E.bufs[i], pre.bufs[i]))
        /\ pre' = [ok |-> TRUE, bufs |-> E.bufs, req |-> req]
        /\ UNCHANGED <<sel, up, req, owed, own, clean>>
Next == Do \/ Fault \/ Request \/ Tell \/ Answer \/ Op \/ Snap
TraceSpec == TraceInit /\ [][Next]_vars
View == <<tid, l>>
=============================================================================
