------------------------------- MODULE Debug -------------------------------
\* Debug tracing.  A traced execution is the untraced one with conversations with the trace server in between, and nothing else:
\* a self-composition, `at` being how much of the untraced behaviour `ref` has been matched.
\* A conversation: open the server's pipe (waiting and trying again while it is busy), tell it something, close it.
\* Whatever goes wrong ends the conversation, silently.
EXTENDS Naturals, Sequences
VARIABLES at,    \* next observation of the untraced behaviour
          talk   \* talker -> the server pipes it holds
Held(t) == IF t \in DOMAIN talk THEN talk[t] ELSE {}
Put(t, s) == [u \in DOMAIN talk \cup {t} |-> IF u = t THEN s ELSE talk[u]]
\* an observation is the one the untraced program would make here
Matches(ref, x) == at <= Len(ref) /\ x = ref[at]
\* one conversation at a time, and nothing is said but over a pipe of the talker's own
MayOpen(t) == Held(t) = {}
MayUse(t, h) == h \in Held(t)
Observed == at' = at + 1 /\ UNCHANGED talk
Opened(t, h) == talk' = Put(t, Held(t) \cup {h}) /\ UNCHANGED at
Said == UNCHANGED <<at, talk>>
Closed(t, h) == talk' = Put(t, Held(t) \ {h}) /\ UNCHANGED at
\* a thread that goes on with its work holds no pipe; at the end nobody does
Silent(t) == Held(t) = {}
AllSilent == \A t \in DOMAIN talk : talk[t] = {}
=============================================================================
