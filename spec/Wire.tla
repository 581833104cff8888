-------------------------------- MODULE Wire --------------------------------
\* The contents of control packets: payload bytes (without the size in front) to requests.
EXTENDS Integers, Sequences
I32(b, i) == b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * (IF b[i + 3] > 127 THEN b[i + 3] - 256 ELSE b[i + 3])
NoField == [k |-> "bad", n |-> 0, s |-> <<>>, next |-> 0]
Field(b, i) ==
  CASE b[i] = 0 /\ i + 4 <= Len(b) -> [k |-> "i", n |-> I32(b, i + 1), s |-> <<>>, next |-> i + 5]
    [] b[i] = 1 /\ i + 8 <= Len(b) -> [k |-> "q", n |-> 0, s |-> SubSeq(b, i + 1, i + 8), next |-> i + 9]
    [] b[i] = 2 /\ i + 8 <= Len(b) ->
         LET n == I32(b, i + 1) IN
         IF (\A j \in 5..8 : b[i + j] = 0) /\ n >= 0 /\ n <= Len(b) /\ i + 8 + 2 * n <= Len(b)
         THEN [k |-> "s", n |-> n, s |-> SubSeq(b, i + 9, i + 8 + 2 * n), next |-> i + 9 + 2 * n] ELSE NoField
    [] OTHER -> NoField
RECURSIVE Fields(_, _, _)
Fields(b, i, a) == IF i > Len(b) THEN a
                   ELSE LET f == Field(b, i) IN IF f.k = "bad" THEN Append(a, f) ELSE Fields(b, f.next, Append(a, f))
Kinds(f) == [i \in 1..Len(f) |-> f[i].k]
Bit(n, v) == (n \div v) % 2 = 1
Other(k) == [k |-> k, c |-> 0, r |-> 0, auto |-> FALSE, ex |-> FALSE, wp |-> FALSE, wt |-> FALSE, sp |-> 0, bad |-> FALSE]
\* a request as the agent has to understand it.  "unknown": of a kind it does not know; "bad": not well formed
Request(b) ==
  LET f == Fields(b, 1, <<>>)
      k == Kinds(f) IN
  IF f = <<>> \/ k[1] # "i" THEN Other("bad")
  ELSE CASE f[1].n = 0 -> IF k = <<"i", "q", "i", "i", "s", "s", "s", "s", "s">>
                          THEN [Other("spawn") EXCEPT !.auto = Bit(f[2].s[1], 1), !.ex = Bit(f[2].s[1], 2), !.wp = f[3].n # 0, !.wt = f[4].n # 0]
                          ELSE Other("bad")
         [] f[1].n = 1 -> IF k = <<"i", "i", "i">> /\ f[2].n >= 1 /\ f[3].n >= 1 THEN [Other("size") EXCEPT !.c = f[2].n, !.r = f[3].n] ELSE Other("bad")
         [] f[1].n = 2 -> IF k = <<"i">> THEN Other("list") ELSE Other("bad")
         [] OTHER -> Other("unknown")
=============================================================================
