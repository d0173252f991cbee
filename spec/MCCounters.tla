----------------------------- MODULE MCCounters -----------------------------
(* Counters over a tiny integer type against their definition by history.    *)
EXTENDS Integers, Sequences
CONSTANTS Kind, Below, Hi, MaxCalls   \* cfg files know no negative numbers
Lo == -Below
INSTANCE Counters WITH CZero <- 0, CInc <- LAMBDA x : x + 1, CDec <- LAMBDA x : x - 1, CLeq <- LAMBDA a, b : a <= b

VARIABLES s, h
vars == <<s, h>>
V == Lo..Hi
B == BOOLEAN
(* counting starts from any restored count, not only from zero               *)
Init == /\ h = <<>>
        /\ \E cv \in V : s = IF Kind = "CTUD" THEN [CUDFresh EXCEPT !.cv = cv] ELSE [CFresh EXCEPT !.cv = cv]
Do(c) == /\ Len(h) < MaxCalls
         /\ h' = Append(h, c)
         /\ s' = CASE Kind = "CTU" -> CTU(s, c.u, c.r, c.pv, Lo, Hi)
                   [] Kind = "CTD" -> CTD(s, c.d, c.l, c.pv, Lo, Hi)
                   [] Kind = "CTUD" -> CTUD(s, c.u, c.d, c.r, c.l, c.pv, Lo, Hi)
Input == CASE Kind = "CTU" -> [u : B, r : B, d : {FALSE}, l : {FALSE}, pv : V]
           [] Kind = "CTD" -> [d : B, l : B, u : {FALSE}, r : {FALSE}, pv : V]
           [] Kind = "CTUD" -> [u : B, d : B, r : B, l : B, pv : V]
Next == \E c \in Input : Do(c)
Spec == Init /\ [][Next]_vars

N == Len(h)
Counting(i) == ~h[i].r /\ ~h[i].l
(* the last counting call before i, 0 if none                                *)
RECURSIVE Prev(_)
Prev(i) == IF i <= 1 THEN 0 ELSE IF Counting(i - 1) THEN i - 1 ELSE Prev(i - 1)
Up(i) == h[i].u /\ (Prev(i) = 0 \/ ~h[Prev(i)].u)
Down(i) == h[i].d /\ (Prev(i) = 0 \/ ~h[Prev(i)].d)

InRange == s.cv \in V
Outputs == N > 0 => IF Kind = "CTU" THEN s.q = (s.cv >= h[N].pv)
                    ELSE IF Kind = "CTD" THEN s.q = (s.cv <= 0)
                    ELSE s.qu = (s.cv >= h[N].pv) /\ s.qd = (s.cv <= 0)
(* the change of the count, call by call                                     *)
Counts == [][LET c == h'[N + 1]
                 up == c.u /\ (Prev(N + 1) = 0 \/ ~h[Prev(N + 1)].u)
                 dn == c.d /\ (Prev(N + 1) = 0 \/ ~h[Prev(N + 1)].d)
             IN IF c.r THEN s'.cv = 0
                ELSE IF c.l THEN s'.cv = c.pv
                ELSE IF up = dn THEN s'.cv = s.cv
                ELSE IF up THEN s'.cv = s.cv + (IF s.cv = Hi THEN 0 ELSE 1)
                ELSE s'.cv = s.cv - (IF s.cv = Lo THEN 0 ELSE 1)]_vars
(* hidden memory never decides more than the last counting call says         *)
EdgeMemorySkipsReset ==
  N > 0 => LET p == IF Counting(N) THEN N ELSE Prev(N) IN
           IF Kind = "CTUD" THEN s.mu = (p # 0 /\ h[p].u) /\ s.md = (p # 0 /\ h[p].d)
           ELSE s.mem = (p # 0 /\ (IF Kind = "CTU" THEN h[p].u ELSE h[p].d))
=============================================================================
