------------------------------- MODULE InterGen -------------------------------
\* a scene of n signals, a preset, and a user interacting with the groups of it
EXTENDS Side
N == atoi(IOEnv.N)
VARIABLE i
One(n, k) == SceneOf(Generator, [X0 EXCEPT !.free = 0..(n - 1), !.t = k % 8 > 0])
Known2(q) == [g |-> [k \in 1..Len(q.x.grp) |-> <<q.x.grp[k][1], q.x.grp[k][3], q.x.grp[k][2]>>], p |-> [k \in 1..Len(q.x.pre) |-> q.x.pre[k][1]]]
Of(q, k) == IF q.e = "ok" /\ Len(q.x.grp) > 0 THEN Interaction(Generator, Known2(q)) ELSE Generator
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E n \in {RandomElement({1, 2, 3, 3})} : \E q \in {One(n, i)} : \E z \in {Of(q, i)} :
              IF q.e = "ok" /\ Len(z.a) > 0 /\ Len(q.x.grp) > 0
              THEN Say("GEN", <<n, Pack(q.a), Pack(z.a), IF q.x.pre = <<>> THEN -1 ELSE RandomElement({-1} \cup {q.x.pre[k][1] : k \in 1..Len(q.x.pre)})>>) ELSE TRUE
GSpec == GInit /\ [][GNext]_i
===============================================================================
