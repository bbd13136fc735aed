------------------------------- MODULE GateGen -------------------------------
\* scenes arriving ahead of some of the access units of a stream of n signals, and a preset chosen by the user
EXTENDS Gate, Randomization
N == atoi(IOEnv.N)
P == atoi(IOEnv.P)
VARIABLE i
One(n, k) == SceneOf(Generator, [X0 EXCEPT !.free = 0..(n - 1), !.t = k % 4 > 0])
When(k) == SetToSortSeq(RandomSubset(RandomElement({1, 1, 2, 3}), 0..(P - 1)), LAMBDA a, b : a < b)
Chosen(q, k) ==
  LET sets == {{q[j].x.pre[h][1] : h \in 1..Len(q[j].x.pre)} : j \in 1..Len(q)}
      all == {v \in 0..31 : \A z \in sets : v \in z}
      ids == UNION {{q[j].x.pre[h][1] : h \in 1..Len(q[j].x.pre)} : j \in 1..Len(q)}
      r == RandomElement(1..12)
  IN  IF r < 4 THEN -1 ELSE IF r < 9 /\ all # {} THEN RandomElement(all) ELSE IF r = 12 \/ ids = {} THEN RandomElement(-1..31) ELSE RandomElement(ids)
Scenes(n, w) == FoldLeft(LAMBDA a, k : Append(a, One(n, k + w[1] + RandomElement(0..3))), <<>>, [k \in 1..Len(w) |-> k])
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E n \in {RandomElement({1, 1, 2, 2, 3, 3, 4, 6, 6})} : \E w \in {When(i)} : \E q \in {Scenes(n, w)} : \E p \in {Chosen(q, i)} :
              IF \A k \in 1..Len(q) : q[k].e = "ok" THEN Say("GEN", <<n, [k \in 1..Len(w) |-> <<w[k], Pack(q[k].a)>>], p>>) ELSE TRUE
GSpec == GInit /\ [][GNext]_i
=============================================================================
