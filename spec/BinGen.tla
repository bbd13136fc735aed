------------------------------- MODULE BinGen -------------------------------
EXTENDS Binaural, TLC, Json, IOUtils
N == atoi(IOEnv.N)
VARIABLE i
Say(tag, x) == PrintT("VP-" \o tag \o " " \o ToJson(x))
Sizes == {1, 2, 3, 16, 100, 255, 256, 257, 512, 700, 1000, 1024, 1025, 2000, 2048, 3000, 4096, 5000, 8192}
Outs == {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 14, 16, 17, 18, 19, 20}
Val(k) == RandomElement({-4, -3, -1, 1, 2, 4})
Tap(n) == RandomElement({0, 0, n - 1, RandomElement(0..n - 1)})
Shuffle(q) == LET p == RandomElement(1..Len(q)) IN SubSeq(q, p, Len(q)) \o SubSeq(q, 1, p - 1)
\* positions of the pairs: an indexed layout, or a list
Positions(out) ==
  LET w == RandomElement(1..9) IN
  IF w <= 4 THEN out ELSE IF w <= 6 THEN Shuffle(out) \o <<RandomElement(0..MaxSpk)>> ELSE IF w = 7 THEN Reverse(out)
  ELSE IF w = 8 THEN Layout(RandomElement({6, 12, 14, 16, 19})) ELSE [k \in 1..RandomElement(1..6) |-> RandomElement(0..MaxSpk)]
MakeRep(out, n, h, lay, s0) ==
  LET s == IF h >= 0 THEN <<>> ELSE IF lay > 0 THEN Layout(lay) ELSE s0
      p == IF h >= 0 THEN (h + 1) * (h + 1) ELSE IF lay > 0 /\ RandomElement(1..5) = 1 THEN RandomElement(1..20) ELSE Len(s)
  IN  [f |-> RandomElement({48000, RandomElement({48000, RandomElement({48000, RandomElement({48000, 44100, 47999})})})}), h |-> h, lay |-> lay, s |-> s, p |-> p, n |-> n,
       t |-> FoldLeft(LAMBDA q, k : q \o FoldLeft(LAMBDA z, j : Append(z, <<RandomElement({1, 2}), k, Tap(n), Val(j)>>), <<>>, [j \in 1..RandomElement(0..3) |-> j]), <<>>, [k \in 1..p |-> k]),
       d |-> FoldLeft(LAMBDA q, k : Append(q, FoldLeft(LAMBDA z, j : Append(z, <<RandomElement({1, 2}), Tap(n), Val(j)>>), <<>>, [j \in 1..RandomElement(0..3) |-> j])), <<>>, [k \in 1..RandomElement({0, 0, 1, 2}) |-> k]),
       w |-> FoldLeft(LAMBDA q, k : Append(q, RandomElement({0, 1, 2, -2, 4})), <<>>, [k \in 1..p |-> k])]
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E ci \in {RandomElement({1, 2, 3, 6})} : \E cq \in {RandomElement({0, 0, RandomElement(Outs)})} :
            LET co == IF cq = 0 THEN ci ELSE cq IN
            \E m \in {RandomElement({1, RandomElement({1, RandomElement({1, RandomElement({0, 2})})})})} : \E n1 \in {RandomElement(Sizes)} : \E n2 \in {RandomElement(Sizes)} :
            \E h \in {RandomElement({-1, RandomElement({-1, RandomElement(0..3)})})} : \E lw \in {RandomElement(1..3)} : \E s \in {Positions(Layout(co))} :
            \E a \in {MakeRep(Layout(co), n1, h, IF lw = 1 THEN co ELSE IF lw = 2 /\ RandomElement(1..3) = 1 THEN 6 ELSE 0, s)} : \E b \in {MakeRep(Layout(co), n2, -1, co, <<>>)} :
            LET reps == IF m = 0 THEN <<>> ELSE IF m = 1 THEN <<a>> ELSE <<b, a>> IN
            \E x \in {Expect(reps, 48000, Layout(co))} : Say("GEN", <<ci, cq, reps, x>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
