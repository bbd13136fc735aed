------------------------------ MODULE SelectGen ------------------------------
\* Configurations, loudness information and requests that have something to do with each other
EXTENDS DrcSelect
N == atoi(IOEnv.N)
VARIABLE i
Tight0 == [DX0 EXCEPT !.t = TRUE]
Dms == <<<<2, 2>>, <<6, 6>>>>
One(S) == RandomElement(S)
Request(x) ==
  LET pre == IF One(1..3) = 1 THEN <<>> ELSE <<One(1..3)>> IN
  [on |-> One({0, 1, 1, 1, 1}), eff |-> One(0..6), ln |-> One({0, 1, 1, 1}), tl |-> 32 * One({-31, -24, -23, -20, -16, -12, -40}),
   req |-> One({0, 0, 2, 6}), max |-> One({0, 0, 0, -32, 16, 96}), dev |-> One({0, 0, 3, 63}), gmax |-> One({32000, 32000, 320, 0}),
   meth |-> One({0, 0, 1, 2}), sys |-> One(0..8), grp |-> SelectSeq(<<1, 2, 3>>, LAMBDA g : One({TRUE, FALSE})),
   pre |-> pre, mem |-> [k \in 1..Len(pre) |-> One(0..3)], pref |-> One({0, 0, 1, 2})]
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E c \in {DrcConfig2([Generator EXCEPT !.x = Tight0], Dms, 32)} : \E l \in {LoudnessSet2([Generator EXCEPT !.x = Tight0])} : \E p \in {Request(i)} :
              Say("GEN", <<Pack(c.a), Pack(l.a), p, Dms>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
