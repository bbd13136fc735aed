------------------------------- MODULE LoudGen -------------------------------
\* Configurations and loudness information that have something to do with each other, for streams to be decoded
EXTENDS DrcSelect
N == atoi(IOEnv.N)
VARIABLE i
X0(k) == [DX0 EXCEPT !.t = TRUE, !.one = k % 8 # 0]
Dms == <<<<2, 2>>, <<6, 6>>>>
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E c \in {DrcConfig2([Generator EXCEPT !.x = X0(i)], Dms, 32)} : \E l \in {LoudnessSet2([Generator EXCEPT !.x = X0(i)])} :
              Say("GEN", <<Pack(c.a), Pack(l.a)>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
