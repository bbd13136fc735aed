------------------------------- MODULE GainGen -------------------------------
\* DRC configurations with a payload of gains for each of the access units to be decoded
EXTENDS DrcSelect
N == atoi(IOEnv.N)
P == atoi(IOEnv.P)
VARIABLE i
X0(k) == [DX0 EXCEPT !.t = TRUE, !.one = TRUE, !.bc = RandomElement({1, 2, 2, 3, 6})]
Bytes(n, sets) == Pack(DrcGain2([Generator EXCEPT !.x = [DX0 EXCEPT !.one = TRUE]], sets, 1024, 32).a)
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E c \in {DrcConfig2([Generator EXCEPT !.x = X0(i)], <<>>, 32)} : \E l \in {LoudnessSet2([Generator EXCEPT !.x = X0(i)])} :
              IF c.e = "ok" /\ c.x.co # <<>> THEN Say("GEN", <<Pack(c.a), c.v, Pack(l.a), [k \in 1..P |-> Bytes(k, c.x.co[1].sets)]>>) ELSE TRUE
GSpec == GInit /\ [][GNext]_i
=============================================================================
