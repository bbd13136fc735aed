------------------------------ MODULE ConfigGen -----------------------------
EXTENDS Config
N == atoi(IOEnv.N)
VARIABLE i
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E opt \in {RandomElement({0, 0, 0, 1, 2, 6, 13, 19})} : \E s \in {Config([Generator EXCEPT !.x = CX0], opt)} :
              Say("GEN", <<"cfg", opt, Pack(s.a), s.e>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
