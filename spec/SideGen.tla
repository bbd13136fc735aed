------------------------------- MODULE SideGen ------------------------------
EXTENDS Side
N == atoi(IOEnv.N)
VARIABLE i
Sc(x) == IF RandomElement(1..2) = 1 THEN <<>> ELSE
  [g |-> [k \in 1..RandomElement(1..4) |-> <<RandomElement({k, k + 10, 127}), RandomElement({0, 1}), RandomElement({0, 1})>>],
   p |-> [k \in 1..RandomElement(0..5) |-> RandomElement(0..31)]]
Make(k, sc, w) ==
  CASE k = "ei" -> Interaction(Generator, sc) [] k = "sd" -> Displacement(Generator)
    [] k = "lsi" -> LocalSetup([Generator EXCEPT !.x = SX0], w) [] k = "brir" -> Binaural([Generator EXCEPT !.x = SX0])
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E k \in {RandomElement({"ei", "ei", "lsi", "lsi", "brir", "sd"})} : \E sc \in {Sc(k)} : \E w \in {RandomElement({0, 1, 3, 24})} : \E s \in {Make(k, sc, w)} :
              Say("GEN", <<k, sc, w, Pack(s.a), s.e>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
