------------------------------- MODULE HoaGen -------------------------------
EXTENDS Hoa
N == atoi(IOEnv.N)
VARIABLE i
CfgGen(ntr) == HoaConfig([Generator EXCEPT !.x = CX0], ntr)
RECURSIVE Frames(_, _, _, _)
\* frames as long as they are valid, each in the state its predecessors left
Frames(x, P, n, first) ==
  IF n = 0 THEN <<>>
  ELSE LET t == HoaFrame([Generator EXCEPT !.x = x], P, IF first THEN {1} ELSE {0, 0, 1}) IN
       <<t>> \o (IF t.e = "ok" THEN Frames(t.x, P, n - 1, FALSE) ELSE <<>>)
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E k \in {RandomElement({"cfg", "hoa", "hoa", "hoa", "hoa", "mtx", "mtx"})} : \E ntr \in {RandomElement(1..16)} : \E n \in {RandomElement(1..5)} :
            IF k = "mtx"
            THEN \E nco \in {RandomElement({1, 4, 9, 16, 25, 36, 49, 4, 9, 0})} : \E cicp \in {RandomElement({1, 2, 3, 5, 6, 7, 9, 12, 13, 14, 15, 16, 17, 19, 20})} :
                 \E s \in {Matrices([Generator EXCEPT !.x = HoaMX0], nco, cicp)} : Say("GEN", <<k, nco, Pack(s.a), <<>>, s.e, cicp>>)
            ELSE \E c \in {CfgGen(ntr)} :
                 IF k = "cfg" \/ c.e # "ok" THEN Say("GEN", <<"cfg", ntr, Pack(c.a), <<>>, c.e, 0>>)
                 ELSE \E f \in {Frames(HoaX0, HoaParams(c, ntr), n, RandomElement(1..8) > 1)} :
                      Say("GEN", <<k, ntr, Pack(c.a), [j \in 1..Len(f) |-> Pack(f[j].a)], f[Len(f)].e, 0>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
