------------------------------- MODULE OamGen -------------------------------
(* Histories of object metadata frames: <<kind, configuration, frames>>; a frame is <<slot or independence flag, bytes>>. *)
EXTENDS Oam
N == atoi(IOEnv.N)
VARIABLE i
Flags(n) == [k \in 1..n |-> RandomElement({0, 1})]
RECURSIVE Frames(_, _, _, _, _)
\* left frames still to do, at most S to an access unit
Frames(st, cf, left, slot, S) ==
  IF left = 0 THEN <<>>
  ELSE LET s == OamFrame([Generator EXCEPT !.x = st], cf)
           nxt == IF slot < S /\ RandomElement(1..3) > 1 THEN slot + 1 ELSE 1
       IN  <<<<slot, Pack(s.a)>>>> \o Frames(s.x, cf, left - 1, nxt, S)
RECURSIVE EFrames(_, _, _, _)
EFrames(st, cf, left, ind) ==
  IF left = 0 THEN <<>>
  ELSE LET s == EnhFrame([Generator EXCEPT !.x = st], cf, ind)
       IN  <<<<ind, Pack(s.a)>>>> \o EFrames(s.x, cf, left - 1, RandomElement({0, 0, 0, 1}))
History(x) ==
  LET n == RandomElement({1, 1, 2, 3, 4, 6, 9, 16, 24})
      len == RandomElement(1..12)
      S == RandomElement({1, 1, 2, 4})
      cf == [n |-> n, uni |-> RandomElement({0, 0, 1}), pri |-> RandomElement({0, 1})]
      only == RandomElement({0, 1})
      ces == RandomElement({0, 0, 1})
      ec == [n |-> n, dif |-> RandomElement({0, 1, 1}), cdif |-> RandomElement({0, 1}), ces |-> ces,
             only |-> IF ces = 1 THEN [k \in 1..n |-> only] ELSE Flags(n), div |-> Flags(n)]
  IN  IF RandomElement(1..3) > 1 THEN <<"oam", cf, S, Frames(OamState(cf), cf, len, 1, S)>>
      ELSE <<"enh", ec, 1, EFrames(EnhState(ec), ec, len, 1)>>
GInit == i = 0
GNext == i < N /\ i' = i + 1 /\ \E h \in {History(i)} : Say("GEN", h)
GSpec == GInit /\ [][GNext]_i
=============================================================================
