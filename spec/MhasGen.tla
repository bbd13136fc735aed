------------------------------- MODULE MhasGen ------------------------------
(* Byte strings of each grammar, written by running the grammar itself as a generator. *)
EXTENDS Mhas
N == atoi(IOEnv.N)
KINDS == IOEnv.KINDS
VARIABLE i
Cfg(j) == <<RandomElement({16, 24, 32}), RandomElement(0..7), RandomElement(0..6), RandomElement(0..3)>>
Small(c) == IF c[2] \in {1, 2} THEN [c EXCEPT ![2] = 5] ELSE c
Make(kind, cfg) ==
  LET s == [Generator EXCEPT !.x = X0] IN
  CASE kind = "mhas" -> Packets(s, TRUE) [] kind = "asi" -> Scene(s) [] kind = "econ" -> Earcons(s)
    [] kind = "pcmc" -> PcmConfig(s) [] kind = "pcmd" -> PcmData(s, cfg)
GInit == i = 0
Kinds == IF KINDS = "mhas" THEN {"mhas"} ELSE {"asi", "asi1", "asi2", "econ", "pcmc", "pcmd"}
GNext == /\ i < N /\ i' = i + 1
         /\ \E c \in {Small(Cfg(i))} : \E kind \in {RandomElement(Kinds)} :
              LET k == IF kind \in {"asi1", "asi2"} THEN "asi" ELSE kind IN
              \E s \in {Make(k, c)} : Say("GEN", <<k, c, Pack(s.a)>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
