----------------------------- MODULE WordsTrace -----------------------------
(* Recorded decodes of one input at the three word sizes.  A record: out  bytes delivered at 16, 24, 32 bits by one call,
   err  the three return codes, a, b, c  the words of the same samples.                                             *)
EXTENDS Words, Bits
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1
Bad(r) ==
  IF \E i \in 2..3 : r.err[i] # r.err[1] THEN <<"return codes differ", r.err>>
  ELSE IF 3 * r.out[1] # 2 * r.out[2] \/ 2 * r.out[1] # r.out[3] THEN <<"amounts differ", r.out>>
  ELSE IF Agree(r.a, r.b, r.c) THEN <<>> ELSE <<"sample at 16, 24, 32 bits">> \o FirstBad(r.a, r.b, r.c)
TNext == /\ l <= Len(Trace)
         /\ LET b == Bad(Trace[l]) IN IF b # <<>> THEN Say("REJECT", <<l>> \o b) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
