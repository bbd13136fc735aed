----------------------------- MODULE SideTrace ------------------------------
EXTENDS Side, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Run(r) ==
  LET s == Reader(r.b) x == [s EXCEPT !.x = SX0] IN
  CASE r.k = "ei" -> Interaction(s, r.sc) [] r.k = "sd" -> Displacement(s) [] r.k = "lsi" -> LocalSetup(x, r.w) [] r.k = "brir" -> Binaural(x)
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] j == Judge(Run(r), r) IN IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
