---------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Run(r) ==
  LET s == Reader(r.b) IN
  CASE r.k = "cfg" -> Config(s, r.a[1])
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] j == Judge(Run(r), r) IN IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
