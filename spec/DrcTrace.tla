------------------------------ MODULE DrcTrace -------------------------------
EXTENDS Drc, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Run(r) ==
  LET s == Reader(r.b) dt == DeltaTMin(r.fs) IN
  CASE r.k = "drc" -> DrcConfig(s, r.dm, dt)
    [] r.k = "loud" -> LoudnessSet(s)
    [] r.k = "gain" -> LET c == DrcConfig(Reader(r.cfg), r.dm, dt) IN
                       IF c.e # "ok" \/ c.x.co = <<>> THEN [s EXCEPT !.e = "any"] ELSE DrcGain(s, c.x.co[1].sets, r.F, dt)
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] j == Judge(Run(r), r) IN IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
