------------------------------ MODULE MhasTrace -----------------------------
EXTENDS Mhas, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Run(r) ==
  LET s == Reader(r.b) IN
  CASE r.k = "mhas" -> Packets(s, r.a = <<>>)
    [] r.k = "asi" -> Scene(s)
    [] r.k = "econ" -> Earcons(s)
    [] r.k = "pcmc" -> PcmConfig(s)
    [] r.k = "pcmd" -> PcmData(s, r.a)
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] j == Judge(Run(r), r) IN IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
