------------------------------ MODULE HoaTrace -------------------------------
EXTENDS Hoa, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Run(r) ==
  LET c == HoaConfig([Reader(r.cfg) EXCEPT !.x = CX0], r.ntr) IN
  CASE r.k = "cfg" -> (IF c.e \in {"ok", "short", "any"} THEN c ELSE No([c EXCEPT !.e = "ok"]))
    [] r.k = "mtx" -> Matrices([Reader(r.cfg) EXCEPT !.x = HoaMX0], r.ntr, r.cicp)
    [] r.k = "hoa" -> IF c.e # "ok" THEN [c EXCEPT !.e = "any"] ELSE HoaFrames([c EXCEPT !.x = HoaX0, !.o = <<>>], r.fs, HoaParams(c, r.ntr))
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] j == Judge(Run(r), r) IN IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
