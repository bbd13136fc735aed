----------------------------- MODULE SelectTrace -----------------------------
EXTENDS DrcSelect, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Run(r) ==
  LET c == DrcConfig(Reader(r.b), r.dm, 32)
      l == LoudnessSet(Reader(r.lb))
  IN  IF c.e # "ok" \/ l.e # "ok" THEN [e |-> "any"]
      ELSE IF Open(c.x.ins, l.x.li, r.p) THEN [e |-> "any"]
      ELSE LET s == Select(c.x.ins, l.x.li, r.p, c.v, r.dm) IN IF s.e = "ok" THEN [e |-> "ok", p |-> 0, o |-> s.o] ELSE s
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] s == Run(r) j == Judge(s, r)
            IN  IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE IF s.e = "any" THEN Say("OPEN", <<l>>) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
