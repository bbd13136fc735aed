------------------------------ MODULE DmxTrace -------------------------------
EXTENDS Dmx, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Run(r) == DmxMatrix([Reader(r.b) EXCEPT !.x = DmxX0], r.ci, r.lin, r.co)
(* In the audio: loudspeaker r.i of layout r.ci sounds alone, the output layout is r.co.  r.ents: the matrices of the
   configuration in force; r.lev: gain of each output channel in eighths of a decibel, or mute; r.same: as without matrices *)
Of(e, r) == DmxMatrix([ReaderN(e[3], e[4], 0) EXCEPT !.x = DmxX0], r.ci, Layout(r.ci), r.co)
Level(g, m, equalised) == IF m = DmxMute THEN g = DmxMute ELSE IF equalised THEN g # DmxMute \/ m < -160 ELSE (g - m) \in -1..1
Applies(s, r) == LET row == s.x.mtx[r.i] IN \A j \in 1..Len(row) : Level(r.lev[j], row[j], s.o[1] = 1)
Audible(r) ==
  LET es == SelectSeq(r.ents, LAMBDA e : e[1] = r.co /\ e[2] = 1 /\ e[4] > 0)
      ss == [k \in 1..Len(es) |-> Of(es[k], r)]
  IN  IF r.err # "" THEN <<"error", r.err>>
      ELSE IF Len(r.lev) # NumLs(r.co) THEN <<"channels", Len(r.lev)>>
      ELSE IF r.ci = r.co THEN IF \A j \in 1..Len(r.lev) : Level(r.lev[j], IF j = r.i THEN 0 ELSE DmxMute, FALSE) THEN <<>> ELSE <<"converted", r.lev>>
      ELSE IF es = <<>> THEN IF r.same = 1 THEN <<>> ELSE <<"no matrix for this layout, but it sounds different">>
      ELSE IF \E k \in 1..Len(ss) : ss[k].e # "ok" THEN <<>>
      ELSE IF \E k \in 1..Len(ss) : Applies(ss[k], r) THEN <<>> ELSE <<"levels", r.lev, "matrix", ss[1].x.mtx[r.i]>>
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] j == IF r.k = "aud" THEN Audible(r) ELSE Judge(Run(r), r) IN IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
