----------------------------- MODULE LoudTrace -----------------------------
(* What loudness normalization does to the audio.  A record is one decode compared with the decode of the same stream
   without normalization:
     el   the stream has a DRC element, b its configuration       lx   it has loudness information, lb its bytes
     p    the request (DrcSelect), dm the downmixes the stream describes
     err  the decode failed        au  per access unit with a signal: <<gain in thousandths of a dB, greatest deviation from it in ppm of the peak,
                                 how much gain the audio up to the end of the next unit takes before it comes near full scale>>
   A gain is in 1/32 dB.                                                                                              *)
EXTENDS DrcSelect, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Multi(co) == \E i \in 1..Len(co) : \E k \in 1..Len(co[i].sets) : co[i].sets[k].bands > 1
Gain(r) ==
  LET c == DrcConfig(Reader(IF r.b = <<>> THEN <<0, 0, 0, 0>> ELSE r.b), r.dm, 32)
      l == LoudnessSet(Reader(r.lb))
      li == IF r.lx = 1 THEN l.x.li ELSE <<>>
  IN  IF r.el = 0 THEN [e |-> "ok", g |-> 0]
      ELSE IF c.e = "any" \/ (r.lx = 1 /\ l.e = "any") THEN [e |-> "any"]
      ELSE IF c.e # "ok" \/ (r.lx = 1 /\ l.e # "ok") THEN [e |-> "reject"]
      ELSE IF r.b = <<>> /\ r.lx = 0 THEN [e |-> "ok", g |-> 0]
      ELSE IF Open(c.x.ins, li, r.p) \/ Multi(c.x.co) THEN [e |-> "any"]
      ELSE LET s == Select(c.x.ins, li, r.p, c.v, r.dm) IN
           IF s.e # "ok" THEN s
           \* a set for the audio after a downmix
           ELSE IF \E k \in 1..s.o[1] : s.o[1 + 2 * k] # 0 THEN [e |-> "any"]
           ELSE [e |-> "ok", g |-> s.o[2 + 2 * s.o[1] + 1]]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(mdb, g) == Abs(32 * mdb - 1000 * g) <= 32 * 5
Bad1(s, u) == CASE u[1] # 999999 /\ 125 * s.g > 4 * u[3] -> <<>>          \* the peak limiter steps in
                [] u[1] = 999999 -> <<"another amount of audio">>
                [] ~Near(u[1], s.g) -> <<"gain in 1/32 dB expected", s.g, "found, in thousandths of a dB", u[1]>>
                [] u[2] > 500 -> <<"not the same gain throughout, off by ppm", u[2]>>
                [] OTHER -> <<>>
Verdict(s, r) ==
  CASE r.err = "crash" -> <<"crash">>
    [] s.e = "any" -> <<>>
    [] s.e = "reject" -> IF r.err = "" THEN <<"decoded, but the DRC data is not valid">> ELSE <<>>
    [] r.err # "" -> <<"failed", r.err>>
    [] OTHER -> FirstOf([k \in 1..Len(r.au) |-> Bad1(s, r.au[k])] \o <<<<>>>>)
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] s == Gain(r) v == Verdict(s, r)
            IN  IF v # <<>> THEN Say("REJECT", <<l>> \o v) ELSE IF s.e = "any" THEN Say("OPEN", <<l>>) ELSE Say("GAIN", <<IF s.e = "ok" THEN s.g ELSE 99999>>)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
