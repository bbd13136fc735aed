------------------------------- MODULE Output -------------------------------
(* What a caller hears back from the decoder: the parameters in force, the loudspeakers, the rate, the channels and the
   amount of audio, all as functions of the parameters of the create call and of the stream configuration.

   A request is a record of the caller's parameters
     pcm, cicp, preset, effect    as passed          tl   <<>> or <<raw target loudness>>        ofs   0 or the output rate asked for
   Params(q) are the parameters in force: every parameter out of its documented range keeps its default.             *)
EXTENDS Config, Parse

DefaultLoudness == -24
TargetLoudness(raw) == -(raw \div 4)        \* in steps of a quarter dB
Params(q) ==
  LET t == IF q.tl = <<>> THEN 1 ELSE TargetLoudness(q.tl[1])
      ok == t \in -63..0
  IN [pcm |-> IF q.pcm \in {16, 24, 32} THEN q.pcm ELSE 16,
      cicp |-> IF IsLayout(q.cicp) THEN q.cicp ELSE 0,
      preset |-> IF q.preset \in 0..31 THEN q.preset ELSE -1,
      effect |-> IF q.effect \in 1..8 THEN q.effect ELSE 0,
      ln |-> IF ok THEN 1 ELSE 0,
      tl |-> IF ok THEN t ELSE DefaultLoudness,
      ofs |-> q.ofs]

\* the resampling table: <<stream rate, output rate, up, down>>
Ratios == { <<32000, 48000, 3, 2>>, <<29400, 44100, 3, 2>>, <<24000, 48000, 2, 1>>, <<22050, 44100, 2, 1>>, <<16000, 48000, 3, 1>>, <<14700, 44100, 3, 1>> }
Ratio(fs, ofs) == IF \E r \in Ratios : r[1] = fs /\ r[2] = ofs THEN CHOOSE r \in Ratios : r[1] = fs /\ r[2] = ofs ELSE <<fs, fs, 1, 1>>

\* azimuth, elevation and LFE flag of a list of loudspeaker indices
Geo(q) == [i \in 1..Len(q) |-> Spk(q[i])]
Report(layout, cicp, g) == [layout |-> layout, cicp |-> cicp, n |-> Len(g), geo |-> g]
\* entries of a flexible loudspeaker description: <<first speaker index or angles>>; only their number is reported exactly
AnyGeo(n) == [i \in 1..n |-> <<AnyVal, AnyVal, AnyVal>>]
Speakers(p, cf) ==
  LET ty == cf.spk[1] IN
  IF p.cicp # 0 THEN Report(0, p.cicp, Geo(Layout(p.cicp)))
  ELSE CASE ty = 0 -> Report(0, cf.spk[2], Geo(Layout(cf.spk[2])))
         [] ty = 1 -> Report(1, -1, Geo(SubSeq(cf.spk, 3, Len(cf.spk))))
         [] ty = 2 -> Report(2, -1, AnyGeo(cf.spk[2]))
         [] OTHER  -> Report(3, -1, [i \in 1..cf.spk[2] |-> <<0, 0, 0>>])

\* the converter replaces a flexible layout whose loudspeakers are out of order by the indexed layout of that number
SpeakersAlso(p, cf) ==
  {Speakers(p, cf)} \cup (IF p.cicp = 0 /\ cf.spk[1] = 2 /\ cf.fc = 1 /\ IsLayout(cf.spk[2]) THEN {Report(0, cf.spk[2], Geo(Layout(cf.spk[2])))} ELSE {})

\* number of channels in the stream and of channels delivered: the converter delivers the target layout, the object and the
\* ambisonics renderers the target layout or, with a reference layout that is a list of loudspeakers, that list; a stream
\* without any of them is delivered as coded.  Init reports the coded channels of a stream that will be converted.
Has(cf, ty) == \E i \in 1..Len(cf.exty) : cf.exty[i] = ty
Coded(cf) == cf.nch + cf.nobj + cf.nhoa
Target(p, cf) == IF p.cicp # 0 THEN NumLs(p.cicp) ELSE IF cf.spk[1] = 0 THEN NumLs(cf.spk[2]) ELSE cf.spk[2]
Rendered(p, cf) == IF cf.spk[1] \in {1, 2} THEN cf.spk[2] ELSE Target(p, cf)
Channels(p, cf, init) ==
  IF cf.fc = 1 THEN {IF init THEN Coded(cf) ELSE Target(p, cf)}
  ELSE IF (Has(cf, 5) /\ cf.nobj = 0) \/ (Has(cf, 7) /\ cf.nhoa = 0) THEN 1..24         \* nothing to render: left open
  ELSE IF Has(cf, 5) \/ Has(cf, 7) THEN {Rendered(p, cf)}
  ELSE {Coded(cf)}

\* samples of delay that are cut off the beginning; the subband domain of the dynamic range control may add its own
FrameLen == 1024
LimiterDelay == 240
FcDelay == 256
Delay(p, cf) == (IF cf.rate = 48000 THEN LimiterDelay ELSE 0) + (IF cf.fc = 1 THEN FcDelay ELSE 0)
Delays(p, cf) == LET d == Delay(p, cf) IN
                 IF cf.unidrc = 1 /\ p.ln = 1 THEN {d, d + FcDelay + (IF Has(cf, 7) THEN 768 ELSE 0)} ELSE {d}
Bytes4(p, ch, n) == n * ch * (p.pcm \div 8)
=============================================================================
