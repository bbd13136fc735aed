------------------------------- MODULE DrcGen -------------------------------
EXTENDS Drc
N == atoi(IOEnv.N)
VARIABLE i
Dm(x) == [k \in 1..RandomElement(0..3) |-> <<RandomElement({k, k, 0, 127, 5}), RandomElement({1, 2, 2, 3, 6, 8, 12, 24})>>]
Rates == {48000, 48000, 44100, 32000, 24000, 16000}
MakeGain(c, F, dt) == IF c.e # "ok" \/ c.x.co = <<>> THEN Generator ELSE DrcGain(Generator, c.x.co[1].sets, F, dt)
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ \E k \in {RandomElement(IF IOEnv.KIND = "gain" THEN {"gain"} ELSE {"drc", "loud"})} : \E dm \in {Dm(k)} : \E fs \in {RandomElement(Rates)} : \E F \in {RandomElement({1024, 1024, 768})} :
            \E c \in {IF k = "loud" THEN LoudnessSet(Generator) ELSE DrcConfig(Generator, dm, DeltaTMin(fs))} :
            \E s \in {IF k = "gain" THEN MakeGain(c, F, DeltaTMin(fs)) ELSE c} :
            \E t \in {IF k = "gain" THEN MakeGain(c, F, DeltaTMin(fs)) ELSE c} :
              IF k = "gain" /\ (c.e # "ok" \/ c.x.co = <<>>) THEN TRUE
              ELSE Say("GEN", <<k, dm, fs, F, Pack(s.a), IF k = "gain" THEN Pack(c.a) ELSE <<>>, IF k = "gain" THEN Pack(t.a) ELSE <<>>, s.e>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
