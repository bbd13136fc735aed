------------------------------- MODULE DmxGen -------------------------------
EXTENDS Dmx
N == atoi(IOEnv.N)
VARIABLE i
Outs == {1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}
\* a stream: matrices of its configuration <<layout, matrix or none, its bits>>
Entries(ci, co, n) ==
  FoldLeft(LAMBDA q, k :
    LET w == RandomElement(1..8)
        lay == IF w <= 4 THEN co ELSE IF w <= 6 THEN RandomElement(Outs) ELSE ci
        s == DmxMatrix([Generator EXCEPT !.x = DmxX0], ci, Layout(ci), lay)
    IN  Append(q, IF w % 4 = 0 THEN <<lay, 0, <<>>, 0>> ELSE LET z == {s} IN LET t == CHOOSE u \in z : TRUE IN <<lay, 1, Pack(t.a), Len(t.a)>>),
    <<>>, [k \in 1..n |-> k])
Audio == \E ci \in {RandomElement({1, 2, 3, 6})} : \E co \in {RandomElement({1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 14, 16, 19})} : \E n \in {RandomElement(0..3)} :
         \E e \in {Entries(ci, co, n)} : Say("GEN", <<ci, co, e, RandomElement(1..NumLs(ci))>>)
GInit == i = 0
GNext == /\ i < N /\ i' = i + 1
         /\ IF "AUDIO" \in DOMAIN IOEnv THEN Audio ELSE
            \E k \in {RandomElement({"tmpl", "idx", "idx", "few", "list"})} :
            \E w \in {Templates[RandomElement(1..Len(Templates))]} : \E a \in {RandomElement(Outs)} : \E b \in {RandomElement(Outs)} : \E c \in {RandomElement({1, 2, 3, 4, 5, 6, 9, 10})} : \E d \in {RandomElement({1, 2, 3, 4, 5, 6, 9, 10})} :
            \E lay \in {[j \in 1..RandomElement(1..8) |-> RandomElement(0..MaxSpk)]} :
            LET ci == IF k = "list" THEN 0 ELSE IF k = "tmpl" THEN w[1] ELSE IF k = "few" THEN c ELSE a
                co == IF k = "tmpl" THEN w[2] ELSE IF k = "few" THEN d ELSE b
                lin == IF ci = 0 THEN lay ELSE Layout(ci)
            IN  \E s \in {DmxMatrix([Generator EXCEPT !.x = DmxX0], ci, lin, co)} : Say("GEN", <<Pack(s.a), s.e, ci, lin, co, Len(s.a), IF s.e = "ok" THEN s.x.mtx ELSE <<>>, IF s.o = <<>> THEN 0 ELSE s.o[1]>>)
GSpec == GInit /\ [][GNext]_i
=============================================================================
