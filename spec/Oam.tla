-------------------------------- MODULE Oam ---------------------------------
(* Object metadata (low-delay coding): the state of every object and what a frame does to it.

   A configuration is [n, uni, pri]: number of objects, uniform spread, priorities present.
   The state is [o |-> objects, fx |-> parameters that the last intra-coded frame declared fixed]; an object is
     <<azimuth, elevation, radius, gain, width, height, depth, priority>>  (coded values)
   A frame is intra-coded (every object gets every value) or dynamic (each object may get new values or differences, except
   for fixed parameters, which keep their value).  All frames, also those of one access unit, follow one another.        *)
EXTENDS Bits
AZ == 1  EL == 2  RA == 3  GA == 4  SW == 5  SH == 6  SD == 7  PR == 8
Width == <<8, 6, 4, 7, 7, 5, 4, 3>>
IsSigned == <<TRUE, TRUE, FALSE, TRUE, FALSE, FALSE, FALSE, FALSE>>
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
OamState(cf) == [o |-> [i \in 1..cf.n |-> Zero], fx |-> {}]

SignExt(v, w) == IF v >= Pow2[w - 1] THEN v - Pow2[w] ELSE v
RdVal(s, k) == LET t == Rd(s, Width[k]) IN IF t.e = "ok" /\ IsSigned[k] THEN [t EXCEPT !.v = SignExt(@, Width[k])] ELSE t
SetAll(s, k, v) == IF s.e = "ok" THEN [s EXCEPT !.x.o = [i \in DOMAIN @ |-> [@[i] EXCEPT ![k] = v]]] ELSE s
SetOne(s, i, k, v) == IF s.e = "ok" THEN [s EXCEPT !.x.o[i][k] = v] ELSE s
Fix(s, ks, v) == IF s.e = "ok" THEN [s EXCEPT !.x.fx = IF v = 1 THEN @ \cup ks ELSE @ \ ks] ELSE s
Spread(cf) == IF cf.uni = 1 THEN <<SW>> ELSE <<SW, SH, SD>>

\* values of the parameters ks for all objects together, or for one
All(s, ks)    == FoldLeft(LAMBDA t, k : LET u == RdVal(t, k) IN SetAll(u, k, u.v), s, ks)
One(s, i, ks) == FoldLeft(LAMBDA t, k : LET u == RdVal(t, k) IN SetOne(u, i, k, u.v), s, ks)
ToSet2(q) == {q[i] : i \in 1..Len(q)}
\* fixed, common, or one by one
IntraParam(s, cf, ks) ==
  LET f == Rd(s, 1)
      f1 == Fix(f, ToSet2(ks), f.v)
  IN  IF f.e # "ok" THEN f
      ELSE IF f.v = 1 THEN All(f1, ks)
      ELSE LET c == Rd(f1, 1) IN
           IF c.e # "ok" THEN c ELSE IF c.v = 1 THEN All(c, ks) ELSE Times(c, cf.n, LAMBDA t, i : One(t, i, ks))
Intra(s, cf) ==
  LET params == <<<<AZ>>, <<EL>>, <<RA>>, <<GA>>, Spread(cf)>> \o (IF cf.pri = 1 THEN <<<<PR>>>> ELSE <<>>) IN
  IF cf.n = 1 THEN FoldLeft(LAMBDA t, ks : One(t, 1, ks), [s EXCEPT !.x.fx = {}], params)
  ELSE FoldLeft(LAMBDA t, ks : IF t.e = "ok" THEN IntraParam(t, cf, ks) ELSE t, s, params)

Least(a, b) == IF a < b THEN a ELSE b
\* difference of nb bits, at most one more than the value has (the azimuth has none of its own)
DiffBits(k, nb) == IF k = AZ THEN nb ELSE Least(Width[k] + 1, nb)
Delta(s, i, k, nb) ==
  LET f == Rd(s, 1)
      w == DiffBits(k, nb)
      d == Rd(f, w)
  IN  IF f.e # "ok" \/ f.v = 0 THEN f
      ELSE IF d.e # "ok" THEN d ELSE SetOne(d, i, k, d.x.o[i][k] + SignExt(d.v, w))
Live(s, cf, abs) == SelectSeq(<<AZ, EL, RA, GA>> \o Spread(cf), LAMBDA k : k \notin s.x.fx)
                    \o (IF cf.pri = 1 /\ (PR \notin s.x.fx \/ ~abs) THEN <<PR>> ELSE <<>>)
Single(s, cf, i, abs) ==
  IF abs THEN One(s, i, Live(s, cf, TRUE))
  ELSE LET b == Rd(s, 3) IN
       FoldLeft(LAMBDA t, k : IF t.e = "ok" THEN Delta(t, i, k, b.v + 2) ELSE t, b, Live(s, cf, FALSE))
Dynamic(s, cf) ==
  LET a == Rd(s, 1) abs == a.v = 1 IN
  Times(a, cf.n, LAMBDA t, i : LET h == Rd(t, 1) IN IF h.e = "ok" /\ h.v = 1 THEN Single(h, cf, i, abs) ELSE h)
\* generation: mostly dynamic frames, objects moving often
OamFrame(s, cf) ==
  LET h == RdIn(s, 1, {0, 0, 1}) IN IF h.e # "ok" THEN h ELSE IF h.v = 1 THEN Intra(h, cf) ELSE Dynamic(h, cf)

-----------------------------------------------------------------------------
\* what the values mean, within the limits of each parameter: halves of a degree, degrees, ten-thousandths; gains in 1/3393
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RadiusTab == <<5000, 6300, 7937, 10000, 12599, 15874, 20000, 25198, 31748, 40000, 50397, 63496, 80000, 100794, 126992, 160000>>                    \* 2^(r/3) / 2
DepthTab  == <<0, 1300, 2937, 5000, 7599, 10874, 15000, 20198, 26748, 35000, 45397, 58496, 75000, 95794, 121992, 155000>>                    \* 2^(d/3) / 2 - 1/2
GainTab   == <<14, 14, 15, 16, 17, 18, 19, 20, 21, 23, 24, 25, 27, 29, 30, 32, 34, 36, 38, 40, 43, 45, 48, 51, 54, 57, 60, 64, 68, 72, 76, 80, 85, 90, 96, 101, 107, 114, 120, 128, 135, 143, 152, 161, 170, 180, 191, 202, 214, 227, 240, 254, 270, 285, 302, 320, 339, 359, 381, 403, 427, 452, 479, 508, 538, 570, 603, 639, 677, 717, 760, 805, 852, 903, 956, 1013, 1073, 1137, 1204, 1275, 1351, 1431, 1516, 1605, 1701, 1801, 1908, 2021, 2141, 2268, 2402, 2544, 2695, 2855, 3024, 3203, 3393, 3594, 3807, 4033, 4272, 4525, 4793, 5077, 5378, 5696, 6034, 6391, 6770, 7171, 7596, 8046, 8523, 9028, 9563, 10129, 10730, 11365, 12039, 12752, 13508, 14308, 15156, 16054, 17005, 18013, 19080, 20211>>    \* 10^((g-32)/40)
\* the tables against the laws they stand for: doubling every three steps, tenfold every forty
ASSUME \A i \in 1..13 : RadiusTab[i + 3] - 2 * RadiusTab[i] \in -2..2
ASSUME \A i \in 1..16 : DepthTab[i] - (RadiusTab[i] - 5000) \in -1..1
ASSUME \A i \in 1..88 : GainTab[i + 40] - 10 * GainTab[i] \in -6..6
ASSUME GainTab[32 + 65] = 3393
Means(cf, q) ==
  <<Clamp(3 * q[AZ], -360, 360), Clamp(3 * q[EL], -90, 90), RadiusTab[Clamp(q[RA], 0, 15) + 1],
    IF q[GA] > 63 THEN 20212 ELSE GainTab[Clamp(q[GA], -64, 63) + 65], Clamp(3 * q[SW], 0, 360)>>
  \o (IF cf.uni = 1 THEN <<>> ELSE <<Clamp(3 * q[SH], 0, 90), DepthTab[Clamp(q[SD], 0, 15) + 1]>>)
  \o (IF cf.pri = 1 THEN <<Clamp(q[PR], 0, 7)>> ELSE <<>>)
Coded(cf, q) == SubSeq(q, 1, 5) \o (IF cf.uni = 1 THEN <<>> ELSE <<q[SH], q[SD]>>) \o (IF cf.pri = 1 THEN <<q[PR]>> ELSE <<>>)
Seen(cf, st) == FoldLeft(LAMBDA a, i : a \o Coded(cf, st.o[i]) \o Means(cf, st.o[i]), <<>>, [i \in 1..cf.n |-> i])

-----------------------------------------------------------------------------
(* Enhanced object metadata.  Configuration [n, dif, cdif, ces, only (per object), div (per object)]: diffuseness present and
   common, exclusion sectors common, only predefined sectors, divergence.  State: sectors, diffuseness, divergence of every
   object; a value that is kept stays as it is.  A sector is <<0, min azimuth, max azimuth, min elevation, max elevation>> or
   <<1, index>>; where only predefined ones are allowed <<2, index>>.                                                       *)
EnhState(cf) == [sec |-> [i \in 1..cf.n |-> <<>>], dif |-> [i \in 1..cf.n |-> 0], div |-> [i \in 1..cf.n |-> 0], play |-> [i \in 1..cf.n |-> 0]]
Sector(s, only) ==
  LET p == IF only THEN [s EXCEPT !.v = 2] ELSE Rd(s, 1)
      a == Rd(p, 7) b == Rd(a, 7) c == Rd(b, 5) d == Rd(c, 5)
      i == Rd(p, 4)
  IN  IF p.e # "ok" THEN [s |-> p, q |-> <<>>]
      ELSE IF p.v = 0 THEN [s |-> d, q |-> IF d.e # "ok" THEN <<>> ELSE <<0, Clamp(3 * (a.v - 63), -180, 180), Clamp(3 * (b.v - 63), -180, 180), Clamp(6 * (c.v - 15), -90, 90), Clamp(6 * (d.v - 15), -90, 90)>>]
      ELSE [s |-> i, q |-> <<p.v, i.v>>]
Keep(s, ind) == IF ind = 1 THEN [s EXCEPT !.v = 0] ELSE Rd(s, 1)
Sectors(s, cf, i, ind) ==
  LET k == Keep(s, ind)
      n == RdIn(k, 4, 0..4)
      z == FoldLeft(LAMBDA f, m : IF f.s.e # "ok" THEN f ELSE LET y == Sector(f.s, cf.only[i] = 1) IN [s |-> y.s, q |-> Append(f.q, y.q)],
                    [s |-> n, q |-> <<>>], [m \in 1..n.v |-> m])
  IN  IF k.e # "ok" \/ k.v = 1 THEN k ELSE IF n.e # "ok" THEN n ELSE IF z.s.e # "ok" THEN z.s ELSE [z.s EXCEPT !.x.sec[i] = z.q]
Kept7(s, ind, Set(_, _)) ==
  LET k == Keep(s, ind) v == Rd(k, 7) IN IF k.e # "ok" \/ k.v = 1 THEN k ELSE IF v.e # "ok" THEN v ELSE Set(v, v.v)
EnhFrame(s0, cf, ind) ==
  LET s == IF cf.ces = 1 THEN Sectors(s0, cf, 1, ind) ELSE s0
      t == IF cf.dif = 1 /\ cf.cdif = 1 THEN Kept7(s, ind, LAMBDA u, v : [u EXCEPT !.x.dif[1] = v]) ELSE s
      Obj(u, i) ==
        LET a == Rd(u, 1)
            a1 == IF a.e = "ok" THEN [a EXCEPT !.x.play[i] = a.v] ELSE a
            b == IF cf.div[i] = 1 THEN Kept7(a1, ind, LAMBDA w, v : [w EXCEPT !.x.div[i] = v]) ELSE a1
            c == IF cf.dif = 1 /\ cf.cdif = 0 THEN Kept7(b, ind, LAMBDA w, v : [w EXCEPT !.x.dif[i] = v]) ELSE b
        IN  IF cf.ces = 0 /\ c.e = "ok" THEN Sectors(c, cf, i, ind) ELSE c
  IN  Times(t, cf.n, Obj)
Flat(qq) == FoldLeft(LAMBDA a, q : a \o q, <<>>, qq)
SeenEnh(cf, st) ==
  LET one(i) == <<st.play[i]>> \o (IF cf.div[i] = 1 THEN <<st.div[i]>> ELSE <<>>)
                \o (IF cf.dif = 1 /\ cf.cdif = 0 THEN <<st.dif[i]>> ELSE <<>>) \o (IF cf.ces = 0 THEN <<Len(st.sec[i])>> \o Flat(st.sec[i]) ELSE <<>>)
  IN  (IF cf.ces = 1 THEN <<Len(st.sec[1])>> \o Flat(st.sec[1]) ELSE <<>>) \o (IF cf.dif = 1 /\ cf.cdif = 1 THEN <<st.dif[1]>> ELSE <<>>)
      \o Flat([i \in 1..cf.n |-> one(i)])
=============================================================================
