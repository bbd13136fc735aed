------------------------------ MODULE DrcApply ------------------------------
(* What the gains of the DRC sets in use do to the audio (ISO/IEC 23003-4, 6.4): every set gives every channel a gain
   curve, straight in linear gain between the nodes sent; a channel is multiplied by those of all sets.
   Gains in decibels are in 1/64, linear ones <<mantissa of 15 bits, exponent>>.                                *)
EXTENDS DrcSelect

\* 2^14 * 2^(k/384)
Mantissa == <<
  16384, 16414, 16443, 16473, 16503, 16533, 16562, 16592, 16622, 16652, 16682, 16713, 16743, 16773, 16803, 16834, 16864, 16895, 16925, 16956, 16986, 17017, 17048, 17079,
  17109, 17140, 17171, 17202, 17233, 17264, 17296, 17327, 17358, 17390, 17421, 17452, 17484, 17516, 17547, 17579, 17611, 17643, 17674, 17706, 17738, 17770, 17802, 17835,
  17867, 17899, 17931, 17964, 17996, 18029, 18061, 18094, 18127, 18160, 18192, 18225, 18258, 18291, 18324, 18357, 18390, 18424, 18457, 18490, 18524, 18557, 18591, 18624,
  18658, 18692, 18725, 18759, 18793, 18827, 18861, 18895, 18929, 18963, 18998, 19032, 19066, 19101, 19135, 19170, 19205, 19239, 19274, 19309, 19344, 19379, 19414, 19449,
  19484, 19519, 19554, 19590, 19625, 19661, 19696, 19732, 19767, 19803, 19839, 19875, 19911, 19947, 19983, 20019, 20055, 20091, 20127, 20164, 20200, 20237, 20273, 20310,
  20347, 20383, 20420, 20457, 20494, 20531, 20568, 20605, 20643, 20680, 20717, 20755, 20792, 20830, 20867, 20905, 20943, 20981, 21019, 21057, 21095, 21133, 21171, 21209,
  21247, 21286, 21324, 21363, 21401, 21440, 21479, 21518, 21556, 21595, 21634, 21674, 21713, 21752, 21791, 21831, 21870, 21910, 21949, 21989, 22028, 22068, 22108, 22148,
  22188, 22228, 22268, 22309, 22349, 22389, 22430, 22470, 22511, 22552, 22592, 22633, 22674, 22715, 22756, 22797, 22838, 22880, 22921, 22962, 23004, 23045, 23087, 23129,
  23170, 23212, 23254, 23296, 23338, 23381, 23423, 23465, 23507, 23550, 23593, 23635, 23678, 23721, 23763, 23806, 23849, 23893, 23936, 23979, 24022, 24066, 24109, 24153,
  24196, 24240, 24284, 24328, 24372, 24416, 24460, 24504, 24548, 24593, 24637, 24682, 24726, 24771, 24816, 24860, 24905, 24950, 24995, 25041, 25086, 25131, 25177, 25222,
  25268, 25313, 25359, 25405, 25451, 25497, 25543, 25589, 25635, 25681, 25728, 25774, 25821, 25868, 25914, 25961, 26008, 26055, 26102, 26149, 26196, 26244, 26291, 26339,
  26386, 26434, 26482, 26530, 26577, 26625, 26674, 26722, 26770, 26818, 26867, 26915, 26964, 27013, 27062, 27110, 27159, 27209, 27258, 27307, 27356, 27406, 27455, 27505,
  27554, 27604, 27654, 27704, 27754, 27804, 27855, 27905, 27955, 28006, 28056, 28107, 28158, 28209, 28260, 28311, 28362, 28413, 28464, 28516, 28567, 28619, 28671, 28723,
  28774, 28826, 28879, 28931, 28983, 29035, 29088, 29140, 29193, 29246, 29299, 29351, 29405, 29458, 29511, 29564, 29618, 29671, 29725, 29778, 29832, 29886, 29940, 29994,
  30048, 30103, 30157, 30212, 30266, 30321, 30376, 30430, 30485, 30541, 30596, 30651, 30706, 30762, 30817, 30873, 30929, 30985, 31041, 31097, 31153, 31209, 31266, 31322,
  31379, 31435, 31492, 31549, 31606, 31663, 31720, 31778, 31835, 31893, 31950, 32008, 32066, 32124, 32182, 32240, 32298, 32357, 32415, 32474, 32532, 32591, 32650, 32709>>
Norm(m, e) == IF m >= 32768 THEN LET k == CHOOSE j \in 1..16 : m \div Pow2[j] < 32768 /\ m \div Pow2[j] >= 16384 IN <<m \div Pow2[k], e + k>> ELSE <<m, e>>
Lin(u) == <<Mantissa[(u % 384) + 1], (u - (u % 384)) \div 384 - 14>>
Times2(a, b) == Norm(a[1] * b[1], a[2] + b[2])
\* in 1/2^20, when that can be had
Fits(a) == a[2] + 20 <= 12 /\ a[2] + 20 >= -14
Fixed(a) == LET k == a[2] + 20 IN IF k >= 0 THEN a[1] * Pow2[k] ELSE a[1] \div Pow2[-k]

\* evaluated once and for all
Each(n, F(_)) == FoldLeft(LAMBDA q, k : Append(q, F(k)), <<>>, [k \in 1..n |-> k])
\* nodes <<time, gain in 1/8 dB>> of each gain set of a payload that was read, <<>> where there are several bands
Nodes(o, sets) ==
  FoldLeft(LAMBDA r, k :
      LET m == o[r.p + 1]
      IN  [p |-> r.p + 2 + 3 * m - 1 + 1, q |-> Append(r.q, [h \in 1..m |-> <<o[r.p + 3 * h - 1], o[r.p + 3 * h]>>])],
    [p |-> 1, q |-> <<>>], [k \in 1..Len(sets) |-> k]).q

\* gain in 1/64 dB of a node for one channel group: amplification or attenuation, ducking, offset
Level(g, i, mo, ds, ln) ==
  LET r == IF g >= 0 THEN mo[2] ELSE mo[1]
      u == (g * r * ds) \div 8 + 16 * mo[3]
      clip == i.eff = Clip /\ i.lim # <<>>
      v == IF clip THEN u + 2 * Big(0, -i.lim[1] - ln) ELSE u
  IN  IF clip /\ v >= 0 THEN 0 ELSE v
\* what an instruction has for a channel: <<gain set, modifiers, ducking scale>>, <<>> if it leaves it alone
ForChannel(i, c) ==
  LET one == Len(i.gi) = 1
      g == IF one THEN i.gi[1] ELSE i.gi[c]
      order == FoldLeft(LAMBDA q, h : IF i.gi[h] < 0 \/ \E k \in 1..Len(q) : q[k] = i.gi[h] THEN q ELSE Append(q, i.gi[h]), <<>>, [h \in 1..Len(i.gi) |-> h])
      other == BitSet(i.eff, 10)  self == BitSet(i.eff, 11)
      src == CHOOSE x \in {i.gi[h] : h \in 1..Len(i.gi)} : x >= 0
  IN  IF other THEN (IF g >= 0 THEN <<>> ELSE <<src, <<8, 8, 0>>, i.ds[c]>>)
      ELSE IF g < 0 THEN <<>>
      ELSE IF self THEN <<g, <<8, 8, 0>>, i.ds[c]>>
      ELSE <<g, i.mo[At(order, LAMBDA x : x = g)], 8>>
\* the last node not after T; the first if there is none
RECURSIVE Place_(_, _, _, _)
Place_(q, T, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF q[m][1] <= T THEN Place_(q, T, m, hi) ELSE Place_(q, T, lo, m - 1)
\* curve at a time: nodes in order of time; <<>> if it is not known there
Curve(q, T, L(_)) ==
  LET k == Place_(q, T, 1, Len(q))
      a == Lin(L(q[k][2]))  b == Lin(L(q[k + 1][2]))
      d == q[k + 1][1] - q[k][1]  x == T - q[k][1]
      z == Fixed(b) - Fixed(a)
      s == IF z < 0 THEN -1 ELSE 1
      v == Fixed(a) + s * (((s * z) \div d) * x + (((s * z) % d) * x) \div d)
  IN  IF q = <<>> \/ q[1][1] > T \/ k = Len(q) \/ ~Fits(a) \/ ~Fits(b) THEN <<>> ELSE IF v < 32768 THEN <<>> ELSE Norm(v, -20)
=============================================================================
