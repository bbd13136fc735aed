------------------------------- MODULE Layouts ------------------------------
(* Loudspeaker indices and channel configurations of ISO/IEC 23091-3, as used by ISO/IEC 23008-3. *)
EXTENDS Integers, Sequences
MaxLayout == 20
MaxSpk == 42
\* loudspeaker index 0..42 -> <<azimuth, elevation, is LFE>>
SpkGeo == <<
  <<30, 0, 0>>, <<-30, 0, 0>>, <<0, 0, 0>>, <<0, 0, 1>>, <<110, 0, 0>>, <<-110, 0, 0>>, <<22, 0, 0>>, <<-22, 0, 0>>,
  <<135, 0, 0>>, <<-135, 0, 0>>, <<180, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>, <<90, 0, 0>>, <<-90, 0, 0>>, <<60, 0, 0>>,
  <<-60, 0, 0>>, <<30, 35, 0>>, <<-30, 35, 0>>, <<0, 35, 0>>, <<135, 35, 0>>, <<-135, 35, 0>>, <<180, 35, 0>>, <<90, 35, 0>>,
  <<-90, 35, 0>>, <<0, 90, 0>>, <<45, -15, 1>>, <<45, -15, 0>>, <<-45, -15, 0>>, <<0, -15, 0>>, <<110, 35, 0>>, <<-110, 35, 0>>,
  <<45, 35, 0>>, <<-45, 35, 0>>, <<45, 0, 0>>, <<-45, 0, 0>>, <<-45, -15, 1>>, <<60, 0, 0>>, <<-60, 0, 0>>, <<30, 0, 0>>,
  <<-30, 0, 0>>, <<150, 0, 0>>, <<-150, 0, 0>> >>
Spk(i) == SpkGeo[i + 1]
\* channel configuration 1..20 -> loudspeaker indices in channel order (0 and 8: not a loudspeaker layout)
LayoutTable == <<
  <<2>>, <<0, 1>>, <<0, 1, 2>>, <<0, 1, 2, 10>>, <<0, 1, 2, 4, 5>>, <<0, 1, 2, 3, 4, 5>>, <<0, 1, 2, 3, 4, 5, 15, 16>>, <<>>,
  <<0, 1, 10>>, <<0, 1, 4, 5>>, <<0, 1, 2, 3, 4, 5, 10>>, <<0, 1, 2, 3, 4, 5, 8, 9>>,
  <<15, 16, 2, 26, 8, 9, 0, 1, 10, 36, 13, 14, 32, 33, 19, 25, 20, 21, 23, 24, 22, 29, 27, 28>>,
  <<0, 1, 2, 3, 4, 5, 17, 18>>, <<0, 1, 2, 26, 8, 9, 36, 13, 14, 32, 33, 22>>, <<0, 1, 2, 3, 4, 5, 17, 18, 30, 31>>,
  <<0, 1, 2, 3, 4, 5, 17, 18, 19, 30, 31, 25>>, <<0, 1, 2, 3, 4, 5, 41, 42, 17, 18, 19, 30, 31, 25>>,
  <<0, 1, 2, 3, 8, 9, 13, 14, 17, 18, 20, 21>>, <<0, 1, 2, 3, 8, 9, 13, 14, 32, 33, 20, 21, 37, 38>> >>
IsLayout(i) == i \in 1..MaxLayout /\ i # 8
Layout(i) == IF IsLayout(i) THEN LayoutTable[i] ELSE <<>>
NumLs(i) == Len(Layout(i))
=============================================================================
