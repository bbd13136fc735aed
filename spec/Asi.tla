-------------------------------- MODULE Asi ---------------------------------
(* Audio scene information (mae_AudioSceneInfo), earcon and PCM signalling packets of ISO/IEC 23008-3.
   Grammar of each, with the limits this decoder supports.  x of the reader state is a record:
     grp   the group definitions seen, as <<id, allowGain, allowPos>>
     ng    number of groups, np number of presets, nc conditions per preset
     seen  data types already present
     on    default state of each group, mem  its members; pre  the presets: <<id, conditions <<group, on>>>>
     free  generation: the members still to be given to a group, if the scene is to have each in one group;
           t  generation: only what decides about groups, left  groups to be defined
     c     scratch                                                                                          *)
EXTENDS Bits, FiniteSets


X0 == [grp |-> <<>>, ids |-> {}, ng |-> 0, ns |-> 0, np |-> 0, nc |-> <<>>, seen |-> {}, c |-> 0, k |-> 0, w |-> 0,
       on |-> <<>>, mem |-> <<>>, pre |-> <<>>, free |-> {}, t |-> FALSE, left |-> 0]

MaxGroups == 16  MaxSwitch == 8  MaxPresets == 8  MaxLang == 4  MaxDownmixExt == 8

\* the group a 7-bit reference names: <<>> if none, else <<id, allowGain, allowPos>>
Ref(s, id) == LET m == {i \in 1..Len(s.x.grp) : s.x.grp[i][1] = id} IN IF m = {} THEN <<>> ELSE s.x.grp[CHOOSE i \in m : TRUE]

\* an identifier that must differ from the earlier ones of its kind
Id2(s, n, S) ==
  LET t == RIn(s, n, S \ s.x.ids) IN
  IF t.e # "ok" THEN t ELSE IF t.v \in s.x.ids THEN Fail(t, "IA_MPEGH_DEC_INIT_FATAL_INVALID_GRP_ID")
  ELSE [t EXCEPT !.x = [@ EXCEPT !.ids = @ \cup {t.v}]]

GroupDef(s, i) ==
  LET a == Id2(s, 7, 0..40)
      id == a.v
      b == R(R(a, 1), 1)
      c == R(b, 1)
      pos == c.v
      d == If(c, pos = 1, LAMBDA t : R(R(R(R(R(R(t, 7), 7), 5), 5), 4), 4))
      e == R(d, 1)
      gain == e.v
      f == If(e, gain = 1, LAMBDA t : R(R(t, 6), 5))
      some == Cardinality(s.x.free) > 0
      m == RdIn(f, 7, IF some THEN 0..(Cardinality(s.x.free) - 1 - (s.x.left - i)) ELSE 0..5)
      n == m.v + 1
      run == {q \in s.x.free : \A k \in 0..m.v : q + k \in s.x.free}
      g == RIn(Out(m, n), 1, IF some /\ run = {} THEN {0} ELSE {0, 1})
      One(t, k) == LET u == RIn(t, 7, IF some THEN t.x.free \ {t.x.mem[Len(t.x.mem)][q] : q \in 1..(k - 1)} ELSE 0..127) IN
                   IF u.e # "ok" THEN u ELSE [u EXCEPT !.x.mem[Len(u.x.mem)] = Append(@, u.v)]
      g1 == [g EXCEPT !.x.mem = Append(@, <<>>), !.x.on = Append(@, b.v)]
      st == RIn(g1, 7, IF some THEN run ELSE 0..127)
      h == IF g.e = "ok" /\ g.v = 1 THEN [st EXCEPT !.x.mem[Len(st.x.mem)] = [k \in 1..n |-> st.v + k - 1]] ELSE Times(g1, n, One)
  IN  IF h.e # "ok" THEN h ELSE [h EXCEPT !.x.grp = Append(@, <<id, gain, pos>>), !.x.free = @ \ {h.x.mem[Len(h.x.mem)][k] : k \in 1..n}]

SwitchDef(s, i) ==
  LET a == Id2(s, 5, 0..31)
      b == R(a, 1)
      c == If(b, b.v = 1, LAMBDA t : R(t, 1))
      d == RdIn(c, 5, 0..3)
      n == d.v + 1
  IN  R(Times(Out(d, n), n, LAMBDA t, k : R(t, 7)), 7)

PFail == "IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_CONFIG_FAIL"
XFail == "IA_MPEGH_DEC_INIT_FATAL_ASI_PRESET_GRP_DEF_EXT_CONFIG_FAIL"
GroupIds(s) == IF Len(s.x.grp) = 0 THEN {0} ELSE {s.x.grp[i][1] : i \in 1..Len(s.x.grp)}

Condition(s, k) ==
  LET a == RIn(s, 7, GroupIds(s))
      r == Ref(a, a.v)
      ng == r # <<>> /\ r[2] = 0        \* gain may not be preset
      npos == r # <<>> /\ r[3] = 0
      b0 == R(a, 1)
      b == IF b0.e # "ok" THEN b0 ELSE [b0 EXCEPT !.x.pre[Len(b0.x.pre)] = <<@[1], Append(@[2], <<a.v, b0.v>>)>>]
      On(t) ==
        LET c == R(R(t, 1), 1)
            d == If(IF ng /\ c.g THEN c ELSE c, c.v = 1, LAMBDA u : R(u, 8))
            e == IF c.v = 1 /\ ng THEN Fail(d, PFail) ELSE d
            f == R(R(e, 1), 1)
            h == If(f, f.v = 1, LAMBDA u : R(R(R(u, 8), 6), 4))
        IN  IF f.e = "ok" /\ f.v = 1 /\ npos THEN Fail(h, PFail) ELSE h
  IN  If(b, b.v = 1, On)

PresetDef(s, i) ==
  LET id == Id2(s, 5, IF s.x.t THEN 0..3 ELSE 0..31)
      a == R(id, 5)
      b == RdIn(a, 4, 0..3)
      n == b.v + 1
      c == Times([Out(b, n) EXCEPT !.x.pre = Append(@, <<id.v, <<>>>>)], n, Condition)
  IN  IF c.e # "ok" THEN c ELSE [c EXCEPT !.x.nc = Append(@, n)]

\* data sets
Description(s, w) ==
  LET a == RdIn(s, 7, 0..2)
      n == a.v + 1
      Lang(t, k) == LET l == R2(t, 24) d == RdIn(l, 8, {0, 1, 3, 255}) m == d.v + 1 IN Times(Out(d, m), m, LAMBDA u, j : R(u, 8))
      Block(t, k) ==
        LET b == R(t, w) c == RdIn(b, 4, 0..3) m == c.v + 1 IN
        IF c.e = "ok" /\ m > MaxLang THEN Fail(c, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_DESCRIPTION_LANGUAGES")
        ELSE Times(Out(c, m), m, Lang)
  IN  Times(Out(a, n), n, Block)

Content(s) ==
  LET a == RIn(s, 7, 0..3)
      Block(t, k) == LET b == R(R(R(t, 7), 4), 1) IN If(b, b.v = 1, LAMBDA u : R2(u, 24))
  IN  Times(a, a.v + 1, Block)

Composite(s) == LET a == RIn(s, 7, 0..3) IN Times(a, a.v, LAMBDA t, k : R(R(t, 7), 7))

Screen(s) == LET a == R(s, 1) IN If(a, a.v = 1, LAMBDA t : R(R(R(t, 9), 9), 9))

ScreenExt(s) ==
  LET a == R(s, 1)
      b == If(a, a.v = 1, LAMBDA t : R(R(t, 10), 10))
      c == RIn(b, 5, 0..3)
      P(t, k) ==
        LET d == R(R(t, 5), 1)
            Size(u) == LET f == R(u, 1) IN
                       IF f.e # "ok" THEN f
                       ELSE R(R(IF f.v = 1 THEN R(f, 9) ELSE R(R(f, 10), 10), 9), 9)
        IN  If(d, d.v = 1, Size)
  IN  Times(c, c.v, P)

DrcUi(s) ==
  LET a == RIn(s, 2, {0})
      Conds(t) == LET b == R(t, 3) IN Times(b, b.v, LAMBDA u, k : R(Skip(R(u, 6), 8), 8))
  IN  If(a, a.v = 0, Conds)

LoudComp(s) ==
  LET ng == s.x.ng
      MinMax(t) == LET b == R(t, 1) IN If(b, b.v = 1, LAMBDA u : R(R(u, 4), 4))
      Params(t) == LET b == R(t, 1) IN If(b, b.v = 1, LAMBDA u : MinMax(Times(u, ng, LAMBDA q, k : R(q, 1))))
      a == R(s, 1)
      b == If(a, a.v = 1, LAMBDA t : Times(t, ng, LAMBDA u, k : R(u, 8)))
  IN  Times(Params(b), s.x.np, LAMBDA t, k : Params(t))

PresetExt(s) ==
  LET Cond(t, k) ==
        LET a == R(t, 1)
            sw == a.v = 1
            b == IF a.e # "ok" THEN a ELSE IF sw THEN R(a, 5) ELSE RIn(a, 7, GroupIds(s))
            r == IF b.e # "ok" \/ sw THEN <<>> ELSE Ref(b, b.v)
            ng == r # <<>> /\ r[2] = 0
            npos == r # <<>> /\ r[3] = 0
            c == R(b, 1)
            On(u) ==
              LET d == RIn(u, 1, IF ng THEN {1} ELSE {0, 1})
                  d1 == IF d.v # 1 /\ ng THEN Fail(d, XFail) ELSE d
                  e == RIn(d1, 1, IF ng THEN {0} ELSE {0, 1})
                  f == If(e, e.v = 1, LAMBDA q : R(q, 8))
                  f1 == IF e.e = "ok" /\ e.v = 1 /\ ng THEN Fail(f, XFail) ELSE f
                  h == RIn(f1, 1, IF npos THEN {1} ELSE {0, 1})
                  h1 == IF h.e = "ok" /\ h.v # 1 /\ npos THEN Fail(h, XFail) ELSE h
                  i == RIn(h1, 1, IF npos THEN {0} ELSE {0, 1})
                  j == If(i, i.v = 1, LAMBDA q : R(R(R(q, 8), 6), 4))
              IN  IF i.e = "ok" /\ i.v = 1 /\ npos THEN Fail(j, XFail) ELSE j
        IN  If(c, c.v = 1, On)
      Dm(t, k) == LET a == R(t, 7) b == RIn(a, 4, 0..3) IN Times(b, b.v, Cond)
      P(t, k) ==
        LET a == R(t, 1)
            b == IF a.e # "ok" THEN a
                 ELSE IF a.v = 1 THEN Times(a, s.x.nc[k], LAMBDA u, j : R(u, 1))
                 ELSE a
            c == R(b, 1)
            Exts(u) == LET d == RdIn(u, 5, 0..2) n == d.v + 1 IN
                       IF d.e = "ok" /\ n > MaxDownmixExt THEN Fail(d, "IA_MPEGH_DEC_INIT_FATAL_INVALID_NUM_DM_ID_GRP_PR_EXT")
                       ELSE Times(Out(d, n), n, Dm)
        IN  If(c, c.v = 1, Exts)
  IN  Times(s, s.x.np, P)

DataSet(s, i) ==
  LET a == RIn(s, 4, (IF s.x.t THEN {4, 7, 9, 10} ELSE 0..10) \ s.x.seen)
      ty == a.v
      b == RIn(a, 16, {0, 0, 1, 2, 300})
      len == b.v
      start == b.p
      dup == b.e = "ok" /\ ty < 10 /\ ty \in b.x.seen
      c == IF b.e # "ok" THEN b
           ELSE IF dup THEN Fail(b, "IA_MPEGH_DEC_INIT_FATAL_ASI_PARSE_FAIL")
           ELSE LET t == [b EXCEPT !.x.seen = @ \cup {ty}] IN
                CASE ty = 0 -> Description(t, 7)
                  [] ty \in {1, 5} -> Description(t, 5)
                  [] ty = 2 -> Content(t)
                  [] ty = 3 -> Composite(t)
                  [] ty = 4 -> Screen(t)
                  [] ty = 6 -> DrcUi(t)
                  [] ty = 7 -> ScreenExt(t)
                  [] ty = 8 -> PresetExt(t)
                  [] ty = 9 -> LoudComp(t)
                  [] OTHER -> t
  IN  IF c.e # "ok" THEN c ELSE Skip(c, 8 * len - (c.p - start))

Count(s, n, S, max, err) ==
  LET t == RIn(s, n, S) IN IF t.e = "ok" /\ t.v > max THEN Fail(t, err) ELSE t

SceneOf(s0, x0) ==
  LET s == [s0 EXCEPT !.x = x0]
      m == RIn(s, 1, {1})
      Main(t) ==
        LET a == R(t, 1)
            b == If(a, a.v = 1, LAMBDA u : R(u, 8))
            c == Count(b, 7, IF t.x.t THEN {k \in 1..4 : k <= Cardinality(t.x.free)} ELSE 0..4, MaxGroups, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUP")
            ng == c.v
            d == Times([c EXCEPT !.x.left = ng], ng, GroupDef)
            d1 == [d EXCEPT !.x.ids = {}, !.x.ng = ng]
            e == Count(d1, 5, 0..2, MaxSwitch, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_SWITCH_GROUPS")
            f == Times(e, e.v, SwitchDef)
            f1 == [f EXCEPT !.x.ids = {}, !.x.ns = e.v]
            g == Count(f1, 5, 0..3, MaxPresets, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_ASI_NUM_GROUPS_PRESETS")
            h == Times(g, g.v, PresetDef)
            h1 == [h EXCEPT !.x.np = g.v]
            i == RIn(h1, 4, IF h1.x.t THEN {0, 0, 1, 2} ELSE 0..4)
            j == Times(i, i.v, DataSet)
        IN  R(j, 7)
      Aux(t) == LET a == Rd(t, 7) IN R([Out(a, a.v + 1) EXCEPT !.x.ng = -1], 7)
  IN  IF m.e # "ok" THEN m ELSE IF m.v = 1 THEN Main(m) ELSE Aux(m)
Scene(s) == SceneOf(s, X0)

-----------------------------------------------------------------------------
\* earcons
Earcons(s) ==
  LET a == RdIn(s, 7, 0..3)
      Lang(t, k) == LET b == RIn(R2(t, 24), 8, {0, 1, 4, 255}) IN Times(b, b.v, LAMBDA u, j : R(u, 8))
      One(t, k) ==
        LET b == R(R(R(R(t, 1), 7), 4), 1)
            c == R(b, 2)
            d == IF c.e # "ok" THEN c
                 ELSE CASE c.v = 0 -> R(c, 7)
                        [] c.v = 1 -> R(R(R(c, 8), 6), 9)
                        [] OTHER -> OutAll(c, <<0, 0, 177>>)
            e == Rd(d, 1)
            f == If(e, e.v = 1, LAMBDA u : R(u, 7))
            g == Rd(f, 1)
            h == IF g.e # "ok" THEN g ELSE IF g.v = 1 THEN RIn(g, 4, 0..2) ELSE Out(g, 0)
            n == IF g.v = 1 THEN h.v ELSE 0
        IN  IF h.e # "ok" THEN h ELSE Times(h, n, Lang)
  IN  IF a.e # "ok" THEN a
      ELSE IF a.v >= 16 THEN Fail(a, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_EARCONS")
      ELSE Times(Out(a, a.v), a.v + 1, One)

\* PCM signal configuration; the observed rate is the one in force
Rates == [i \in 0..31 |-> CASE i = 3 -> 48000 [] i = 4 -> 44100 [] i = 5 -> 32000 [] i = 6 -> 24000 [] i = 7 -> 22050
                            [] i = 8 -> 16000 [] i = 9 -> 14700 [] i = 10 -> 29400 [] OTHER -> 0]
PcmConfig(s) ==
  LET a == R(s, 7)
      n == a.v + 1
      b == R(R(a, 1), 5)
      c == IF b.e # "ok" THEN b ELSE IF b.v = 31 THEN R2(b, 24) ELSE OutAll(b, <<Rates[b.v] \div 65536, Rates[b.v] % 65536>>)
      d == RIn(c, 3, 0..2)
      bps == d.v
      e == R(Out(d, IF bps < 3 THEN 16 + 8 * bps ELSE 0), 3)
      fsz == e.v
      f == If(e, fsz = 5, LAMBDA t : R(t, 16))
      g == R(Times(f, n, LAMBDA t, k : R(t, 7)), 8)
      h == R(g, 2)
  IN  IF d.e # "ok" \/ bps > 2 THEN d ELSE If(h, h.v = 1, LAMBDA t : R(t, 8))

\* PCM data under a configuration <<bits per sample, frame size index, fixed size, attenuation mode>>
FrameSizes == <<0, 768, 1024, 2048, 4096>>
AnyValue == -77777777
SignExt(v, n) == IF v >= Pow2[n - 1] THEN v - Pow2[n] ELSE v
PcmSample(s, bits) ==
  CASE bits = 16 -> LET t == Rd(s, 16) IN Out(t, SignExt(t.v, 16))
    [] bits = 24 -> LET t == Rd(s, 24) IN Out(t, SignExt(t.v, 24))
    [] OTHER -> LET t == Rd(s, 16) h == SignExt(t.v, 16) u == RdIn(t, 16, {0, 256, 65280}) IN
                IF u.e # "ok" THEN u ELSE Out(u, IF u.v \in 512..65000 THEN h ELSE AnyValue)
PcmData(s, cfg) ==
  LET a == RIn(s, 7, 0..3)
      n == a.v + 1
      b == IF a.e = "ok" /\ a.v > 23 THEN Fail(a, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_NUM_PCM_SIG")
           ELSE Times(a, n, LAMBDA t, k : R(t, 7))
      c == If(b, cfg[4] = 2, LAMBDA t : R(t, 8))
      d == If(c, cfg[2] = 6, LAMBDA t : RIn(t, 16, 0..6))
      size == CASE cfg[2] = 5 -> cfg[3] [] cfg[2] = 6 -> d.v [] cfg[2] = 7 -> 0 [] OTHER -> FrameSizes[cfg[2] + 1]
      toobig == cfg[2] = 7 \/ size > 1024
  IN  IF d.e # "ok" THEN d
      ELSE IF toobig THEN Fail(d, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_FRAME_LENGTH")
      ELSE Times(Out(d, size), size * n, LAMBDA t, k : PcmSample(t, cfg[1]))
=============================================================================
