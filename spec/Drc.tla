--------------------------------- MODULE Drc ---------------------------------
(* Dynamic range control side data: static configuration (mpegh3daUniDrcConfig), loudness information
   (mpegh3daLoudnessInfoSet) and gain payloads (uniDrcGain), within the limits of the low complexity profile.
   x of the reader state: any - the outcome is not fixed;  bad - refused once all is read;
   co - the coefficients, [loc, sets], a set being [prof, full, al, bands];  gi - gain set index per channel;
   gr - channel groups;  ds - ducking scale per channel;  ins, li - instructions and loudness for DrcSelect      *)
EXTENDS Bits

DX0 == [bad |-> FALSE, co |-> <<>>, gi |-> <<>>, ds |-> <<>>, sq |-> 0, c |-> <<>>, ins |-> <<>>, li |-> <<>>, me |-> <<>>, t |-> FALSE, one |-> FALSE, mo |-> <<>>, bc |-> 0]
\* with t a generator keeps to values for which sets, requests and loudness meet often
Tight(s, T, E) == IF s.x.t THEN T ELSE E
\* with one, to single bands and to one location of gains
Single(s, T, E) == IF s.x.one THEN T ELSE E
\* what selection has to know of an instruction, and of a loudness information (peaks and values in 1/32 dB)
\* and what applying its gains needs: gain set, ducking scale per channel, modifiers per group
Keep(s, r) == IF s.e = "ok" THEN [s EXCEPT !.x.ins = Append(@, r @@ [gi |-> s.x.gi, ds |-> s.x.ds, mo |-> s.x.mo])] ELSE s
Refuse(s) == Fail(s, "reject")
Sure(s, c) == IF s.e = "ok" /\ ~c THEN Refuse(s) ELSE s
\* limits: a generator goes on as if there were none, so that what must be refused is otherwise complete
Limit(s, c) == IF s.g THEN s ELSE Sure(s, c)
\* now and then a value near a limit
Often(S, E) == IF RandomElement(1..12) = 1 THEN E ELSE S

-----------------------------------------------------------------------------
(* Extensions of the three: a list of <type, length, data> ended by type 0.  At most one is supported. *)
Extension(s, lenbits, late) ==
  LET a == RIn(s, 4, {0, 1, 2})
      l == RdIn(a, lenbits, {0, 1})
      n == Rd(l, IF l.e = "ok" THEN l.v + 4 ELSE 0)
      d == Out(n, n.v + 1)
      u == RdIn(Skip(d, n.v + 1), 4, {0})
      \* a second one
      l2 == Rd(u, lenbits)
      n2 == Rd(l2, IF l2.e = "ok" THEN l2.v + 4 ELSE 0)
  IN  IF a.e # "ok" \/ a.v = 0 THEN a
      ELSE IF u.e # "ok" \/ u.v = 0 THEN u
      ELSE IF late THEN Refuse(n2) ELSE Refuse(u)

-----------------------------------------------------------------------------
\* Coefficients
GainBand(s, i) ==
  LET t == [s EXCEPT !.x.sq = @ + 1]
      u == Limit(t, t.x.sq <= 24)
  IN  R(Out(u, u.x.sq - 1), 7)
GainSet(s0, k) ==
  LET s == s0
      p == RIn(s, 2, IF k > 4 THEN {3} ELSE 0..3)
      ip == RdIn(p, 1, {1})
      ff == R(ip, 1)
      al == R(ff, 1)
      dm == RdIn(al, 1, {0})
      dv == IF dm.e = "ok" /\ dm.v = 1 THEN Rd(dm, 11) ELSE dm
      bc == IF dv.e = "ok" /\ p.v # 3 THEN RIn(dv, 4, Single(s, {1}, {1, 1, 1, 2, 3, 4, 0})) ELSE Out(dv, 1)
      b1 == IF p.v = 3 THEN bc ELSE Limit(bc, bc.v <= 4)
      n == IF p.v = 3 THEN 1 ELSE bc.v
      ty == IF b1.e = "ok" /\ p.v # 3 /\ n > 1 THEN R(b1, 1) ELSE [b1 EXCEPT !.v = 0]
      bd == IF p.v = 3 THEN (IF ty.e = "ok" THEN [ty EXCEPT !.x.sq = @ + 1] ELSE ty) ELSE Times(ty, n, GainBand)
      st == IF p.v = 3 THEN bd ELSE Times(bd, n - 1, LAMBDA t, i : R(t, IF ty.v = 0 THEN 10 ELSE 4))
      en == Limit(st, dm.v = 0 /\ ip.v = 1)
  IN  IF en.e # "ok" THEN en
      ELSE [en EXCEPT !.x.c = Append(@, [prof |-> p.v, full |-> ff.v, al |-> al.v, bands |-> n])]
Coefficients(s, k) ==
  LET used == {s.x.co[i].loc : i \in 1..Len(s.x.co)}
      l == RIn(s, 4, Single(s, {1}, {1, 2, 3, 4, 5} \ used))
      fp == RdIn(l, 1, {0})
      f1 == Limit(fp, fp.v = 0)
      n == RIn(f1, 6, Single(s, 1..4, Often({0, 1, 2, 3, 4, 5, 6}, {23, 24, 25, 30})))
      n1 == Limit(n, n.v <= 24)
      g == Times([n1 EXCEPT !.x.c = <<>>, !.x.sq = 0], n.v, GainSet)
      z == IF g.e # "ok" THEN g ELSE [g EXCEPT !.x.co = Append(@, [loc |-> l.v, sets |-> g.x.c])]
  \* which of two for the same location counts is not settled
  IN  IF l.e = "ok" /\ l.v \in used THEN [l EXCEPT !.e = "any"] ELSE z

-----------------------------------------------------------------------------
\* Instructions
Locations(s) == {s.x.co[i].loc : i \in 1..Len(s.x.co)}
SetsAt(s, loc) == s.x.co[CHOOSE i \in 1..Len(s.x.co) : s.x.co[i].loc = loc].sets
BitSet(v, k) == (v \div Pow2[k]) % 2 = 1

\* one entry of the gain set list, and its repetitions
More(t, n) == [t EXCEPT !.x.gi = @ \o [i \in 1..n |-> t.x.gi[Len(t.x.gi)]], !.x.ds = @ \o [i \in 1..n |-> t.x.ds[Len(t.x.ds)]]]
ChannelGain(t, cnt, S) ==
  LET a == RdIn(t, 6, S)
      rp == RdIn(a, 1, IF cnt - Len(t.x.gi) < 2 THEN {0} ELSE {0, 1})
      b == Limit(rp, a.v <= 24)
      n == IF b.e = "ok" /\ rp.v = 1 THEN RdIn(b, 5, 0..(cnt - Len(t.x.gi) - 2)) ELSE [b EXCEPT !.v = -1]
      c == Limit(n, Len(t.x.gi) + 1 + (n.v + 1) <= 16)
      q == [c EXCEPT !.x.gi = Append(@, a.v - 1), !.x.ds = Append(@, 8)]
  IN  IF c.e # "ok" THEN c ELSE More(q, n.v + 1)
DuckGain(t, cnt, S) ==
  LET a == RdIn(t, 6, S)
      b == Limit(a, a.v <= 24)
      f == Rd(b, 1)
      m == IF f.e = "ok" /\ f.v = 1 THEN RdIn(f, 4, {0, 3, 8, 12}) ELSE [f EXCEPT !.v = -1]
      sc == IF m.v = -1 THEN 8 ELSE IF m.v >= 8 THEN 8 - (m.v - 8 + 1) ELSE 8 + m.v + 1
      rp == RdIn(m, 1, IF cnt - Len(t.x.gi) < 2 THEN {0} ELSE {0, 1})
      n == IF rp.e = "ok" /\ rp.v = 1 THEN RdIn(rp, 5, 0..(cnt - Len(t.x.gi) - 2)) ELSE [rp EXCEPT !.v = -1]
      c == Limit(n, Len(t.x.gi) + 1 + (n.v + 1) <= 16)
      q == [c EXCEPT !.x.gi = Append(@, a.v - 1), !.x.ds = Append(@, sc)]
  IN  IF c.e # "ok" THEN c ELSE More(q, n.v + 1)
PerChannel(s, cnt, S, duck) ==
  LET t == Times([s EXCEPT !.x.gi = <<>>, !.x.ds = <<>>, !.x.mo = <<>>], cnt,
                 LAMBDA u, i : IF Len(u.x.gi) >= cnt THEN u ELSE IF duck THEN DuckGain(u, cnt, S) ELSE ChannelGain(u, cnt, S))
  IN  Limit(t, Len(t.x.gi) <= cnt)

\* distinct values of Key(channel) in channel order, over the channels with In
Distinct(n, In(_), Key(_)) == FoldLeft(LAMBDA q, c : IF In(c) /\ Key(c) \notin ToSet(q) THEN Append(q, Key(c)) ELSE q, <<>>, [c \in 1..n |-> c])
Place(q, v) == CHOOSE i \in 1..Len(q) : q[i] = v

Modifiers(s, bands) ==
  LET f == Rd(s, 1)
      a == IF f.e = "ok" /\ f.v = 1 THEN Rd(f, 4) ELSE [f EXCEPT !.v = 8]
      m == IF f.e = "ok" /\ f.v = 1 THEN Rd(a, 4) ELSE [a EXCEPT !.v = 8]
      o == Rd(m, 1)
      x == IF o.e = "ok" /\ o.v = 1 THEN Rd(o, 6) ELSE [o EXCEPT !.v = -1]
      off == IF x.v = -1 THEN 0 ELSE (1 + (x.v % 32)) * (IF x.v >= 32 THEN -1 ELSE 1)
      y == IF x.e = "ok" THEN [x EXCEPT !.x.mo = Append(@, <<a.v, m.v, off>>)] ELSE x
  IN  OutAll(y, FoldLeft(LAMBDA q, i : q \o <<f.v, a.v, m.v, o.v, off>>, <<>>, [i \in 1..bands |-> i]))

\* what follows for each group from the coefficients
Derived(s, sets, g, dt) ==
  IF s.e # "ok" THEN s
  ELSE IF g >= Len(sets) THEN [s EXCEPT !.x.bad = TRUE]
  ELSE OutAll(s, <<1, dt, sets[g + 1].al>>)
Bands(sets, g) == IF g < Len(sets) THEN sets[g + 1].bands ELSE 1

Groups(s, cnt, sets, dm0, single, dt) ==
  LET n == IF single THEN 1 ELSE cnt
      gi == s.x.gi
      gr == Distinct(n, LAMBDA c : gi[c] >= 0, LAMBDA c : gi[c])
      a == OutAll(s, gi)
      b == IF single THEN a ELSE OutAll(a, [c \in 1..n |-> IF gi[c] < 0 THEN -1 ELSE Place(gr, gi[c]) - 1])
      m == Times(Out(b, Len(gr)), Len(gr), LAMBDA t, i : Modifiers(Out(t, gr[i]), Bands(sets, gr[i])))
      d == Times(m, Len(gr), LAMBDA t, i : Derived(IF gr[i] < Len(sets) THEN Out(t, Bands(sets, gr[i])) ELSE t, sets, gr[i], dt))
      e == Out(d, FoldLeft(LAMBDA k, g : k + Bands(sets, g), 0, gr))
  IN  IF s.e # "ok" THEN s ELSE Sure(e, dm0 \/ Len(gr) = 1)
DuckGroups(s, cnt, sets, dm0, self, dt) ==
  LET gi == s.x.gi ds == s.x.ds
      of == {gi[c] : c \in 1..cnt} \ {-1}
      gr == IF self THEN Distinct(cnt, LAMBDA c : gi[c] >= 0, LAMBDA c : <<gi[c], ds[c]>>)
            ELSE Distinct(cnt, LAMBDA c : gi[c] < 0, LAMBDA c : <<CHOOSE g \in of : TRUE, ds[c]>>)
      ok == self \/ Cardinality(of) = 1
      key(c) == IF self THEN <<gi[c], ds[c]>> ELSE <<CHOOSE g \in of : TRUE, ds[c]>>
      in(c) == IF self THEN gi[c] >= 0 ELSE gi[c] < 0
      a == OutAll(OutAll(s, gi), [c \in 1..cnt |-> IF in(c) THEN Place(gr, key(c)) - 1 ELSE -1])
      b == Times(Out(a, Len(gr)), Len(gr), LAMBDA t, i : OutAll(t, <<gr[i][1], IF gr[i][2] = 8 THEN 0 ELSE 1, gr[i][2]>>))
      d == Times(b, Len(gr), LAMBDA t, i : Derived(IF gr[i][1] < Len(sets) THEN Out(t, 1) ELSE t, sets, gr[i][1], dt))
      e == Out(d, Len(gr))
  IN  IF s.e # "ok" THEN s ELSE IF of = {} /\ ~self THEN Refuse(s) ELSE Sure(Limit(e, ok), dm0 \/ Len(gr) = 1)

Instruction(s, base, dms, dt) ==
  LET t0 == Rd(s, 1)
      t1 == IF t0.e = "ok" /\ t0.v = 1 THEN LET u == Rd(t0, 1) IN Out([u EXCEPT !.v = @ + 2], u.v + 2) ELSE Out(t0, 0)
      ty == IF t1.e # "ok" THEN t1 ELSE IF t0.v = 0 THEN OutAll(t1, <<-1, -1>>) ELSE IF t1.v = 3 THEN RIn(t1, 5, Tight(s, 1..3, 0..31)) ELSE RIn(t1, 7, Tight(s, 1..3, 0..127))
      id == RIn(ty, 6, Tight(s, (1..20) \ {s.x.ins[k].id : k \in 1..Len(s.x.ins)}, 1..8))
      lo == RIn(Limit(id, id.v < 32), 4, Locations(s))
      d0 == RIn(lo, 7, Single(s, {0, 0, 0, 127}, {0, 0, 127} \cup {dms[i][1] : i \in {j \in 1..Len(dms) : dms[j][2] <= 16}}))
      af == RdIn(d0, 1, {0, 0, 0, 1})
      ac == IF af.e = "ok" /\ af.v = 1 THEN R(af, 3) ELSE Out([af EXCEPT !.v = 0], 0)
      ai == Times(ac, ac.v, LAMBDA t, i : RIn(t, 7, Tight(s, {0, 2, 6, 127}, 0..127)))
      ef == RIn(ai, 16, IF s.x.bc > 0 /\ RandomElement(1..4) = 1 THEN {256} ELSE IF d0.v = 0 THEN Tight(s, {0, 1, 2, 3, 4, 5, 8, 16, 32, 32, 33, 36, 64, 128, 131, 256, 256, 1024, 2048}, {1, 2, 64, 1024, 2048})
                        ELSE IF s.x.t /\ d0.v = 127 THEN {1, 2, 32, 33, 4, 256, 512, 545} ELSE Tight(s, {1, 2, 4, 8, 16, 32, 34, 64, 256}, {1, 2, 4, 32, 64}))
      other == BitSet(ef.v, 10)  self == BitSet(ef.v, 11)
      duck == other \/ self
      lp == IF ef.e = "ok" /\ ~duck THEN R(ef, 1) ELSE ef
      lv == IF lp.e = "ok" /\ ~duck /\ lp.v = 1 THEN RIn(lp, 8, Tight(s, 0..60, 0..255)) ELSE lp
      tp == R(lv, 1)
      up == IF tp.e = "ok" /\ tp.v = 1 THEN LET u == RdIn(tp, 6, Tight(s, {23, 32, 39, 40, 43, 47, 48, 51, 52}, 0..63)) IN Out([u EXCEPT !.v = @ - 63], u.v - 63) ELSE Out([tp EXCEPT !.v = 0], 0)
      wp == IF up.e = "ok" /\ tp.v = 1 THEN R(up, 1) ELSE [up EXCEPT !.v = 0]
      wl == IF wp.e = "ok" /\ wp.v = 1 THEN LET u == RdIn(wp, 6, Tight(s, {20, 23, 32, 39, 40, 42, 43, 47}, 0..63)) IN Out([u EXCEPT !.v = @ - 63], u.v - 63) ELSE Out([wp EXCEPT !.v = -63], -63)
      de == RIn(wl, 1, IF d0.v = 0 THEN {0} ELSE {0, 1})
      e1 == Limit(de, ~(d0.v = 0 /\ de.v = 1))
      ni == IF e1.e # "ok" THEN e1 ELSE IF de.v = 1 THEN RIn(e1, 6, Tight(s, 1..(IF s.x.ins = <<>> THEN 2 ELSE Len(s.x.ins)) \cup {s.x.ins[k].id : k \in 1..Len(s.x.ins)}, 0..63)) ELSE RIn(e1, 1, Tight(s, {0, 0, 0, 1}, {0, 1}))
      what == [type |-> IF t0.v = 1 THEN t1.v ELSE 0, mae |-> IF t0.v = 1 THEN ty.v ELSE -1, id |-> id.v,
               dmx |-> <<d0.v>> \o SubSeq(ai.o, Len(ac.o) + 1, Len(ai.o)), eff |-> ef.v,
               lim |-> IF ~duck /\ lp.v = 1 THEN <<-4 * lv.v>> ELSE <<>>, tl |-> IF tp.v = 1 THEN <<up.v, wl.v>> ELSE <<>>,
               dep |-> IF de.v = 1 THEN <<ni.v>> ELSE <<>>, indep |-> de.v = 1 \/ ni.v = 0, apply |-> d0.v # 0]      fo == Sure(ni, lo.v \in Locations(s))
      b1 == Limit(fo, base <= 16)
      sets == SetsAt(s, lo.v)
      m == {i \in 1..Len(dms) : dms[i][1] = d0.v}
      cnt == IF duck THEN base
             ELSE IF d0.v = 127 \/ ac.v > 0 THEN 1
             ELSE IF d0.v = 0 THEN base
             ELSE IF m = {} THEN -1 ELSE dms[CHOOSE i \in m : \A j \in m : i <= j][2]
      c1 == Sure(b1, cnt >= 0 /\ cnt <= 16)
      \* generation: values that make sense
      S == IF Len(sets) = 0 THEN {0} ELSE IF other THEN (IF Len(sets) > 1 /\ RandomElement(1..2) = 1 THEN {0, 1, 2} ELSE {0, 1}) ELSE IF d0.v # 0 THEN {1} ELSE {0} \cup 1..Len(sets)
      ch == PerChannel(c1, cnt, S, duck)
  IN  IF b1.e # "ok" THEN b1
      ELSE IF c1.e # "ok" THEN c1
      ELSE IF ch.e # "ok" THEN ch
      ELSE IF other /\ self THEN [ch EXCEPT !.e = "any"]
      ELSE IF duck THEN Keep(DuckGroups(ch, cnt, sets, d0.v = 0, self, dt), what)
      ELSE Keep(Groups(ch, cnt, sets, d0.v = 0, d0.v = 127 \/ ac.v > 0, dt), what)

\* time resolution at a sampling rate
DeltaTMin(fs) == LET b == (5 * fs + 5000) \div 10000 IN CHOOSE d \in {Pow2[i] : i \in 0..10} : d > b /\ (d = 1 \/ d \div 2 <= b)

DrcConfig2(s, dms, dt) ==
  LET nc == RIn(s, 3, Single(s, {1}, Tight(s, {1, 2}, Often({1, 2, 3}, {0, 4, 5}))))
      ni == RIn(Limit(nc, nc.v <= 4), 6, Tight(s, 1..7, Often(0..5, {30, 31, 32, 33})))
      bc == RIn(Limit(ni, ni.v <= 32), 7, IF s.x.bc > 0 THEN {s.x.bc} ELSE Tight(s, {1, 2}, Often({1, 2, 3, 6, 8, 12, 16}, {16, 17})))
      co == Times(bc, nc.v, Coefficients)
      in == Times(co, ni.v, LAMBDA t, i : Instruction(t, bc.v, dms, dt))
      ex == RIn(in, 1, {0, 0, 1})
      e1 == IF ex.e = "ok" /\ ex.v = 1 THEN Extension(ex, 4, FALSE) ELSE ex
      lp == RdIn(e1, 1, {0})
      z == Limit(lp, lp.v = 0 /\ ~lp.x.bad /\ ni.v <= 30)
  IN  IF z.e # "ok" THEN z ELSE [z EXCEPT !.o = Append(@, ni.v + 2), !.v = bc.v]
DrcConfig(s, dms, dt) == DrcConfig2([s EXCEPT !.x = DX0], dms, dt)

-----------------------------------------------------------------------------
\* Loudness information
LdVal(d, t) ==   \* in quarters
  CASE d = 9 -> -464 + 2 * t
    [] d = 8 -> 4 * t
    [] d = 7 -> 4 * t + 320
    [] d = 6 -> IF t = 0 THEN 0 ELSE IF t <= 128 THEN t ELSE IF t <= 204 THEN 2 * t - 128 ELSE 4 * t - 536
    [] OTHER -> -231 + t
Measure(s, i) ==
  LET d == RIn(s, 4, Tight(s, {1, 1, 2, 2, 3}, 0..9))
      w == IF d.v = 8 THEN 2 ELSE IF d.v = 7 THEN 5 ELSE 8
      v == RdIn(Limit(d, d.v <= 9), w, Tight(s, 90..210, 0..(Pow2[w] - 1)))
      y == RIn(Out(v, IF v.e = "ok" THEN LdVal(d.v, v.v) ELSE 0), 4, 0..11)
      r == R(y, 2)
      z == Limit(r, y.v <= 11)
  IN  IF z.e = "ok" THEN [z EXCEPT !.x.me = Append(@, [m |-> d.v, v |-> 8 * LdVal(d.v, v.v), sys |-> y.v])] ELSE z
Peak(s) ==
  LET p == Rd(s, 1)
      v == RdIn(p, 12, Tight(s, {0} \cup 500..900, 0..4095))
  IN  IF p.e # "ok" \/ p.v = 0 THEN Out(p, 0) ELSE IF v.e = "ok" /\ v.v = 0 THEN OutAll(v, <<0>>) ELSE OutAll(v, <<1, 640 - v.v>>)
PeakOf(a, b) == IF Len(b.o) = Len(a.o) + 1 THEN <<>> ELSE <<b.o[Len(a.o) + 2]>>
Loudness(s0, ty, mae) ==
  LET s == [s0 EXCEPT !.x.me = <<>>]
      i == RIn(s, 6, Tight(s, IF Len(s.x.li) > 9 THEN {0} ELSE {0, 0, 1, 2, 3, 63}, 0..6))
      d == RIn(i, 7, Tight(s, IF Len(s.x.li) > 9 THEN {0} ELSE {0, 0, 2, 6, 127}, 0..127))
      a == Peak(d)
      b == Peak(a)
      was == b.e = "ok" /\ b.p > a.p + 1          \* sent at all: then with its method, even if "none"
      c == IF ~was THEN b ELSE IF Len(b.o) = Len(a.o) + 1 THEN Rd(Rd(b, 4), 2) ELSE R(R(b, 4), 2)
      n == RIn(c, 4, {0, 1, 2, 3})
      z == Times(n, n.v, Measure)
  IN  IF z.e # "ok" \/ ty < 0 THEN z
      ELSE [z EXCEPT !.x.li = Append(@, [type |-> ty, mae |-> mae, set |-> i.v, dmx |-> d.v, sp |-> PeakOf(d, a), tp |-> PeakOf(a, b), me |-> z.x.me])]
LoudnessInfo(s, i) ==
  LET t == RIn(s, 2, Tight(s, {0, 0, 0, 1, 2, 3}, 0..3))
      u == IF t.e # "ok" THEN t ELSE IF t.v = 3 THEN RIn(t, 5, Tight(s, 1..3, 0..31)) ELSE IF t.v = 0 THEN OutAll(t, <<-1, -1>>) ELSE RIn(t, 7, Tight(s, 1..3, 0..127))
  IN  Loudness(u, t.v, IF t.v = 0 THEN -1 ELSE u.v)
LoudnessSet2(s) ==
  LET n == RIn(s, 6, Tight(s, Often(0..10, {24, 27, 30, 36}), Often(0..4, {36, 37})))
      a == Times(Limit(n, n.v <= 36), n.v, LoudnessInfo)
      p == R(a, 1)
      m == RIn(p, 6, Often(0..2, {36, 37}))
      b == IF p.e # "ok" \/ p.v = 0 THEN p ELSE Times(Limit(m, m.v <= 36), m.v, LAMBDA t, i : Loudness(t, -1, -1))
      x == RIn(b, 1, {0, 0, 1})
  IN  IF x.e = "ok" /\ x.v = 1 THEN Extension(x, 4, TRUE) ELSE x
LoudnessSet(s) == LoudnessSet2([s EXCEPT !.x = DX0])

-----------------------------------------------------------------------------
(* Gain payloads.  sets: those of the first coefficients; F samples a frame, time resolution dt.
   Gains are in eighths of a decibel; in this profile interpolation is linear: no slopes are sent.            *)
GainCodes01 == <<<<2,3,-1>>, <<2,2,1>>, <<3,1,-2>>, <<3,2,0>>, <<4,0,-16>>, <<5,2,-4>>, <<5,15,-3>>, <<5,14,8>>, <<6,25,-5>>, <<6,24,2>>, <<6,6,3>>, <<7,15,-8>>,
  <<7,52,-7>>, <<7,54,-6>>, <<7,55,4>>, <<8,29,5>>, <<9,57,-15>>, <<9,213,-9>>, <<9,215,6>>, <<9,212,7>>, <<10,112,-12>>, <<10,428,-11>>, <<10,429,-10>>,
  <<11,226,-14>>, <<11,227,-13>>>>
GainCodes2 == <<<<3,7,-1>>, <<4,12,-5>>, <<4,9,-4>>, <<4,5,-3>>, <<4,3,-2>>, <<4,1,0>>, <<4,11,1>>, <<5,17,-7>>, <<5,14,-6>>, <<5,5,2>>, <<5,4,3>>, <<5,8,4>>,
  <<5,0,5>>, <<5,13,6>>, <<5,15,7>>, <<5,16,8>>, <<5,27,9>>, <<6,43,-10>>, <<6,40,-9>>, <<6,2,-8>>, <<6,18,10>>, <<6,24,11>>, <<6,41,12>>, <<7,106,-32>>,
  <<7,84,-14>>, <<7,104,-13>>, <<7,38,-12>>, <<7,6,-11>>, <<7,50,13>>, <<8,210,-18>>, <<8,171,-17>>, <<8,170,-16>>, <<8,79,-15>>, <<8,78,14>>, <<8,215,15>>,
  <<8,14,16>>, <<9,429,-29>>, <<9,428,-27>>, <<9,422,-26>>, <<9,205,-25>>, <<9,206,-22>>, <<9,423,-21>>, <<9,31,-20>>, <<9,204,-19>>, <<10,60,-28>>,
  <<10,414,-24>>, <<10,415,-23>>, <<11,122,-31>>, <<11,123,-30>>>>
\* time differences: 2, 4, 5 bits, or 2 + z bits where 2^z is the first power of two not below twice the gain values of a frame
ZBits(nv) == CHOOSE z \in 1..12 : Pow2[z] >= 2 * nv /\ (z = 1 \/ Pow2[z - 1] < 2 * nv)

\* read a code word of the table: one bit more at a time
Code(s, tab) ==
  IF s.e # "ok" THEN s
  ELSE IF s.g THEN LET e == RandomElement(ToSet(tab)) IN [GenBits(s, e[1], e[2]) EXCEPT !.v = e[3]]
  ELSE LET hit == {i \in 1..Len(tab) : s.p + tab[i][1] <= s.n /\ Field(s.b, s.p, tab[i][1]) = tab[i][2]}
       IN  IF hit = {} THEN Fail(s, Short)       \* the tables are complete codes
           ELSE LET i == CHOOSE j \in hit : TRUE IN [s EXCEPT !.p = @ + tab[i][1], !.v = tab[i][3]]
TimeCode(s, nv) ==
  LET z == ZBits(nv)
      past == IF Len(s.x.c) = 0 THEN 0 ELSE s.x.c[Len(s.x.c)]
      a == RdIn(s, 2, Single(s, IF past > 700 THEN {0} ELSE IF past > 400 THEN {0, 1} ELSE {0, 1, 2, 3}, {0, 1, 2, 3, 3}))
      b == Rd(a, IF a.v = 1 THEN 2 ELSE 3)
      c == RdIn(a, z, Single(s, 0..2, 0..(2 * nv - 14)))
  IN  IF a.e # "ok" THEN a
      ELSE IF a.v = 0 THEN [a EXCEPT !.v = 1]
      ELSE IF a.v = 1 THEN [b EXCEPT !.v = @ + 2]
      ELSE IF a.v = 2 THEN [b EXCEPT !.v = @ + 6]
      ELSE IF c.e = "ok" /\ c.v > 2 * nv - 14 THEN Refuse(c) ELSE [c EXCEPT !.v = @ + 14]
Initial(s, prof) ==
  LET g == RdIn(s, 1, Single(s, {0, 1, 1, 1}, {0, 1}))
      m == RdIn(g, IF prof = 1 THEN 10 ELSE 8, Single(s, 0..60, 0..255))
  IN  IF g.e # "ok" THEN g
      ELSE IF prof = 0 THEN [m EXCEPT !.v = IF g.v = 1 THEN -@ ELSE @]
      ELSE IF g.v = 0 THEN [g EXCEPT !.v = 0] ELSE [m EXCEPT !.v = -(@ + 1)]

\* times of n nodes, in x.c; frames end with a node unless told otherwise
Times_(s0, n, F, dt, off, full) ==
  LET nv == F \div dt
      s == [s0 EXCEPT !.x.c = <<>>]
      fe == IF full = 1 THEN [s EXCEPT !.v = 1] ELSE Rd(s, 1)
      sum(q) == IF q = <<>> THEN off ELSE q[Len(q)]
      step(t, i) == LET u == TimeCode(t, nv) IN IF u.e # "ok" THEN u ELSE [u EXCEPT !.x.c = Append(@, sum(t.x.c) + u.v * dt)]
      ends == Times(fe, n - 1, step)
      late == {i \in 1..Len(ends.x.c) : ends.x.c[i] > F + off}
      first == CHOOSE i \in late : \A j \in late : i <= j
      q == ends.x.c
      with == IF late = {} THEN Append(q, F + off) ELSE SubSeq(q, 1, first - 1) \o <<F + off>> \o SubSeq(q, first, Len(q))
      open == Times(fe, n, LAMBDA t, i : LET u == step(t, i) IN Sure(u, u.e # "ok" \/ u.x.c[Len(u.x.c)] < 2048 - F))
  IN  IF fe.e # "ok" THEN fe ELSE IF fe.v = 0 THEN open ELSE IF ends.e # "ok" THEN ends ELSE [ends EXCEPT !.x.c = with]
\* nodes beyond the frame were sent late: they belong to the frame before and come first
Reservoir(q, F) == [i \in 1..Len(SelectSeq(q, LAMBDA t : t >= F)) |-> SelectSeq(q, LAMBDA t : t >= F)[i] - 2 * F] \o SelectSeq(q, LAMBDA t : t < F)

Unary(s) ==   \* number of bits up to and with the first 1
  IF s.e # "ok" THEN s
  ELSE IF s.g THEN LET n == RandomElement(Single(s, {1, 2, 3, 4, 5, 8}, {1, 1, 2, 3, 4, 5, 9, 32, 33})) IN [s EXCEPT !.a = @ \o [i \in 1..n |-> IF i = n THEN 1 ELSE 0], !.p = @ + n, !.v = n]
  ELSE LET one == {i \in s.p..(s.n - 1) : BitAt(s.b, i) = 1}
       IN  IF one = {} THEN Fail(s, Short) ELSE LET f == CHOOSE i \in one : \A j \in one : i <= j IN [s EXCEPT !.v = f - s.p + 1, !.p = f + 1]
GainNodes(s, set, F, dt) ==
  LET off == IF set.al = 1 THEN -dt + (dt - 1) \div 2 ELSE -1
      m == Rd(s, 1)
      i0 == Initial(m, set.prof)
      n == Unary(m)
      n1 == Limit(n, n.v <= 32)
      t == Times_(n1, n.v, F, dt, off, set.full)
      i1 == Initial(t, set.prof)
      g0 == [i1 EXCEPT !.o = <<i1.v>>]
      tab == IF set.prof = 2 THEN GainCodes2 ELSE GainCodes01
      g == Times(g0, n.v - 1, LAMBDA u, i : LET c == Code(u, tab) IN Out(c, c.v + c.o[Len(c.o)]))
      q == Reservoir(t.x.c, F)
      far == \E k \in 1..Len(t.x.c) : t.x.c[k] - 2 * F >= 2048 - F
      all == FoldLeft(LAMBDA w, k : w \o <<q[k], g.o[k], 0>>, <<n.v>>, [k \in 1..n.v |-> k])
  IN  IF m.e # "ok" THEN (IF s.e = "ok" THEN Refuse(s) ELSE s)      \* nothing left: which error is not settled
      ELSE IF m.v = 0 THEN OutAll(i0, <<1, F + off, i0.v, 0>>)
      ELSE IF g.e # "ok" THEN [g EXCEPT !.o = s.o]
      ELSE IF far THEN Refuse([g EXCEPT !.o = s.o])
      ELSE [g EXCEPT !.o = s.o \o all]
DrcGain2(s, sets, F, dt) ==
  LET g == Times(s, Len(sets), LAMBDA t, i :
             IF sets[i].prof = 3 THEN OutAll(t, <<1, 1, F - 1, 0, 0>>) ELSE Times(Out(t, sets[i].bands), sets[i].bands, LAMBDA u, b : GainNodes(u, sets[i], F, dt)))
      x == RIn(g, 1, {0, 0, 1})
  IN  IF x.e = "ok" /\ x.v = 1 THEN Extension(x, 3, FALSE) ELSE x
DrcGain(s, sets, F, dt) == DrcGain2([s EXCEPT !.x = DX0], sets, F, dt)
=============================================================================
