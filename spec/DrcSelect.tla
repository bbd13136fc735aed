------------------------------ MODULE DrcSelect ------------------------------
(* Choice of the DRC sets and of the loudness normalization gain (ISO/IEC 23003-4, 6.3, as used by MPEG-H).
   ins, li: what Drc.tla reads from the configuration and the loudness information.  Levels in 1/32 dB.
   p, the request: on - dynamic range control wanted, with eff, the effect asked for;  ln - loudness normalization,
   with tl, the target;  req - downmix id of the output;  max - highest peak;  dev - how far the target may be missed
   (whole dB);  gmax - highest gain;  meth, sys - preferred measurement;  grp - groups wanted;  pre - presets wanted,
   with mem, the number of their members;  pref - the preset preferred                                             *)
EXTENDS Drc

Bad == [e |-> "reject"]
Undef == 32000
Unknown == -77777777

\* effects in the order of preference, the one asked for first; 0 - none of them
Effects(e) == CASE e = 0 -> <<0, 6, 1, 2, 3, 4>> [] e = 1 -> <<1, 6, 2, 3, 4, 5>> [] e = 2 -> <<2, 6, 1, 3, 4, 5>> [] e = 3 -> <<3, 6, 1, 2, 4, 5>>
                [] e = 4 -> <<4, 6, 2, 1, 3, 5>> [] e = 5 -> <<5, 6, 1, 2, 3, 4>> [] OTHER -> <<6, 1, 2, 3, 4, 5>>
Bonus(sys) == CASE sys \in {0, 1} -> <<0, 0, 8, 0, 1, 3, 0, 5, 6, 7, 4, 2>> [] sys = 2 -> <<0, 0, 1, 0, 8, 5, 0, 2, 3, 4, 6, 7>>
                [] sys = 3 -> <<0, 0, 3, 0, 1, 8, 0, 4, 5, 6, 7, 2>> [] sys = 4 -> <<0, 0, 5, 0, 1, 3, 0, 8, 6, 7, 4, 2>>
                [] sys = 5 -> <<0, 0, 5, 0, 1, 3, 0, 6, 8, 7, 4, 2>> [] sys = 6 -> <<0, 0, 5, 0, 1, 3, 0, 6, 7, 8, 4, 2>>
                [] sys = 7 -> <<0, 0, 3, 0, 1, 7, 0, 4, 5, 6, 8, 2>> [] OTHER -> <<0, 0, 1, 0, 7, 5, 0, 2, 3, 4, 6, 8>>
Clip == 256  Fade == 512  DuckO == 1024  DuckS == 2048
EffBits == <<0, 1, 2, 3, 4, 5, 6, 7>>                        \* night .. artistic
Has(i, bits) == \E k \in 1..Len(bits) : BitSet(i.eff, bits[k])

Big(a, b) == IF a > b THEN a ELSE b
Low(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
At(q, T(_)) == LET h == {k \in 1..Len(q) : T(q[k])} IN IF h = {} THEN 0 ELSE MinOf(h)      \* first place
Least(q, F(_)) == IF q = <<>> THEN q ELSE LET m == MinOf({F(q[k]) : k \in 1..Len(q)}) IN SelectSeq(q, LAMBDA x : F(x) = m)
Most(q, F(_)) == Least(q, LAMBDA x : -F(x))
FirstOf(Q) == LET h == At(Q, LAMBDA q : q # <<>>) IN IF h = 0 THEN <<>> ELSE Q[h]          \* first that is not empty

-----------------------------------------------------------------------------
\* no DRC at all is a choice too: id -1 on the layout as it is, -2 after a downmix
NoDrc(req) == [type |-> 0, mae |-> -1, id |-> IF req = 0 THEN -1 ELSE -2, dmx |-> <<req>>, eff |-> 0, lim |-> <<>>, tl |-> <<>>, dep |-> <<>>, indep |-> TRUE, apply |-> FALSE]

\* what an instruction is combined with
Dependent(ins, i) == LET k == At(ins, LAMBDA x : x.id = i.dep[1]) IN IF k = 0 THEN 0 ELSE IF ins[k].dep # <<>> THEN 0 ELSE k
DepOk(ins, i) == i.dep = <<>> \/ Dependent(ins, i) # 0
EffAll(ins, i) == {b \in 0..15 : BitSet(i.eff, b) \/ (i.dep # <<>> /\ BitSet(ins[Dependent(ins, i)].eff, b))}

\* loudness: <<value>>s, one for each information that is as specific as any
Measured(l) == \E k \in 1..Len(l.me) : l.me[k].m \in {1, 2}
MostSpecific(q, i, p) ==
  LET t3 == SelectSeq(q, LAMBDA l : l.type = 3 /\ \E k \in 1..Len(p.pre) : p.pre[k] = l.mae)
      t2 == SelectSeq(q, LAMBDA l : l.type = 2 /\ \E k \in 1..Len(p.grp) : p.grp[k] = l.mae)
      t0 == SelectSeq(q, LAMBDA l : l.type = 0)
      members(l) == p.mem[At(p.pre, LAMBDA x : x = l.mae)]
      pr == IF p.on = 1 /\ i.type = 3 THEN SelectSeq(t3, LAMBDA l : l.mae = i.mae) ELSE <<>>
      gr == IF p.on = 1 /\ i.type = 2 THEN SelectSeq(t2, LAMBDA l : l.mae = i.mae) ELSE <<>>
      by3 == FirstOf(<<pr, SelectSeq(t3, LAMBDA l : l.mae = p.pref), Most(Most(t3, members), LAMBDA l : l.mae)>>)
      by2 == FirstOf(<<gr, Most(t2, LAMBDA l : l.mae)>>)
  IN  FirstOf(<<by3, by2, t0>>)
Applicable(li, i, p) ==
  LET id == Big(i.id, 0)
      of(d, s) == MostSpecific(SelectSeq(li, LAMBDA l : l.dmx = d /\ l.set = s /\ Measured(l)), i, p)
  IN  FirstOf(<<of(p.req, id), of(127, id), of(p.req, 63), of(p.req, 0), of(127, 63), of(127, 0), of(0, id), of(0, 63), of(0, 0)>>)
Value(l, p) ==
  LET by(m) == SelectSeq(l.me, LAMBDA x : x.m = m)
      wanted == IF p.meth = 2 THEN <<by(2), by(1)>> ELSE <<by(1), by(2)>>
  IN  Most(FirstOf(wanted), LAMBDA x : Bonus(p.sys)[x.sys + 1])[1].v
Loudnesses(li, i, p) ==
  LET a == IF p.ln = 1 THEN Applicable(li, i, p) ELSE <<>>
  IN  IF a = <<>> THEN <<[v |-> Undef, g |-> 0]>> ELSE [k \in 1..Len(a) |-> [v |-> Value(a[k], p), g |-> p.tl - Value(a[k], p)]]

\* peak: [v, sure]
SameScope(i, l) == l.type = i.type /\ (i.type = 0 \/ l.mae = i.mae)
PeakIn(q) == \* true peak of the first that has any, else its sample peak
  LET k == At(q, LAMBDA l : l.tp # <<>> \/ l.sp # <<>>) IN IF k = 0 THEN <<>> ELSE IF q[k].tp # <<>> THEN q[k].tp ELSE q[k].sp
SignalPeak(all, li, i, p) ==
  LET id == Big(i.id, 0)
      of(d, s) == PeakIn(SelectSeq(li, LAMBDA l : l.dmx = d /\ l.set = s /\ SameScope(i, l)))
      here == p.req = i.dmx[1] \/ i.dmx[1] = 127 \/ \E k \in 1..Len(i.dmx) : i.dmx[k] = p.req
      base == At(all, LAMBDA x : x.id = id /\ x.dmx[1] = 0 /\ x.lim # <<>>)
      sure == FirstOf(<<of(p.req, id), of(p.req, 63), IF here THEN i.lim ELSE <<>> >>)
      guess == IF p.req = 0 THEN <<>> ELSE FirstOf(<<of(0, id), of(0, 63), IF base # 0 THEN all[base].lim ELSE <<>> >>)
  IN  IF sure # <<>> THEN [v |-> sure[1], sure |-> TRUE] ELSE [v |-> IF guess # <<>> THEN guess[1] ELSE 0, sure |-> FALSE]

-----------------------------------------------------------------------------
\* Candidates [i - index, g - gain, pk - peak after it, l - loudness after it, m - made for the target, sure]
Matches(i, p) == \E k \in 1..Len(i.dmx) : (i.dmx[k] = 0 /\ i.id > 0) \/ i.dmx[k] = p.req \/ i.dmx[k] = 127
Off(all, li, k, p) ==
  LET i == all[k]  pk == SignalPeak(all, li, i, p)
  IN  [h \in 1..Len(Loudnesses(li, i, p)) |->
        LET l == Loudnesses(li, i, p)[h]
            over == Low(Big(0, pk.v + l.g - p.max), Big(0, 32 * p.dev))
            g == Low(l.g - over, p.gmax)
        IN  [i |-> k, g |-> g, pk |-> pk.v + g, l |-> IF l.v = Undef THEN Undef ELSE l.v + g, m |-> FALSE, sure |-> pk.sure]]
On(all, li, k, p) ==
  LET i == all[k]  pk == SignalPeak(all, li, i, p)
      m == i.tl # <<>> /\ (p.ln = 0 \/ (32 * i.tl[1] >= p.tl /\ 32 * i.tl[2] < p.tl))
  IN  SelectSeq([h \in 1..Len(Loudnesses(li, i, p)) |->
        LET l == Loudnesses(li, i, p)[h]
            g == Low(l.g, p.gmax)
        IN  [i |-> k, g |-> g, pk |-> IF m /\ ~pk.sure THEN (IF p.ln = 0 THEN 0 ELSE p.tl - 32 * i.tl[1]) ELSE pk.v + g,
             l |-> IF l.v = Undef THEN Undef ELSE l.v + g, m |-> m, sure |-> pk.sure]],
        LAMBDA c : c.m \/ c.sure \/ i.tl = <<>>)
Usable(i) == (i.eff # 0 \/ i.id < 0) /\ i.indep /\ i.eff \notin {Fade, DuckO, DuckS}

Wanted(i, p) == CASE i.type = 3 -> \E k \in 1..Len(p.pre) : p.pre[k] = i.mae [] i.type = 2 -> \E k \in 1..Len(p.grp) : p.grp[k] = i.mae [] OTHER -> TRUE
\* not louder than allowed
ByPeak(all, q, p) ==
  LET low == {q[k].pk : k \in {h \in 1..Len(q) : Wanted(all[q[h].i], p)}}
      a == SelectSeq(q, LAMBDA c : (c.m /\ ~c.sure) \/ c.pk <= p.max)
      b == SelectSeq(q, LAMBDA c : c.m /\ c.sure)
      near == SelectSeq(q, LAMBDA c : low = {} \/ c.pk < MinOf(low) + 32)
      less(c) == LET over == Low(Big(0, c.pk - p.max), Big(0, 32 * p.dev)) IN [c EXCEPT !.g = @ - over, !.pk = @ - over, !.l = IF @ = Undef THEN Undef ELSE @ - over]
  IN  FirstOf(<<a, b, [k \in 1..Len(near) |-> less(near[k])]>>)
\* for the scene: what is made for a wanted preset or, without such, for a wanted group
ByScene(all, q, p) ==
  LET w == SelectSeq(q, LAMBDA c : all[c.i].type # 3 \/ Wanted(all[c.i], p))
  IN  IF \E k \in 1..Len(w) : all[w[k].i].type = 3 THEN SelectSeq(w, LAMBDA c : all[c.i].type # 2)
      ELSE SelectSeq(w, LAMBDA c : all[c.i].type # 2 \/ Wanted(all[c.i], p))
Effect(ins, all, q, e) == SelectSeq(q, LAMBDA c : IF e = 0 THEN ~Has(all[c.i], EffBits) ELSE e - 1 \in EffAll(ins, all[c.i]))
ByEffect(ins, all, q, p) == FirstOf([k \in 1..6 |-> Effect(ins, all, q, Effects(p.eff)[k])] \o <<q>>)
Final(ins, all, q, p) ==
  LET low == MinOf({q[k].pk : k \in 1..Len(q)})
      a == SelectSeq(q, LAMBDA c : c.pk <= 0)
      t3 == SelectSeq(a, LAMBDA c : all[c.i].type = 3)  t2 == SelectSeq(a, LAMBDA c : all[c.i].type = 2)
      mem(c) == p.mem[At(p.pre, LAMBDA x : x = all[c.i].mae)]
      one(s) == IF s = <<>> THEN s ELSE <<s[1]>>
      sc == FirstOf(<<one(SelectSeq(t3, LAMBDA c : all[c.i].mae = p.pref)), one(Least(Most(t3, mem), LAMBDA c : all[c.i].mae)), t2, a>>)
      dm == FirstOf(<<SelectSeq(sc, LAMBDA c : \E k \in 1..Len(all[c.i].dmx) : all[c.i].dmx[k] = p.req), sc>>)
      ef == Least(dm, LAMBDA c : Cardinality(EffAll(ins, all[c.i]) \cap {0, 1, 2, 3, 4, 6, 7}))
      un == SelectSeq(ef, LAMBDA c : ~c.m)
      tg == IF un # <<>> THEN un ELSE Least(ef, LAMBDA c : all[c.i].tl[1])
  IN  Most(IF low > 0 THEN Least(q, LAMBDA c : c.pk) ELSE Most(tg, LAMBDA c : c.pk), LAMBDA c : all[c.i].id)[1]

-----------------------------------------------------------------------------
Select(ins, li, p, base, dms) ==
  LET all == Append(ins, NoDrc(p.req))
      ok(k) == p.on = 1 /\ Matches(all[k], p) /\ Usable(all[k])
      lost == \E k \in 1..Len(ins) : ok(k) /\ ~DepOk(ins, ins[k])
      gone == \E k \in 1..Len(ins) : ok(k) /\ ins[k].dep # <<>> /\ ins[k].dep[1] # 0 /\ At(ins, LAMBDA x : x.id = ins[k].dep[1]) = 0
      c0 == FoldLeft(LAMBDA q, k : q \o On(all, li, k, p), <<>>, SelectSeq([k \in 1..Len(all) |-> k], ok))
      c1 == ByScene(all, ByPeak(all, c0, p), p)
      off == Off(all, li, Len(all), p)
      none == p.on = 1 /\ c1 = <<>>
      many == p.ln = 1 /\ \E k \in 1..Len(all) : (IF p.on = 1 THEN ok(k) ELSE k = Len(all)) /\ Len(Applicable(li, all[k], p)) > 16
      c == IF p.on = 0 THEN off[1] ELSE Final(ins, all, ByEffect(ins, all, c1, p), p)
      s == all[c.i]
      last(T(_)) == LET h == {k \in 1..Len(ins) : T(ins[k])} IN IF h = {} THEN 0 ELSE MaxOf(h)
      fade == last(LAMBDA i : BitSet(i.eff, 9) /\ Wanted(i, p))
      duck == last(LAMBDA i : (BitSet(i.eff, 10) \/ BitSet(i.eff, 11)) /\ (\E k \in 1..Len(i.dmx) : i.dmx[k] = 0) /\ Wanted(i, p))
      dep == IF s.dep = <<>> THEN 0 ELSE At(ins, LAMBDA x : x.id = s.dep[1])
      picked == SelectSeq(<<duck, IF duck = 0 THEN fade ELSE 0, dep, IF c.i > Len(ins) THEN 0 ELSE c.i>>, LAMBDA k : k # 0 /\ ins[k].id > 0)
      dm == At(dms, LAMBDA d : d[1] = p.req)
      grp == SelectSeq(li, LAMBDA l : l.type = 1 /\ l.dmx = 0 /\ l.set = 0 /\ Measured(l))
  IN  IF lost \/ gone THEN [e |-> IF gone THEN "reject" ELSE "any"]
      ELSE IF none \/ many \/ \E k \in 1..Len(ins) : BitSet(ins[k].eff, 9) /\ ins[k].dmx[1] # 127 THEN Bad
      ELSE [e |-> "ok",
            o |-> <<Len(picked)>>
                  \o FoldLeft(LAMBDA o, k : o \o <<ins[k].id, IF k = duck THEN 0 ELSE IF ins[k].apply THEN ins[k].dmx[1] ELSE 0>>, <<>>, picked)
                  \o <<p.req, c.g, c.pk, IF c.l = Undef THEN Unknown ELSE c.l, c.g, base, IF p.req = 0 \/ dm = 0 THEN base ELSE dms[dm][2], Len(grp)>>
                  \o FoldLeft(LAMBDA o, l : o \o <<l.mae, SelectSeq(l.me, LAMBDA x : x.m \in {1, 2})[1].v>>, <<>>, grp)]
\* what the standard leaves open, or what does not fit the decoder's tables
Open(ins, li, p) ==
  \/ \E j, k \in 1..Len(ins) : j < k /\ ins[j].id = ins[k].id
  \/ Len(ins) * Big(Len(li), 1) >= 31 /\ FoldLeft(LAMBDA n, k : n + Len(Loudnesses(li, ins[k], p)), 17, [k \in 1..Len(ins) |-> k]) > 31
=============================================================================
