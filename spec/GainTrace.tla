----------------------------- MODULE GainTrace -----------------------------
(* DRC gains in the audio.  A record is a decode with the gains compared with one of the same stream without:
     b, lx, lb, p  as in LoudTrace       n  channels, all of the same signal       py  the DRC payload of each access unit
     err  the decode failed              pt  <<channel, time, ratio in 1/2^20>> of some samples; the first sample of an access unit
                                              has its gain at time 1024 * unit - 1024                                    *)
EXTENDS DrcApply, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
Any_ == [e |-> "any"]
Single1(sets) == \A k \in 1..Len(sets) : sets[k].bands = 1
Rising(q) == \A k \in 1..(Len(q) - 1) : q[k][1] < q[k + 1][1]
Work(r) ==
  LET c == DrcConfig(Reader(r.b), <<>>, 32)
      l == LoudnessSet(Reader(r.lb))
      li == IF r.lx = 1 THEN l.x.li ELSE <<>>
      sets == c.x.co[1].sets
      pay == Each(Len(r.py), LAMBDA k : DrcGain(Reader(r.py[k]), sets, 1024, 32))
      nodes == Each(Len(pay), LAMBDA k : Nodes(pay[k].o, sets))
      all(g) == FoldLeft(LAMBDA q, k : q \o Each(Len(nodes[k][g]), LAMBDA h : <<1024 * (k - 1) + nodes[k][g][h][1], nodes[k][g][h][2]>>), <<>>, [k \in 1..Len(pay) |-> k])
  IN  IF c.e # "ok" \/ (r.lx = 1 /\ l.e # "ok") \/ c.v # r.n THEN Any_
      ELSE IF Open(c.x.ins, li, r.p) \/ Len(c.x.co) # 1 \/ ~Single1(sets) \/ \E k \in 1..Len(pay) : pay[k].e # "ok" THEN Any_
      ELSE LET s == Select(c.x.ins, li, r.p, c.v, r.dm)
               m == s.o[1]
               set(k) == c.x.ins[At(c.x.ins, LAMBDA x : x.id = s.o[2 * k])]
               q == Each(Len(sets), all)
           IN  IF s.e # "ok" THEN s
               ELSE IF \E k \in 1..m : s.o[1 + 2 * k] \notin {0, 127} THEN Any_
               ELSE IF \E g \in 1..Len(sets) : ~Rising(q[g]) THEN Any_
               ELSE [e |-> "ok", ln |-> s.o[2 + 2 * m + 1], q |-> q, in |-> Each(m, set)]
\* <<>> - not known
Expect(w, c, T) ==
  FoldLeft(LAMBDA a, k :
      LET f == ForChannel(w.in[k], c)
          v == Curve(w.q[f[1] + 1], T, LAMBDA g : Level(g, w.in[k], f[2], f[3], w.ln))
      IN  IF a = <<>> \/ f = <<>> THEN a ELSE IF f[1] >= Len(w.q) THEN <<>> ELSE IF v = <<>> THEN <<>> ELSE Times2(a, v),
    <<16384, -14>>, [k \in 1..Len(w.in) |-> k])
Abs(x) == IF x < 0 THEN -x ELSE x
Point(w, t) ==
  LET x == Expect(w, t[1], t[2])
      v == Fixed(x)
  IN  IF x = <<>> THEN <<>> ELSE IF ~Fits(x) THEN <<>> ELSE IF v <= 4096 \/ Abs(v - t[3]) <= v \div 256 + 64 THEN <<>>
      ELSE <<"channel", t[1], "time", t[2], "gain expected, in 1/2^20", v, "found", t[3]>>
Verdict(w, r) ==
  CASE r.err = "crash" -> <<"crash">>
    [] w.e = "any" -> <<>>
    [] w.e = "reject" -> IF r.err = "" THEN <<"decoded, but the DRC data is not valid">> ELSE <<>>
    [] r.err # "" -> <<"failed", r.err>>
    [] OTHER -> FirstOf([k \in 1..Len(r.pt) |-> Point(w, r.pt[k])] \o <<<<>>>>)
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] w == Work(r) v == Verdict(w, r)
            IN  IF v # <<>> THEN Say("REJECT", <<l>> \o v) ELSE IF w.e = "any" THEN Say("OPEN", <<l>>) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
