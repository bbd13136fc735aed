--------------------------------- MODULE Dmx ---------------------------------
(* Downmix matrices of a configuration: gains from each loudspeaker of the stream's layout to each loudspeaker of the
   output layout, with equalisers for the inputs.  Loudspeakers that mirror each other are coded as pairs.
   x of a reader: mtx (rows of gains in eighths of a decibel), sep, sym, cmp (compact matrix), eq                      *)
EXTENDS Bits, Layouts
DmxMute == -99999
DmxX0 == [mtx |-> <<>>, sep |-> <<>>, sym |-> <<>>, cmp |-> <<>>, q |-> <<>>, f |-> 0, d |-> 0]
DLog2(n) == CHOOSE k \in 0..20 : Pow2[k] <= n /\ n < Pow2[k + 1]
DNo(s) == Fail(s, "reject")
\* a number below n
Ranged(s, n) ==
  LET nb == DLog2(n)
      unused == Pow2[nb + 1] - n
      a == Rd(s, nb)
      b == Rd(a, 1)
  IN  IF a.e # "ok" \/ a.v < unused THEN a ELSE [b EXCEPT !.v = 2 * a.v - unused + b.v]
\* loudspeakers by centre, pair and single: <<kind, j, partner>>; the left one of a pair speaks for both
Compact(lay) ==
  LET n == Len(lay)
      Mirror(j, h) == Spk(lay[j])[1] = -Spk(lay[h])[1] /\ Spk(lay[j])[2] = Spk(lay[h])[2] /\ Spk(lay[j])[3] = Spk(lay[h])[3]
      Step(acc, j) ==
        IF j \in acc.used THEN acc
        ELSE IF Spk(lay[j])[1] \in {0, 180, -180} THEN [used |-> acc.used \union {j}, q |-> Append(acc.q, <<"centre", j, j>>)]
        ELSE LET H == {h \in (j + 1)..n : h \notin acc.used /\ Mirror(j, h)} IN
             IF H = {} THEN [used |-> acc.used \union {j}, q |-> Append(acc.q, <<"single", j, j>>)]
             ELSE LET h == CHOOSE k \in H : \A m \in H : k <= m IN
                  [used |-> acc.used \union {j, h}, q |-> Append(acc.q, IF Spk(lay[j])[1] > 0 THEN <<"pair", j, h>> ELSE <<"pair", h, j>>)]
  IN  FoldLeft(Step, [used |-> {}, q |-> <<>>], [j \in 1..n |-> j]).q
\* usual compact matrices: <<in, out, entries by rows>>
Templates == <<
  <<13, 6, <<1,0,0,1,0,1,0,0,0,0,1,0,0,0,0,1,1,0,0,0,0,0,0,1,1,0,0,1,1,0,0,0,1,0,0,0,1,1,0,1,0,0,0,1,1,0,0,1,0,0,0,1,0,1,0,0,1,0,0,0>>>>,
  <<14, 6, <<1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1,1,0,0,0>>>>,
  <<12, 6, <<1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1,0,0,0,1>>>>,
  <<7, 6, <<1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1,1,0,0,1>>>>,
  <<13, 14, <<1,0,0,1,0,0,1,0,0,0,0,0,1,0,0,0,0,0,1,0,1,0,0,0,0,0,0,0,1,0,1,0,0,1,0,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1,0,0,0,0,1,0,0,0,1,0,0,1,0,0,0,1,0,0,0,0>>>>,
  <<13, 12, <<1,0,0,1,0,0,1,0,0,0,0,0,1,0,0,0,0,0,0,1,1,0,0,0,0,0,0,0,0,1,1,0,0,1,0,1,0,0,0,0,1,0,0,0,0,1,1,0,1,1,0,0,0,1,0,1,0,0,1,0,0,0,0,1,0,0,1,0,0,0,1,0,0,0,0>>>>,
  <<13, 7, <<0,0,0,0,1,0,1,0,0,0,0,0,1,0,0,0,0,0,1,0,1,0,0,0,0,0,0,0,1,0,1,0,0,1,0,1,0,0,0,0,1,0,0,0,0,1,1,0,1,1,0,0,0,1,0,1,0,0,1,0,0,0,0,1,0,0,1,0,0,0,1,0,0,0,0>>>>,
  <<13, 2, <<1,1,1,1,1,1,1,1,1,1,1,1,1,1,1>>>> >>
TemplateOf(ci, co) == LET K == {k \in 1..Len(Templates) : Templates[k][1] = ci /\ Templates[k][2] = co} IN IF K = {} THEN <<>> ELSE Templates[CHOOSE k \in K : TRUE][3]
\* how many bits that are not "stop", at most max, then the stop bit
RECURSIVE Unary(_, _, _, _)
Unary(s, k, max, stop) ==
  IF k >= max THEN [s EXCEPT !.v = k]
  ELSE LET a == Rd(s, 1) IN IF a.e # "ok" THEN a ELSE IF a.v = stop THEN [a EXCEPT !.v = k] ELSE Unary(a, k + 1, max, stop)
\* Golomb-Rice with at most max in the head; S: values for generation
Golomb(s, max, lg, stop, S) ==
  IF s.e = "ok" /\ s.g
  THEN LET x == RandomElement(S)
           h == IF x \div Pow2[lg] > max THEN max ELSE x \div Pow2[lg]
           low == x % Pow2[lg]
           bits == [i \in 1..h |-> 1 - stop] \o (IF h < max THEN <<stop>> ELSE <<>>) \o ToBits(low, lg)
       IN  [s EXCEPT !.a = @ \o bits, !.p = @ + Len(bits), !.v = h * Pow2[lg] + low]
  ELSE LET a == Unary(s, 0, max, stop)
           b == Rd(a, lg)
       IN  IF b.e # "ok" THEN b ELSE [b EXCEPT !.v = a.v * Pow2[lg] + b.v]
-----------------------------------------------------------------------------
EqStep(p) == <<20, 10, 5, 2>>[p + 1]                          \* twentieths of a decibel
EqLow(x, p) == LET h == IF p = 3 THEN -128 ELSE -160 IN IF x = 1 THEN 2 * h ELSE h
Peak(t, i, p, x) ==                                           \* x.q: <<decade, two digits>> of the last filter
  LET last == t.x.q
      a == Ranged(t, 4 - last[1])
      dec == a.v + last[1]
      lo == IF dec > last[1] THEN 10 ELSE last[2]
      hi == IF dec = 3 THEN 24 ELSE last[3]
      b == Ranged(a, 1 + hi - lo)
      f == b.v + lo
      freq == f * <<1, 10, 100, 1000>>[dec + 1]
      c == Rd(b, 5)
      d == Rd(c, 3)
      q == IF c.v <= 19 THEN c ELSE d
      qf == IF c.v <= 19 THEN c.v + 1 ELSE 20 + 2 * ((c.v - 20) * 8 + d.v + 1)
      g == Rd(q, 4 + x + p)
  IN  IF a.e # "ok" THEN a ELSE IF b.e # "ok" THEN b ELSE IF q.e # "ok" THEN q ELSE IF g.e # "ok" THEN g
      ELSE [OutAll(g, <<freq, qf, EqLow(x, p) + EqStep(p) * g.v>>) EXCEPT !.x.q = <<dec, f, hi>>]
Equalizer(t, i, p, x) ==
  LET n == EscIn([t EXCEPT !.x.q = <<0, 10, 99>>], 2, 4, 0, 0..6)
      s == IF p = 3 THEN 3 ELSE p + 1
      k == Times(Out(n, n.v + 1), n.v + 1, LAMBDA u, j : Peak(u, j, p, x))
      g == Rd(k, 4 + x + s)
  IN  IF k.e # "ok" THEN k ELSE IF g.e # "ok" THEN g ELSE Out(g, EqLow(x, s) + EqStep(s) * g.v)
Equalizers(s, nin) ==
  LET n == EscIn(s, 3, 5, 0, 0..4)
      n1 == IF n.e = "ok" /\ n.v > 11 THEN DNo(n) ELSE n
      p == Rd(n1, 2)
      x == Rd(p, 1)
      e == Times(Out(x, n.v + 1), n.v + 1, LAMBDA t, i : Equalizer(t, i, p.v, x.v))
      Map(t, i) == LET a == Rd(t, 1) b == Ranged(a, n.v + 1) IN
                   IF a.e # "ok" THEN a ELSE IF a.v = 0 THEN Out(a, 0) ELSE Out(b, b.v + 1)
  IN  IF x.e # "ok" THEN x ELSE Times(e, nin, Map)
-----------------------------------------------------------------------------
\* gains in the order of how common they are
GainTable(mn, mx, pr) ==
  LET Down(step, prev) == SelectSeq([i \in 1..((-8 * mn) \div step) |-> -step * i], LAMBDA v : (-v) % prev # 0)
      Up(step, prev) == SelectSeq([i \in 1..((8 * mx) \div step) |-> step * i], LAMBDA v : v % prev # 0)
      Fine(acc, k) == LET st == 8 \div Pow2[k] IN acc \o Down(st, 2 * st) \o Up(st, 2 * st)
      base == <<0>> \o Down(24, 10000) \o Up(24, 10000) \o Down(8, 24) \o Up(8, 24)
  IN  Append(FoldLeft(Fine, base, [k \in 1..pr |-> k]), DmxMute)
\* C: how gains are coded
Gain(s, C) ==
  LET a == Ranged(s, C.size)
      b == Golomb(s, (C.size - 1) \div Pow2[C.lg], C.lg, 1, IF RandomElement(1..Wild) = 1 THEN 0..(C.size + 8) ELSE 0..(C.size - 1))
      v == IF a.v = C.size - 1 THEN DmxMute ELSE 8 * C.mx - (8 \div Pow2[C.pr]) * a.v
  IN  IF s.e # "ok" THEN s
      ELSE IF C.raw = 1 THEN IF a.e # "ok" THEN a ELSE [a EXCEPT !.v = v]
      ELSE IF b.e # "ok" THEN b ELSE IF b.v >= C.size THEN DNo(b) ELSE [b EXCEPT !.v = C.tab[b.v + 1]]
Put(s, q) == IF s.e # "ok" THEN s ELSE [s EXCEPT !.x.mtx = FoldLeft(LAMBDA m, ij : [m EXCEPT ![ij[1]][ij[2]] = s.v], @, q)]
Entry(s, C, a, b, sep, sym) ==
  LET i == a[2] i2 == a[3] j == b[2] j2 == b[3]
      One(t, q) == Put(Gain(t, C), q)
  IN  CASE a[1] # "pair" /\ b[1] # "pair" -> One(s, <<<<i, j>>>>)
        [] a[1] # "pair" /\ b[1] = "pair" ->
             IF sym = 1 /\ ~(a[1] = "single" /\ C.full = 1) THEN One(s, <<<<i, j>>, <<i, j2>>>>) ELSE One(One(s, <<<<i, j>>>>), <<<<i, j2>>>>)
        [] a[1] = "pair" /\ b[1] # "pair" -> IF sym = 1 THEN One(s, <<<<i, j>>, <<i2, j>>>>) ELSE One(One(s, <<<<i, j>>>>), <<<<i2, j>>>>)
        [] sep = 1 /\ sym = 1 -> One(s, <<<<i, j>>, <<i2, j2>>>>)
        [] sep = 0 /\ sym = 1 -> One(One(s, <<<<i, j>>, <<i2, j2>>>>), <<<<i, j2>>, <<i2, j>>>>)
        [] sep = 1 /\ sym = 0 -> One(One(s, <<<<i, j>>>>), <<<<i2, j2>>>>)
        [] OTHER -> One(One(One(One(s, <<<<i, j>>>>), <<<<i, j2>>>>), <<<<i2, j>>>>), <<<<i2, j2>>>>)
\* the matrix from the loudspeakers of lin (layout ci, or 0) to those of layout co
DmxMatrix(s0, ci, lin, co) ==
  LET lout == Layout(co)
      cin == Compact(lin)
      cout == Compact(lout)
      ni == Len(cin) no == Len(cout)
      LfeI(i) == Spk(lin[cin[i][2]])[3]
      LfeO(j) == Spk(lout[cout[j][2]])[3]
      eq == RIn(s0, 1, {0, 0, 1})
      e1 == IF eq.e = "ok" /\ eq.v = 1 THEN Equalizers(eq, Len(lin)) ELSE eq
      pr == RIn(e1, 2, 0..2)
      mx == EscIn(pr, 3, 4, 0, 0..12)
      mx1 == Out(mx, mx.v)
      mn == EscIn(mx1, 4, 5, 0, 0..40)
      mn1 == Out(mn, -mn.v - 1)
      Sep(t, v) == IF t.e = "ok" THEN [t EXCEPT !.x.sep = Append(@, v)] ELSE t
      Sym(t, v) == IF t.e = "ok" THEN [t EXCEPT !.x.sym = Append(@, v)] ELSE t
      as == Rd(mn1, 1)
      sp == Times(as, no, LAMBDA t, j : IF cout[j][1] # "pair" THEN Sep(t, 0) ELSE IF as.v = 1 THEN Sep(t, 1) ELSE LET u == Rd(t, 1) IN Sep(u, u.v))
      ay == Rd(sp, 1)
      sy == Times(ay, no, LAMBDA t, j : IF ay.v = 1 THEN Sym(t, 1) ELSE LET u == Rd(t, 1) IN Sym(u, u.v))
      lf == Rd(sy, 1)
      rw == Rd(lf, 1)
      Cells == [k \in 1..(ni * no) |-> <<((k - 1) \div no) + 1, ((k - 1) % no) + 1>>]
      Apart(c) == lf.v = 1 /\ LfeI(c[1]) # LfeO(c[2])
      Both(c) == lf.v = 1 /\ LfeI(c[1]) = 1 /\ LfeO(c[2]) = 1
      Cmp(t, v) == IF t.e = "ok" THEN [t EXCEPT !.x.cmp = Append(@, v)] ELSE t
      plain == Times(rw, ni * no, LAMBDA t, k : IF Apart(Cells[k]) THEN Cmp(t, 0) ELSE LET u == Rd(t, 1) IN Cmp(u, u.v))
      \* run lengths of zeros
      tm == RdIn(rw, 1, IF TemplateOf(ci, co) = <<>> THEN {0} ELSE {1, 1, 0})
      tmpl == IF tm.v = 1 THEN TemplateOf(ci, co) ELSE <<>>
      cells == SelectSeq(Cells, LAMBDA c : ~Apart(c) /\ ~Both(c))
      total == Len(cells)
      tm1 == IF tm.e # "ok" THEN tm ELSE IF tm.v = 1 /\ tmpl = <<>> THEN DNo(tm) ELSE IF total = 0 THEN Fail(tm, "any") ELSE tm
      lg == RdIn(tm1, IF total >= 256 THEN 4 ELSE 3, 0..4)
      Run(t, k) ==
        LET at == Len(t.x.q)
            g == Golomb(t, total \div Pow2[lg.v], lg.v, 0, IF RandomElement(1..(4 * Wild)) = 1 THEN 0..(total + 5) ELSE 0..(IF total - at < 9 THEN total - at ELSE 9))
        IN  IF at >= total THEN t
            ELSE IF g.e # "ok" THEN g
            ELSE IF at + g.v > total THEN DNo(g)
            ELSE [g EXCEPT !.x.q = @ \o [i \in 1..g.v |-> 0] \o (IF at + g.v < total THEN <<1>> ELSE <<>>)]
      fl == Times([lg EXCEPT !.x.q = <<>>, !.x.d = 0], total, Run)
      \* the cells of low frequency effects follow in between
      coded == Times(fl, ni * no, LAMBDA t, k :
                 LET c == Cells[k] u == Rd(t, 1)
                     z == t.x.q[t.x.d + 1]
                     w == IF tmpl = <<>> THEN z ELSE (z + tmpl[k]) % 2
                 IN  IF Both(c) THEN Cmp(u, u.v) ELSE IF Apart(c) THEN Cmp(t, 0) ELSE [Cmp(t, w) EXCEPT !.x.d = @ + 1])
      cm == IF rw.e # "ok" THEN rw ELSE IF rw.v = 1 THEN plain ELSE IF fl.e # "ok" THEN fl ELSE coded
      fu == Rd(cm, 1)
      rg == Rd(fu, 1)
      gl == IF rg.e = "ok" /\ rg.v = 0 THEN RdIn(rg, 3, 0..4) ELSE [rg EXCEPT !.v = 0]
      gl1 == IF gl.e = "ok" /\ pr.v > 2 THEN DNo(gl) ELSE gl
      gain == [raw |-> rg.v, full |-> fu.v, lg |-> gl.v, mx |-> mx.v, mn |-> -mn.v - 1, pr |-> pr.v,
               size |-> (mx.v + mn.v + 1) * Pow2[pr.v] + 2, tab |-> IF rg.v = 1 \/ gl1.e # "ok" THEN <<>> ELSE GainTable(-mn.v - 1, mx.v, pr.v)]
      start == [gl1 EXCEPT !.x.mtx = [i \in 1..Len(lin) |-> [j \in 1..Len(lout) |-> DmxMute]]]
      z == Times(start, ni * no, LAMBDA t, k :
             IF t.x.cmp[k] = 0 THEN t ELSE Entry(t, gain, cin[Cells[k][1]], cout[Cells[k][2]], t.x.sep[Cells[k][2]], t.x.sym[Cells[k][2]]))
  IN  IF mn.e # "ok" THEN mn ELSE IF cm.e # "ok" THEN cm ELSE IF gl1.e # "ok" THEN gl1 ELSE IF z.e # "ok" THEN z
      ELSE OutAll(z, z.x.sep \o z.x.sym \o z.x.cmp \o FlattenSeq(z.x.mtx) \o [i \in 1..Len(lin) |-> 0])
=============================================================================
