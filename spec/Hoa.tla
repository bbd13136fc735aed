--------------------------------- MODULE Hoa ---------------------------------
(* Higher order ambisonics: frame side information over the history of frames, and rendering matrices.
   The configuration is in Config.tla (HoaConfig).                                                       *)
EXTENDS Config, HoaRom

No(s) == Fail(s, "reject")
Need(s, c) == IF s.e = "ok" /\ ~c THEN No(s) ELSE s
Rarely(S, E) == IF RandomElement(1..40) = 1 THEN E ELSE S

\* what the frames need to know of a configuration: c the state after HoaConfig
HoaParams(c, ntr) ==
  LET o == c.o
      k == IF o[3] = 1 THEN 4 ELSE 0
      order == o[1]
      nco == o[15 + k]
      minc == o[16 + k]
      cvl == o[8 + k]
      ab == CeilLog2(nco)
      MaxIds == CHOOSE i \in 1..60 : i * ab + CeilLog2(i) >= nco /\ \A h \in 1..(i - 1) : h * ab + CeilLog2(h) < nco
      off == IF cvl = 0 THEN 1 ELSE minc + 1
      amp == CeilLog2((3 * nco) \div 2)
  IN  [ntr |-> ntr, addl |-> o[17 + k], order |-> order, nco |-> nco, minc |-> minc, maxadd |-> o[18 + k], single |-> o[5 + k],
       cvl |-> cvl, vq |-> o[12 + k], nd |-> o[13 + k] + 1, nsf |-> o[14 + k] + 1,
       mbits |-> CeilLog2(o[18 + k]), ab |-> ab, nab |-> CeilLog2(IF MaxIds - 1 > 1 THEN MaxIds - 1 ELSE 1),
       amp |-> amp, gbits |-> CeilLog2(amp + o[9 + k] + 1), off |-> off, vlen |-> nco - off + 1]

\* channels before the first frame
Chan0 == [ty |-> 0, ts |-> 0, ai |-> 0, nq |-> 0, pf |-> 0, cb |-> 0, ck |-> 0, nv |-> 0]
HoaX0 == [ch |-> [i \in 1..24 |-> Chan0], fi |-> {}, nt |-> {}, nw |-> {}, dir |-> <<>>, vec |-> <<>>, m |-> <<>>]

\* zeros up to a one; the value is their number + 1
RECURSIVE OneAt(_, _, _, _)
OneAt(b, p, n, k) == IF p >= n \/ k = 0 THEN p ELSE IF BitAt(b, p) = 1 THEN p ELSE OneAt(b, p + 1, n, k - 1)
RECURSIVE LaterOne(_, _, _)
LaterOne(b, p, n) == IF p >= n THEN p ELSE LET q == OneAt(b, p, n, 200) IN IF q >= n \/ BitAt(b, q) = 1 THEN q ELSE LaterOne(b, q, n)
Unary(s, S) ==
  IF s.e # "ok" THEN s
  ELSE IF s.g THEN LET z == RandomElement(S) IN [s EXCEPT !.a = @ \o [i \in 1..(z + 1) |-> IF i = z + 1 THEN 1 ELSE 0], !.p = @ + z + 1, !.v = z + 1]
  ELSE LET q == LaterOne(s.b, s.p, s.n) IN IF q >= s.n THEN [s EXCEPT !.e = Short] ELSE [s EXCEPT !.v = q - s.p + 1, !.p = q + 1]
GainExp(s) ==
  LET u == Unary(s, Rarely(0..6, {63, 64, 65, 66, 80}))
      t == Need(u, u.v <= 65)
  IN  R(Out(t, t.v), 1)
AmpExp(s, P, ind) == IF ind = 0 THEN s ELSE LET t == Rd(s, P.gbits) IN Out(t, t.v - P.amp)

Set(s, i, f, v) == IF s.e # "ok" THEN s ELSE
  [s EXCEPT !.x.ch[i] = CASE f = "ty" -> [@ EXCEPT !.ty = v] [] f = "ts" -> [@ EXCEPT !.ts = v] [] f = "ai" -> [@ EXCEPT !.ai = v] [] f = "nq" -> [@ EXCEPT !.nq = v]
                          [] f = "pf" -> [@ EXCEPT !.pf = v] [] f = "cb" -> [@ EXCEPT !.cb = v] [] f = "ck" -> [@ EXCEPT !.ck = v] [] f = "nv" -> [@ EXCEPT !.nv = v]]
RSet(s, i, f, n) == LET t == Rd(s, n) IN Set(t, i, f, t.v)

-----------------------------------------------------------------------------
\* an additional coefficient of the ambience
AmbIdx(s, i, P) ==
  LET c == RdIn(s, P.mbits, 0..(P.maxadd - 1))
      d == Need(c, c.v < P.maxadd)
  IN  Set(d, i, "ai", c.v + 1 + P.minc)
Ambient(s, i, P, ind) ==
  LET q == s.x.ch[i]
      a == IF ind = 1 THEN RdIn(s, 2, 0..2) ELSE Rd(s, 1)
      b == IF ind = 1 THEN AmbIdx(Set(Need(a, a.v # 3), i, "ts", a.v), i, P)
           ELSE IF a.v = 0 THEN Set(a, i, "ts", 0)
           ELSE IF q.ts <= 1 THEN Set(a, i, "ts", 2)
           ELSE AmbIdx(Set(a, i, "ts", 1), i, P)
      c == b.x.ch[i]
      d == OutAll(b, <<c.ts, c.ai>>)
  IN  IF d.e # "ok" \/ P.cvl # 1 THEN d
      ELSE IF c.ts = 1 THEN [d EXCEPT !.x.fi = @ \union {c.ai}]
      ELSE IF c.ts = 0 THEN [d EXCEPT !.x.nt = @ \union {c.ai}]
      ELSE d
\* a vector based signal: how its vector is coded
Vq(s, i, P) == LET a == RSet(s, i, "ck", 3) b == RdIn(a, P.vq, 0..(IF P.vq > 4 THEN 11 ELSE 0)) IN Set(b, i, "nv", b.v + 1)
Vector(s, i, P, ind) ==
  LET New(t) == [t EXCEPT !.x.nw = @ \union {i}]
      \* independent
      n == IF P.cvl = 1 THEN Rd(s, 1) ELSE s
      n1 == IF n.e = "ok" /\ P.cvl = 1 /\ n.v = 1 THEN New(n) ELSE n
      k == RdIn(n1, 4, {4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})
      k1 == Set(Need(k, k.v >= 4), i, "nq", k.v)
      kk == IF k.v = 4 THEN Vq(k1, i, P) ELSE IF k.v >= 6 THEN RSet(Set(k1, i, "pf", 0), i, "cb", 1) ELSE k1
      \* relative to the frame before
      d == IF P.cvl = 1 /\ s.x.ch[i].ty # 1 THEN New(s) ELSE s
      ba == Rd(d, 1)
      bb == Rd(ba, 1)
      c == Rd(bb, 2)
      nq == 8 * ba.v + 4 * bb.v + c.v
      c1 == Set(c, i, "nq", nq)
      dd == IF bb.e # "ok" \/ ba.v + bb.v = 0 THEN bb
            ELSE IF nq = 4 THEN Vq(c1, i, P) ELSE IF nq >= 6 THEN RSet(RSet(c1, i, "pf", 1), i, "cb", 1) ELSE c1
      z == IF ind = 1 THEN kk ELSE dd
      q == z.x.ch[i]
      o == IF P.cvl = 1 THEN Out(z, IF i \in z.x.nw THEN 1 ELSE 0) ELSE z
  IN  OutAll(Out(o, q.nq), IF q.nq = 4 THEN <<q.ck, q.nv>> ELSE IF q.nq >= 6 THEN <<q.pf, q.cb>> ELSE <<>>)
Coder(s, i, P, ind) ==
  LET a == RIn(s, 2, {0, 0, 1, 1, 1, 2, 2, 3})
      t == CASE a.v = 0 -> LET d == RIn(a, 10, Rarely(0..900, {900, 901, 1023})) IN Need(d, d.v <= 900)
             [] a.v = 1 -> Vector(a, i, P, ind)
             [] a.v = 2 -> Ambient(a, i, P, ind)
             [] OTHER -> a
      g == GainExp(AmpExp(t, P, ind))
      z == Set(g, i, "ty", a.v)
  IN  IF a.e # "ok" THEN a ELSE IF z.e # "ok" THEN z
      ELSE IF a.v = 0 THEN [z EXCEPT !.x.dir = Append(@, i)] ELSE IF a.v = 1 THEN [z EXCEPT !.x.vec = Append(@, i)] ELSE z
OtherCoder(s, P, ind) == GainExp(AmpExp(s, P, ind))

-----------------------------------------------------------------------------
\* the vector of one signal.  Elements transmitted as ambience are left out
HuffWord(s, n, k) ==
  LET t == HuffSym[n][k]
      e == RandomElement(1..n)
      c == HuffCodes[n - 5][k][e]
      Step(u, j) == IF u.x = -1 THEN LET w == Rd(u, 1) IN
                                     IF w.e # "ok" THEN [w EXCEPT !.x = -2]
                                     ELSE LET word == 2 * u.m + w.v q == <<j, word>> IN
                                          IF q \in DOMAIN t THEN [w EXCEPT !.x = t[q]] @@ [m |-> word] ELSE [w EXCEPT !.x = -1, !.m = word]
                    ELSE u
      u0 == [s EXCEPT !.x = -1] @@ [m |-> 0]
      z == FoldLeft(Step, u0, [j \in 1..15 |-> j])
  IN  IF s.e # "ok" THEN s
      ELSE IF s.g THEN [GenBits(s, c[2], c[3]) EXCEPT !.v = c[1]]
      ELSE [s EXCEPT !.e = z.e, !.p = z.p, !.v = IF z.e = "ok" THEN HuffCodes[n - 5][k][z.x][1] ELSE 0]
BookOf(h) == IF h >= 10 THEN 3 ELSE IF h >= 5 THEN 2 ELSE 1
VecData(s, i, P) ==
  LET q == s.x.ch[i]
      Gone(h) == h \in s.x.nt \/ (i \in s.x.nw /\ h \in s.x.fi)
      H == [j \in 1..P.vlen |-> P.off + j - 1]
      \* one of a code book of vectors, or several with weights
      nb == IF q.ck >= 4 THEN P.ab ELSE IF q.ck = 0 THEN 10 ELSE 6
      lim == CASE q.ck = 0 -> 900 [] q.ck \in {1, 2} -> 34 [] q.ck = 7 -> (IF P.order = 4 THEN 32 ELSE P.nco) [] OTHER -> 2000
      top == Pow2[nb] - 1
      One(t, j) == LET u == RdIn(t, nb, 0..Rarely(IF lim - 1 < top THEN lim - 1 ELSE top, top)) IN
                   LET w == [u EXCEPT !.x.m = Append(@, u.v + 1)] IN R(Out(w, w.v + 1), 1)
      w0 == IF q.nv # 1 THEN R(s, 8) ELSE s
      w1 == Times([w0 EXCEPT !.x.m = <<>>], q.nv, One)
      w2 == Need(w1, w1.e # "ok" \/ \A j \in 1..Len(w1.x.m) : w1.x.m[j] <= lim)
      w3 == OutAll(w2, [j \in 1..P.vlen |-> IF Gone(H[j]) THEN 0 ELSE 1])
      Byte(t, j) == IF Gone(H[j]) THEN Out(t, 128) ELSE R(t, 8)
      Book(h) == IF q.cb = 1 THEN BookOf(h) ELSE IF q.pf = 1 THEN 4 ELSE 5
      Word(t, j) ==
        IF Gone(H[j]) THEN Out(t, 0)
        ELSE LET c == HuffWord(Out(t, 1), q.nq, Book(H[j]))
                 d == Out(c, c.v)
                 n == c.v
                 g == R(d, 1)
             IN  IF d.e # "ok" \/ n = 0 THEN d ELSE IF n = 1 THEN Out(g, 0) ELSE R(g, n - 1)
  IN  IF q.nq = 4 THEN w3 ELSE IF q.nq = 5 THEN Times(s, P.vlen, Byte) ELSE IF q.nq >= 6 THEN Times(s, P.vlen, Word) ELSE s

\* prediction from the directional signals
Prediction(s, P) ==
  LET nd == Len(s.x.dir)
      a == R(s, 1)
      k == R(a, 1)
      act0 == [k EXCEPT !.x.m = <<>>]
      Flag(t, j) == LET u == Rd(t, 1) IN IF u.e = "ok" /\ u.v = 1 THEN [u EXCEPT !.x.m = Append(@, j)] ELSE u
      all == Times(act0, P.nco, Flag)
      n == Rd(act0, P.nab)
      Id(t, j) == LET u == Need(RdIn(t, P.ab, 0..(P.nco - 1)), TRUE) IN LET w == Need(u, u.v < P.nco) IN IF w.e = "ok" THEN [w EXCEPT !.x.m = Append(@, w.v + 1)] ELSE w
      some == Times(n, n.v + 1, Id)
      p == IF k.v = 1 THEN some ELSE all
      cnt == Len(p.x.m)
      p1 == OutAll(Out(p, cnt), [j \in 1..P.nco |-> IF \E h \in 1..cnt : p.x.m[h] = j THEN 1 ELSE 0])
      nb == CeilLog2(nd + 1)
      Sig(t, j) == LET u == RdIn(t, nb, 0..nd) IN LET w == Need(u, u.v <= nd) IN
                   IF w.e # "ok" THEN w ELSE LET z == Out(w, IF w.v = 0 THEN 0 ELSE w.x.dir[w.v]) IN IF w.v = 0 THEN z ELSE [z EXCEPT !.x.fi = @ + 1]
      q == Times([p1 EXCEPT !.x.fi = 0], cnt * P.nd, Sig)
  IN  IF nd = 0 \/ P.single = 0 THEN Out(s, 0)
      ELSE IF a.e # "ok" \/ a.v = 0 THEN a
      ELSE IF q.e # "ok" THEN q ELSE Times(q, q.x.fi, LAMBDA t, j : R(t, P.nsf))

HoaFrame(s0, P, I) ==
  LET s == [s0 EXCEPT !.x.fi = {}, !.x.nt = {}, !.x.nw = {}, !.x.dir = <<>>, !.x.vec = <<>>]
      a == RIn(s, 1, I)
      ind == a.v
      b == Times(a, P.addl, LAMBDA t, i : Coder(t, i, P, ind))
      c == Times(b, P.ntr - P.addl, LAMBDA t, i : OtherCoder(t, P, ind))
      d == IF c.e # "ok" THEN c ELSE Times(c, Len(c.x.vec), LAMBDA t, i : VecData(t, c.x.vec[i], P))
  IN  IF d.e # "ok" THEN d ELSE Prediction(d, P)

\* one frame after the other, until one fails
RECURSIVE HoaFrames(_, _, _)
HoaFrames(s, fs, P) ==
  IF fs = <<>> THEN s
  ELSE LET t == HoaFrame([Reader(fs[1]) EXCEPT !.x = s.x, !.o = s.o], P, {0, 1}) IN
       IF t.e # "ok" THEN t ELSE HoaFrames(t, Tail(fs), P)

-----------------------------------------------------------------------------
(* Rendering matrices: gains from each coefficient to each loudspeaker of a layout.
   x.m: rows of <<sign, gain in eighths of a decibel>>; Mute is no gain at all                     *)
Mute == -99999
Log2(n) == CHOOSE k \in 0..20 : Pow2[k] <= n /\ n < Pow2[k + 1]
RangeCode(s, n) ==
  LET nb == Log2(n)
      unused == Pow2[nb + 1] - n
      a == Rd(s, nb)
      b == Rd(a, 1)
  IN  IF a.e # "ok" \/ a.v < unused THEN a ELSE [b EXCEPT !.v = 2 * a.v - unused + b.v]
\* coefficient index -> order, degree
OrderOf(i) == ISqrt(i)
Degree(i) == i - OrderOf(i) * OrderOf(i) - OrderOf(i)
\* left and right: <<j, partner>> in order of j
Pairs(lay) ==
  LET n == Len(lay)
      Mirror(j, h) == Spk(lay[j])[1] = -Spk(lay[h])[1] /\ Spk(lay[j])[2] = Spk(lay[h])[2] /\ Spk(lay[j])[3] = Spk(lay[h])[3]
      Step(acc, j) ==
        IF j \in acc.used \/ Spk(lay[j])[1] \in {0, 180, -180} THEN acc
        ELSE LET H == {h \in (j + 1)..n : h \notin acc.used /\ Mirror(j, h)} IN
             IF H = {} THEN [acc EXCEPT !.used = @ \union {j}]
             ELSE LET h == CHOOSE k \in H : \A m \in H : k <= m IN [used |-> acc.used \union {j, h}, q |-> Append(acc.q, <<j, h>>)]
  IN  FoldLeft(Step, [used |-> {}, q |-> <<>>], [j \in 1..n |-> j]).q
Matrix(s0, nco, lay) ==
  LET order == IF nco = 0 THEN -1 ELSE ISqrt(nco) - 1
      n == Len(lay)
      pr == R(s0, 2)
      nm == R(pr, 1)
      per == R(nm, 1)
      Limits(t, i) == LET a == EscIn(t, 3, 5, 6, Rarely(0..7, 8..60)) b == EscIn(a, 4, 5, 6, Rarely(0..16, 17..60)) IN
                      IF b.e # "ok" THEN b ELSE [b EXCEPT !.x.m = Append(@, <<-a.v, -a.v - b.v - 1>>)]
      li == Times([per EXCEPT !.x.m = <<>>], IF per.v = 1 THEN order + 1 ELSE 1, Limits)
      lim == IF per.v = 1 THEN li.x.m ELSE [i \in 1..(order + 1) |-> li.x.m[1]]
      l1 == IF li.e # "ok" THEN li ELSE OutAll(li, FlattenSeq(lim))
      fu == R(l1, 1)
      sp == RIn(fu, CeilLog2(order + 1), 0..order)
      s1 == IF fu.e # "ok" \/ fu.v = 1 THEN fu ELSE Need(sp, order < 0 \/ sp.v <= order)
      sparse == IF fu.v = 1 THEN 100 ELSE sp.v
      hasl == \E j \in 1..n : Spk(lay[j])[3] = 1
      lf == IF hasl THEN R(s1, 1) ELSE IF s1.e = "ok" THEN [s1 EXCEPT !.v = 0] ELSE s1
      lfe == lf.v
      pairs == SelectSeq(Pairs(lay), LAMBDA q : lfe = 1 \/ Spk(lay[q[1]])[3] = 0)
      np == Len(pairs)
      zp == R(lf, 1)
      av == R(zp, 1)
      nv == R(av, 1)
      as == R(nv, 1)
      ns == R(as, 1)
      \* x.m: per pair <<value symmetric, sign symmetric>>
      All(t, q) == IF t.e = "ok" THEN [t EXCEPT !.x.m = [j \in 1..np |-> q]] ELSE t
      Bits1(t, j) == LET u == Rd(t, 1) IN IF u.e = "ok" THEN [u EXCEPT !.x.m = Append(@, <<u.v, 0>>)] ELSE u
      Bits2(t, j) == LET u == Rd(t, 1) IN IF u.e = "ok" THEN [u EXCEPT !.x.m = Append(@, <<0, u.v>>)] ELSE u
      Bits3(t, j) == LET u == Rd(t, 1) IN IF t.x.m[j][1] = 1 THEN t ELSE IF u.e = "ok" THEN [u EXCEPT !.x.m[j] = <<0, u.v>>] ELSE u
      vs == Times(All(nv, <<>>), np, LAMBDA t, j : LET u == Rd(t, 1) IN IF u.e = "ok" THEN [u EXCEPT !.x.m[j] = <<u.v, 0>>] ELSE u)
      vsn == R(vs, 1)
      sym == IF av.e # "ok" THEN av
             ELSE IF av.v = 1 THEN All(av, <<1, 0>>)
             ELSE IF nv.e # "ok" THEN nv
             ELSE IF nv.v = 1 THEN IF vsn.e # "ok" \/ vsn.v = 0 THEN vsn ELSE Times(vsn, np, Bits3)
             ELSE IF as.e # "ok" THEN as
             ELSE IF as.v = 1 THEN All(as, <<0, 1>>)
             ELSE IF ns.e # "ok" THEN ns
             ELSE IF ns.v = 0 THEN All(ns, <<0, 0>>)
             ELSE Times([ns EXCEPT !.x.m = <<>>], np, Bits2)
      sy == sym.x.m
      ve == R(sym, 1)
      At(j) == {k \in 1..np : pairs[k][1] = j}
      ValSym == {j \in 1..n : \E k \in At(j) : sy[k][1] = 1}
      SigSym == {j \in 1..n : \E k \in At(j) : sy[k][2] = 1}
      Partner(j) == pairs[CHOOSE k \in At(j) : TRUE][2]
      Row(t, i1) ==
        LET i == i1 - 1
            o == OrderOf(i)
            deg == Degree(i)
            mir == IF deg >= 0 THEN 1 ELSE -1
            vert == deg # o /\ deg # -o
            row0 == [j \in 1..n |-> <<1, Mute>>]
            alph == Pow2[pr.v] * (lim[o + 1][1] - lim[o + 1][2]) + 2
            step == 8 \div Pow2[pr.v]
            Cell(u, k) ==
              LET j == n + 1 - k
                  row == u.x.m[i1]
                  h == IF i >= sparse * sparse THEN Rd(u, 1) ELSE [u EXCEPT !.v = 1]
                  g == RangeCode(h, alph)
                  val == IF g.v > alph - 2 THEN Mute ELSE 8 * lim[o + 1][1] - step * g.v
                  sg == Rd(g, 1)
                  Put(w, c) == IF w.e = "ok" THEN [w EXCEPT !.x.m[i1][j] = c] ELSE w
              IN  IF j \in ValSym THEN Put(u, <<mir * row[Partner(j)][1], row[Partner(j)][2]>>)
                  ELSE IF Spk(lay[j])[3] = 1 /\ lfe = 0 THEN u
                  ELSE IF h.e # "ok" \/ h.v = 0 THEN h
                  ELSE IF j \in SigSym THEN Put(g, <<mir * row[Partner(j)][1], val>>)
                  ELSE IF g.e = "ok" /\ val # Mute /\ (o > 0 \/ zp.v = 0) THEN Put(sg, <<2 * sg.v - 1, val>>)
                  ELSE Put(g, <<1, val>>)
            t1 == [t EXCEPT !.x.m = Append(@, row0)]
        IN  IF vert /\ ve.v = 0 THEN t1 ELSE Times(t1, n, Cell)
      z == IF ve.e # "ok" THEN ve ELSE Times([ve EXCEPT !.x.m = <<>>], nco, Row)
      \* normalised: only the relations between the gains remain
      flat == FlattenSeq([i \in 1..nco |-> [j \in 1..n |-> <<z.x.m[i][j][1], z.x.m[i][j][2], Spk(lay[j])[3]>>]])
      first == {i \in 1..Len(flat) : flat[i][3] = 0 /\ flat[i][2] # Mute}
      base == IF nm.v = 1 /\ first # {} THEN flat[CHOOSE i \in first : \A h \in first : i <= h][2] ELSE 0
      Show(c) == IF c[2] = Mute THEN <<0, 0>> ELSE <<c[1], c[2] - (IF c[3] = 0 THEN base ELSE 0)>>
  IN  IF z.e # "ok" THEN z ELSE [z EXCEPT !.x.m = FlattenSeq([i \in 1..Len(flat) |-> Show(flat[i])])]
\* the matrices of a configuration; that of the layout in use is kept (the last one)
Matrices(s, nco, cicp) ==
  LET a == RIn(s, 5, {0, 1, 1, 2, 3})
      One(t, k) ==
        LET i == Rd(t, 7)
            l == RdIn(i, 6, {cicp, cicp, 1, 2, 6, 20})
            l1 == Need(l, l.v <= 20)
            gen == Matrix([Generator EXCEPT !.x = t.x], nco, Layout(l.v))
            n == EscIn(l1, 8, 8, 12, IF ~s.g \/ l1.e # "ok" THEN {} ELSE IF l.v = cicp THEN {Len(gen.a)} ELSE {0, 1, 7, 40, 300})
            m == IF s.g THEN [n EXCEPT !.a = @ \o gen.a, !.p = @ + gen.p, !.e = gen.e, !.x = gen.x, !.o = @ \o gen.o]
                 ELSE Matrix([n EXCEPT !.o = <<>>], nco, Layout(l.v))
            \* the length only matters for whoever skips the matrix
            m1 == IF m.e = "ok" /\ m.p - n.p # n.v THEN Fail(m, "any") ELSE m
        IN  IF n.e # "ok" THEN n
            ELSE IF l.v # cicp THEN Skip(n, n.v)
            ELSE IF m1.e # "ok" THEN m1
            ELSE [m1 EXCEPT !.o = n.o, !.x.vec = m1.o \o m1.x.m, !.x.ai = k - 1]
      z == Times([a EXCEPT !.x.vec = <<>>, !.x.ai = -1], a.v, One)
  IN  IF z.x.ai = -1 THEN Out(z, 0) ELSE OutAll(z, <<1, z.x.ai>> \o z.x.vec)
HoaMX0 == [m |-> <<>>, vec |-> <<>>, ai |-> -1]
=============================================================================
