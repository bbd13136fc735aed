-------------------------------- MODULE Side --------------------------------
(* The side interfaces of the decoder: element interaction, local set-up (loudspeakers or binaural data), scene displacement. *)
EXTENDS Config

Bad(s) == Fail(s, "reject")
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SX0 == CX0 @@ [ty |-> 0]
-----------------------------------------------------------------------------
(* Element interaction.  A scene is <<>> (none known yet) or
   [g |-> <<<<group id, position interactivity, gain interactivity>>, ...>>, p |-> <<preset ids>>].                       *)
IaGroups(sc) == {sc.g[i][1] : i \in 1..Len(sc.g)}
IaPresets(sc) == {sc.p[i] : i \in 1..Len(sc.p)}
Known(sc) == sc # <<>>
\* where the scene lets a group be moved or scaled, the data may be required to say how: either outcome
Must(s, sc, f) == IF s.e = "ok" /\ s.v = 0 /\ Known(sc) /\ (\E i \in 1..Len(sc.g) : sc.g[i][f] = 1) THEN [s EXCEPT !.x = TRUE] ELSE s
InterGroup(s, sc) ==
  LET a == RIn(s, 7, IF Known(sc) THEN IaGroups(sc) ELSE {})
      on == R(IF a.e = "ok" /\ Known(sc) /\ a.v \notin IaGroups(sc) THEN Bad(a) ELSE a, 1)
      ro == R(on, 1)
      w == If(ro, ro.v = 1, LAMBDA t : R(t, 16))
      cp == Must(RIn(w, 1, {1}), sc, 2)
      ps == If(cp, cp.v = 1, LAMBDA t : R(R(R(t, 8), 6), 4))
      cg == Must(RIn(ps, 1, {1}), sc, 3)
  IN  IF w.e # "ok" \/ on.v = 0 THEN w ELSE If(cg, cg.v = 1, LAMBDA t : R(t, 7))
Interaction(s0, sc) ==
  LET s == [s0 EXCEPT !.x = FALSE]
      l == RIn(s, 8, 0..4)
      t == If(l, l.v > 0, LAMBDA u : Times(R(u, 8), l.v, LAMBDA w, i : R(w, 8)))
      m == RIn(t, 1, IF Known(sc) /\ sc.p # <<>> THEN {1} ELSE {0, 1})
      m1 == IF m.e = "ok" /\ Known(sc) /\ sc.p # <<>> /\ m.v = 0 THEN Bad(m) ELSE m
      n == RIn(m1, 7, IF Known(sc) THEN {Len(sc.g)} ELSE 0..5)
      n1 == IF n.e = "ok" /\ Known(sc) /\ n.v # Len(sc.g) THEN Bad(n) ELSE n
      p == If(n1, m.v = 1, LAMBDA u : RIn(u, 5, IF Known(sc) THEN IaPresets(sc) ELSE {}))
      p1 == IF p.e = "ok" /\ m.v = 1 /\ Known(sc) /\ p.v \notin IaPresets(sc) THEN Bad(p) ELSE p
      g == Times(p1, n.v, LAMBDA u, i : InterGroup(u, sc))
      z == R(g, 1)
      e == If(z, z.v = 1, LAMBDA u : R(R(R(R(u, 10), 10), 9), 10))
      \* once "any", always "any", unless the data stops being readable or valid before: then an error anyway
  IN  IF ~e.x THEN e ELSE IF e.e = "ok" THEN Fail(e, "any") ELSE [e EXCEPT !.e = "reject"]

-----------------------------------------------------------------------------
Displacement(s) == R(R(R(R(R(R(s, 9), 9), 9), 8), 6), 4)

-----------------------------------------------------------------------------
\* loudspeakers: v := number of loudspeakers, x.c[1] := layout (0: not a layout)
Geo(q) == FoldLeft(LAMBDA a, i : a \o Spk(i), <<>>, q)
NLfe(q) == Len(SelectSeq(q, LAMBDA i : Spk(i)[3] = 1))
Speakers(s) ==
  LET t == SpeakerConfig([s EXCEPT !.o = <<>>], FALSE)
      ty == t.o[1]
      q == IF ty = 0 THEN Layout(t.o[2]) ELSE SubSeq(t.o, 3, Len(t.o))
      u == IF t.e \in {"ok", "short"} THEN t ELSE Bad([t EXCEPT !.e = "ok"])
      r == IF t.o # <<>> /\ ty = 3 THEN [t EXCEPT !.e = "any"]
           ELSE IF u.e # "ok" THEN u
           ELSE IF ty = 0 /\ ~IsLayout(u.o[2]) THEN Bad(u)
           ELSE IF ty = 2 THEN [u EXCEPT !.v = u.x.c[2], !.o = s.o \o @]
           ELSE [u EXCEPT !.v = Len(q), !.o = s.o \o @ \o <<Len(q) - NLfe(q), NLfe(q)>> \o Geo(q)]
  IN  [r EXCEPT !.x.ty = IF t.o = <<>> THEN 0 ELSE ty]

LoudSpk(s) ==
  LET n == RIn(s, 16, 1..8)
      n1 == IF n.e = "ok" /\ n.v > 24 THEN Bad(n) ELSE n
      c == Speakers(n1)
      d == Rd(c, 1)
      g == Rd(d, 1)
      t == R(g, 1)
      One(u, i) ==
        LET k == R(u, 1)
            a == Rd(k, 9)
            a1 == Out(a, Clamp(a.v - 256, -180, 180))
            b == Rd(a1, 8)
            b1 == Out(b, Clamp(b.v - 128, -90, 90))
            p == IF c.x.ty > 1 THEN u ELSE IF k.e = "ok" /\ k.v = 1 THEN b1 ELSE k
            e == RIn(p, 10, 1..1023)
            e1 == IF d.v = 0 THEN p ELSE IF e.e = "ok" /\ e.v = 0 THEN Bad(e) ELSE e
            f == Rd(e1, 7)
        IN  IF g.v = 0 THEN e1 ELSE Out(f, f.v - 64)
  IN  R(Times(t, n.v, One), 1)

\* binaural data; only the last representation stays.  32-bit words are observed as halves
Words(s, n) == IF s.e # "ok" THEN s ELSE IF (s.g /\ n > 600) \/ (~s.g /\ s.p + 32 * n > s.n) THEN Fail(s, Short) ELSE Times(s, n, LAMBDA t, i : R2(t, 32))   \* a generator cuts the data there
Skip32(s, n) == Times(s, n, LAMBDA t, i : Rd(Rd(t, 16), 16))
FreqTab == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350, AnyValue, AnyValue, 57600,
             51200, 40000, 38400, 34150, 28800, 25600, 20000, 19200, 17075, 14400, 12800, 9600, AnyValue, AnyValue, AnyValue>>
Fir(s, pairs) ==
  LET n == RIn(s, 24, {0, 1, 2, 5, 8})
      t == IF n.e = "ok" /\ n.v > 48000 THEN Bad(n) ELSE Words(n, 2 * pairs * n.v)
      a == R(t, 16)
      b == R(a, 16)
  IN  IF b.e # "ok" THEN b ELSE IF a.v # 0 \/ b.v # 0 THEN b ELSE Words(b, 2 * pairs)
Td(s, pairs) ==
  LET a == R(s, 16)
      l == RIn(a, 16, {0, 1, 2, 5, 8})
      d == RIn(l, 8, 0..2)
      t == IF d.e = "ok" /\ (l.v > 8192 \/ d.v > 2) THEN Bad(d) ELSE d
  IN  Words(Words(Words(Words(Words(t, 2 * pairs), 2 * d.v), pairs), 2 * pairs * l.v), 2 * d.v * l.v)
Representation(s0, i, n) ==
  LET s == [s0 EXCEPT !.o = <<>>]
      f == Rd(s, 5)
      f1 == IF f.e # "ok" THEN f ELSE IF f.v = 31 THEN LET u == Rd(f, 24) IN Out(Out(u, u.v \div 65536), u.v % 65536)
            ELSE IF FreqTab[f.v + 1] = AnyValue THEN OutAll(f, <<AnyValue, AnyValue>>) ELSE OutAll(f, <<FreqTab[f.v + 1] \div 65536, FreqTab[f.v + 1] % 65536>>)
      h == RIn(f1, 1, {0, 0, 1})
      c == Speakers(h)
      np == IF c.e # "ok" THEN c ELSE IF c.x.ty = 0 THEN EscIn(c, 5, 8, 0, 0..20) ELSE [c EXCEPT !.v = @ - 1]
      ho == EscIn(h, 3, 5, 0, 0..3)
      p == IF h.e # "ok" THEN h ELSE IF h.v = 0 THEN Out([np EXCEPT !.v = @ + 1], np.v + 1) ELSE Out([ho EXCEPT !.v = (@ + 1) * (@ + 1)], (ho.v + 1) * (ho.v + 1))
      pairs == p.v
      fm == RdIn(p, 2, {0, 2, 2})
      al == IF fm.e = "ok" /\ pairs > 21 THEN Bad(fm) ELSE Skip(fm, (8 - (fm.p % 8)) % 8)
  IN  IF fm.e # "ok" THEN fm
      ELSE IF al.e # "ok" THEN al
      ELSE IF fm.v = 2 THEN Td(Out(al, 2), pairs)
      ELSE IF fm.v = 0 THEN Fir(Out(al, 0), pairs)
      ELSE Bad(al)
Binaural(s) ==
  LET a == Skip(Skip(s, 32), 8)
      n == RdIn(a, 8, 0..5)
      b == Skip(n, IF n.e = "ok" THEN 8 * n.v ELSE 0)
      c == RIn(Rd(b, 1), 4, {1, 1, 2})
      m == c.v
      z == Times([c EXCEPT !.o = <<>>], m, LAMBDA t, i : Representation(t, i, m))
  IN  IF c.e # "ok" THEN c ELSE IF m = 0 THEN c ELSE [z EXCEPT !.o = c.o \o @]

\* local set-up: wires may be as many as there are signals
LocalScreen(s) ==
  LET c == Rd(s, 1)
      l == Rd(c, 10) r == Rd(l, 10)
      w == Rd(c, 9)
      a == IF c.e # "ok" THEN c ELSE IF c.v = 0 THEN OutAll(r, <<AnyValue, l.v, r.v>>) ELSE OutAll(w, <<w.v, AnyValue, AnyValue>>)
      e == R(a, 1)
  IN  IF e.e # "ok" \/ e.v = 0 THEN e ELSE R(R(e, 9), 9)
LocalSetup(s, wires) ==
  LET a == R(s, 1)
      b == IF a.e # "ok" THEN a ELSE IF a.v = 1 THEN Binaural(a) ELSE LoudSpk(a)
      n == RdIn(b, 16, 0..wires)
      c == IF n.e = "ok" /\ n.v > wires THEN Bad(n) ELSE Times(n, n.v, LAMBDA t, i : R(t, 16))
      h == R(IF c.e = "ok" THEN OutAll(c, [i \in 1..(wires - n.v) |-> AnyValue]) ELSE c, 1)    \* unused entries are not observed
  IN  IF h.e # "ok" \/ h.v = 0 THEN h ELSE LocalScreen(h)
=============================================================================
