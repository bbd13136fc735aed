-------------------------------- MODULE Mhas --------------------------------
(* MHAS packets: header coding and the packet loop that leads to the next configuration, frame or PCM packet. *)
EXTENDS Asi

\* packet header: type, label (two halves: it can reach 2^32 + 257, kept modulo 2^32), length
PType(s)  == EscIn(s, 3, 8, 8, 0..25)
PLabel(s) ==      \* returns the state with v = low 31 bits view <<hi, lo>> kept in x.c
  LET a == RdIn(s, 2, 0..3) IN
  IF a.e # "ok" THEN a
  ELSE IF a.v # 3 THEN [a EXCEPT !.x.c = <<0, a.v>>]
  ELSE LET b == Rd(a, 8) IN
       IF b.e # "ok" THEN b
       ELSE IF b.v # 255 THEN [b EXCEPT !.x.c = <<0, 3 + b.v>>]
       ELSE LET h == Rd(b, 16) l == Rd(h, 16)
                lo == l.v + 258
            IN  IF l.e # "ok" THEN l
                ELSE [l EXCEPT !.x.c = <<(h.v + (lo \div 65536)) % 65536, lo % 65536>>]
PLen(s, S) == EscIn(s, 11, 24, 24, S)

Header(s, S) ==
  LET a == PType(s)
      t == a.v
      b == PLabel(a)
      lab == b.x.c
      c == PLen(b, S)
  IN  IF c.e # "ok" THEN c ELSE [c EXCEPT !.x.c = <<t, lab, c.v>>]

CFG == 1  FRAME == 2  ASI == 3  SYNC == 6  EARCON == 19  PCMCFG == 20  PCMDATA == 21  LOUD == 22

SkipTo(s, start, len) == IF s.e # "ok" THEN s ELSE Skip(s, 8 * len - (s.p - start))
Quiet(s, o) == [s EXCEPT !.o = o]         \* forget what a nested grammar observed

\* x carries the scene record plus: c scratch (header), k packets so far
\* the walk: reads packets until one the caller must handle; observes the handled packet and the side effects
RECURSIVE Walk(_, _, _)
Walk(s, acc, fresh) ==
  LET h == Header(s, {0, 1, 2, 5, 20})
      ty == h.x.c[1]  lab == h.x.c[2]  len == h.x.c[3]
      start == h.p
      done(u, a) == OutAll(u, <<ty, lab[1], lab[2], len \div 65536, len % 65536, a.asi, a.ear>>)
      back(u) == [u EXCEPT !.x = h.x, !.o = h.o]
  IN  IF h.e # "ok" THEN h
      ELSE CASE ty \in {CFG, FRAME} -> done(h, acc)
             [] ty = SYNC -> LET t == Rd(h, 8) IN
                  IF t.e # "ok" THEN t
                  ELSE IF t.v # 165 \/ len # 1 THEN Fail(t, "IA_MPEGH_DEC_INIT_FATAL_MHAS_SYNCWORD_MISMATCH")
                  ELSE Walk(t, acc, fresh)
             [] ty = ASI -> LET t == SkipTo(back(Scene(h)), start, len) IN
                  IF t.e # "ok" THEN t ELSE Walk(t, [acc EXCEPT !.asi = 1], fresh)
             [] ty = EARCON -> LET t == SkipTo(back(Earcons(h)), start, len) IN
                  IF t.e # "ok" THEN t ELSE Walk(t, [acc EXCEPT !.ear = 1], fresh)
             [] ty = PCMCFG -> LET t == SkipTo(back(PcmConfig(h)), start, len) IN done(t, acc)
             [] ty = PCMDATA ->     \* under the configuration an earlier packet left; none here unless fresh
                  IF ~fresh THEN Fail(h, "any")
                  ELSE LET d == PcmData(h, <<0, 0, 0, 0>>) IN done(SkipTo(back(d), start, len), acc)
             [] ty = LOUD -> Fail(h, "any")          \* decided by the loudness grammar
             [] OTHER -> LET t == Skip(h, 8 * len) IN IF t.e # "ok" THEN t ELSE Walk(t, acc, fresh)

Packets(s, fresh) == Walk([s EXCEPT !.x = X0], [asi |-> 0, ear |-> 0], fresh)
=============================================================================
