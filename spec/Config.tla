------------------------------- MODULE Config -------------------------------
(* mpegh3daConfig of ISO/IEC 23008-3 with the limits of the Low Complexity and Baseline profiles (levels 1 to 3)
   and of this decoder.  x of the reader state is a record: the audio scene scratch (X0 of Asi) plus
     cf  what the configuration established so far, lists of observed values where a later element replaces it *)
EXTENDS Asi, Layouts

Reject(s) == Fail(s, "reject")        \* must be refused, with whatever error

CF0 == [lt |-> 0, exty |-> <<>>, type |-> <<>>, nch |-> 0, nobj |-> 0, nhoa |-> 0, ngrp |-> 0, chg |-> 0, objg |-> 0, hoag |-> 0,
        ref |-> 0, refn |-> 0, elp |-> 0, ele |-> <<>>, oam |-> <<>>, enh |-> <<>>, prod |-> <<>>, hoa |-> <<>>, pre |-> 0, unidrc |-> 0,
        ncoef |-> 0, raw |-> <<>>, scene |-> <<>>, dmx |-> <<>>, dmxHit |-> 0, fc |-> 0, rate |-> 0, spk |-> <<>>, sig |-> <<>>, compat |-> <<>>, hoamtx |-> 0, ext |-> <<>>, loud |-> <<>>]
CX0 == X0 @@ [cf |-> CF0]
KeepX(t, s) == [t EXCEPT !.x = s.x]

\* run a nested grammar; what it observes becomes field f of cf
Sub(s, f, Op(_)) ==
  LET t == Op([s EXCEPT !.o = <<>>]) IN
  IF t.e # "ok" THEN t ELSE [t EXCEPT !.o = s.o, !.x = [t.x EXCEPT !.cf = [@ EXCEPT ![f] = t.o]]]

CeilLog2(v) == CHOOSE k \in 0..20 : Pow2[k] >= v /\ (k = 0 \/ Pow2[k - 1] < v)
ISqrt(v) == CHOOSE k \in 0..40 : k * k <= v /\ (k + 1) * (k + 1) > v

-----------------------------------------------------------------------------
\* SpeakerConfig3d
AzErr == "IA_MPEGH_DEC_INIT_FATAL_INVALID_AZ_ANG_IDX"
ElErr == "IA_MPEGH_DEC_INIT_FATAL_INVALID_EL_ANG_IDX"
SpkErr == "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_SPK_INDEX"
LayErr == "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CICP_LAYOUT_INDEX"
NumSpkErr == "IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SPKS_EXCEEDED"
\* one loudspeaker: v := 1 if a symmetric partner can follow; c := its entry and its mirror image
SpkDescr(s, prec) ==
  LET a == Rd(s, 1) IN
  IF a.e # "ok" THEN a
  ELSE IF a.v = 1 THEN
    LET b == RdIn(a, 7, 0..42) i == b.v IN
    IF b.e # "ok" THEN b ELSE IF i > MaxSpk THEN Fail(b, SpkErr)
    ELSE [b EXCEPT !.v = IF Spk(i)[1] \notin {0, 180} THEN 1 ELSE 0, !.x.c = <<<<1, i>>, <<1, AnyValue>>>>]
  ELSE
    LET b == Rd(a, 2)
        cls == b.v
        c == If(b, cls = 3, LAMBDA t : RdIn(t, IF prec = 1 THEN 7 ELSE 5, 0..18))
        el == IF cls = 3 THEN c.v ELSE 0
        c1 == IF c.e = "ok" /\ el > (IF prec = 1 THEN 90 ELSE 18) THEN Fail(c, ElErr) ELSE c
        d == If(c1, el # 0, LAMBDA t : Rd(t, 1))
        eld == IF el # 0 THEN d.v ELSE 0
        e == RdIn(d, IF prec = 1 THEN 8 ELSE 6, 0..36)
        azi == e.v
        e1 == IF e.e = "ok" /\ azi > (IF prec = 1 THEN 180 ELSE 36) THEN Fail(e, AzErr) ELSE e
        az == IF prec = 1 THEN azi ELSE 5 * azi
        f == If(e1, az \notin {0, 180}, LAMBDA t : Rd(t, 1))
        azd == IF az \notin {0, 180} THEN f.v ELSE 0
        g == Rd(f, 1)
        ent(dd) == <<0, cls>> \o (IF cls = 3 THEN <<IF eld = 1 THEN -el ELSE el>> ELSE <<>>) \o <<az, dd, g.v>>
    IN IF g.e # "ok" THEN g
       ELSE [g EXCEPT !.v = IF az \notin {0, 180} THEN 1 ELSE 0, !.x.c = <<ent(azd), ent(1 - azd)>>]
RECURSIVE FlexLoop(_, _, _, _)
FlexLoop(s, prec, n, i) ==        \* i loudspeakers described so far
  IF s.e # "ok" \/ i >= n THEN s
  ELSE LET a == SpkDescr(s, prec)
           pair == a.v = 1
           ents == a.x.c
           a1 == OutAll([a EXCEPT !.x = s.x], ents[1])
           c == If(a1, pair, LAMBDA t : Rd(t, 1))
           sym == pair /\ c.v = 1
       IN IF a.e # "ok" THEN a ELSE IF c.e # "ok" THEN c
          ELSE IF sym THEN FlexLoop(IF i + 1 < n THEN OutAll(c, ents[2]) ELSE c, prec, n, i + 2)
          ELSE FlexLoop(c, prec, n, i + 1)
Flex(s, n) == LET a == R(s, 1) IN IF a.e # "ok" THEN a ELSE FlexLoop(a, a.v, n, 0)

\* v := 0 and x.c := <<layout index, number of loudspeakers>>
SpeakerConfig(s, isRef) ==
  LET a == RIn(s, 2, IF isRef THEN {0, 0, 0, 1, 2, 3} ELSE {0, 0, 1, 2})
      ty == a.v
  IN  IF a.e # "ok" THEN a
      ELSE IF ty = 0 THEN
        LET b == RIn(a, 6, 1..20) IN
        IF b.e # "ok" THEN b
        ELSE IF b.v > MaxLayout \/ (isRef /\ b.v = 0) THEN Fail(b, LayErr)
        ELSE [b EXCEPT !.x.c = <<b.v, NumLs(b.v)>>]
      ELSE
        LET b == EscIn(a, 5, 8, 16, 0..6)
            n == b.v + 1
            b1 == IF b.e = "ok" /\ n > 24 THEN Fail(b, NumSpkErr) ELSE Out(b, n)
            Idx(t, k) == LET c == RIn(t, 7, 0..42) IN IF c.e = "ok" /\ c.v > MaxSpk THEN Fail(c, SpkErr) ELSE c
            d == IF b1.e # "ok" THEN b1 ELSE CASE ty = 1 -> Times(b1, n, Idx) [] ty = 2 -> Flex(b1, n) [] OTHER -> b1
        IN  IF d.e # "ok" THEN d
            ELSE IF ty = 2 /\ isRef THEN IF n > MaxLayout THEN Fail(d, LayErr) ELSE [d EXCEPT !.x.c = <<n, n>>]
            ELSE [d EXCEPT !.x.c = <<0, n>>]

-----------------------------------------------------------------------------
\* Signals3d
ChanErr == "IA_MPEGH_DEC_INIT_FATAL_STREAM_CHAN_GT_MAX"
Cf(s, f, v) == [s EXCEPT !.x.cf = [@ EXCEPT ![f] = v]]
Group(s, i) ==
  LET a == RIn(s, 3, {0, 0, 1, 1, 3})
      ty == a.v
      b == EscIn(a, 5, 8, 16, 0..3)
      n == b.v + 1
      b1 == Cf(Out(b, n), "type", Append(s.x.cf.type, ty))
      cf == s.x.cf
      Chn ==
        LET t == Cf(Cf(b1, "nch", cf.nch + n), "chg", cf.chg + 1)
            d == R(t, 1)
            e == SpeakerConfig(d, FALSE)
        IN IF cf.nch + n > 24 THEN Fail(b1, ChanErr)
           ELSE IF d.e # "ok" \/ d.v = 0 THEN d
           ELSE IF e.e # "ok" THEN e
           ELSE LET li == e.x.c[1] IN
                IF NumLs(li) # cf.nch + n /\ NumLs(li) > NumLs(cf.ref) THEN Fail(e, "IA_MPEGH_DEC_INIT_FATAL_INVALID_CONFIG_FOR_NUM_CH") ELSE e
  IN  IF b.e # "ok" THEN b
      ELSE CASE ty = 0 -> Chn
             [] ty = 1 -> IF n > 24 THEN Fail(b1, ChanErr) ELSE Cf(Cf(b1, "nobj", cf.nobj + n), "objg", cf.objg + 1)
             [] ty = 3 -> IF n > 24 THEN Fail(b1, ChanErr) ELSE Cf(Cf(b1, "nhoa", cf.nhoa + n), "hoag", cf.hoag + 1)
             [] ty = 2 -> Fail(b1, "any")         \* spatial audio objects: outside the supported profiles
             [] OTHER -> Fail(b1, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_SIG_GROUP_TYPE")

-----------------------------------------------------------------------------
\* configuration payloads of extension elements
ObjErr == "IA_MPEGH_OAM_INIT_FATAL_UNSUPPORTED_NUM_OBJS"
OamConfig(s, nobj) ==
  LET a == R(s, 1)
      b == Rd(a, 1)
      c == IF b.e # "ok" THEN b ELSE IF b.v = 1 THEN Out(b, 1024)
           ELSE LET f == RdIn(b, 6, {3, 7, 15}) IN
                IF f.e # "ok" THEN f
                ELSE IF f.v \notin {3, 7, 15} THEN Fail(f, "IA_MPEGH_OAM_EXE_FATAL_UNSUPPORTED_FRAMELENGTH")
                ELSE Out(f, (f.v + 1) * 64)
      d == Rd(c, 1)
      flags == IF d.e = "ok" /\ d.v = 1 THEN Times([d EXCEPT !.o = <<>>], nobj, LAMBDA t, k : R(t, 1)) ELSE [d EXCEPT !.o = <<>>]
      any1 == \E k \in 1..Len(flags.o) : flags.o[k] = 1
      e == IF d.e # "ok" THEN d ELSE [flags EXCEPT !.o = Append(c.o, IF any1 THEN 1 ELSE 0) \o (IF any1 THEN flags.o ELSE <<>>)]
  IN  IF s.e # "ok" THEN s ELSE IF nobj > 24 THEN Fail(s, ObjErr) ELSE R(R(e, 1), 1)

EnhConfig(s, nobj) ==
  LET a == R(s, 1)
      b == If(a, a.v = 1, LAMBDA t : R(t, 1))
      c == R(b, 1)
      d == IF c.e # "ok" THEN c ELSE IF c.v = 1 THEN R(c, 1) ELSE [c EXCEPT !.v = 0]
      common == d.v
      e == If(d, common = 1, LAMBDA t : R(t, 1))
      f == R(e, 1)
      g == If(f, f.v = 1, LAMBDA t : R(t, 7))
      \* x.c: <<with divergence, with a range above 0, without>>
      Obj(t, k) ==
        LET h == R(t, 1)
            div == h.v = 1
            i == If(h, div, LAMBDA u : R(u, 6))
            gt == div /\ i.v > 0
            j == If(i, common = 0, LAMBDA u : R(u, 1))
        IN IF j.e # "ok" THEN j
           ELSE [j EXCEPT !.x.c = <<@[1] + (IF div THEN 1 ELSE 0), @[2] + (IF gt THEN 1 ELSE 0), @[3] + (IF div THEN 0 ELSE 1)>>]
      o == Times([g EXCEPT !.x.c = <<0, 0, 0>>], nobj, Obj)
      n == o.x.c
  IN  IF s.e # "ok" THEN s ELSE IF nobj > 24 THEN Fail(s, ObjErr)
      ELSE IF o.e # "ok" THEN o
      ELSE IF 2 * n[1] + nobj > 24 \/ n[3] + 3 * n[2] > 16 THEN Fail(o, ObjErr)
      ELSE Out(o, n[1])

ProdConfig(s, objg, chg) ==
  LET a == R(s, 1)
      b == IF a.e # "ok" THEN a ELSE IF a.v = 1 THEN R(a, 7) ELSE Out(a, 57)
  IN  Times(Times(b, objg, LAMBDA t, k : R(t, 1)), chg, LAMBDA t, k : R(t, 1))

HoaConfig(s, ntr) ==
  LET Esc35(t, S) == EscIn(t, 3, 5, 0, S)
      a == Esc35(s, 0..6)
      order == a.v
      a1 == IF a.e = "ok" /\ order > 6 THEN Fail(a, "IA_MPEGH_HOA_INIT_NONFATAL_INVALID_HOA_ORDER") ELSE Out(a, order)
      nco == (order + 1) * (order + 1)
      b == R(R(a1, 1), 1)
      c == If(b, b.v = 1, LAMBDA t : R(R(R(R(t, 8), 8), 8), 8))
      top == IF ISqrt(ntr) - 1 < order THEN ISqrt(ntr) - 1 ELSE order
      d == Esc35(c, 0..(top + 1))
      mo == d.v - 1
      d1 == IF d.e = "ok" /\ mo > top THEN Fail(d, "IA_MPEGH_HOA_INIT_FATAL_INVALID_MIN_AMB_ORDER") ELSE Out(d, mo)
      minc == (mo + 1) * (mo + 1)
      e == R(R(R(d1, 1), 3), 1)
      f == RIn(e, 2, 0..2)
      f1 == IF f.e = "ok" /\ f.v = 3 THEN Fail(f, "IA_MPEGH_HOA_INIT_FATAL_INVALID_VEC_LENGTH") ELSE f
      g == R(f1, 3)
      h == RIn(g, 2, 0..2)
      h1 == IF h.e = "ok" /\ h.v = 3 THEN Fail(h, "IA_MPEGH_HOA_INIT_FATAL_INVALID_FRAME_LENGTH_INDICATOR") ELSE h
      i == IF h1.e # "ok" THEN h1
           ELSE IF mo >= order THEN [h1 EXCEPT !.v = order]
           ELSE LET u == RdIn(h1, CeilLog2(order - mo + 1), 0..(order - mo)) IN [u EXCEPT !.v = @ + mo]
      maxo == i.v
      i1 == IF i.e = "ok" /\ maxo > order THEN Fail(i, "IA_MPEGH_HOA_INIT_FATAL_INVALID_DIFF_ORDER") ELSE Out(i, maxo)     \* more than the order itself
      maxc == (maxo + 1) * (maxo + 1)
      j == IF i1.e = "ok" /\ maxc < minc THEN Fail(i1, "IA_MPEGH_HOA_INIT_FATAL_RENDER_MATRIX_INIT_FAILED")
           ELSE R(i1, CeilLog2(CeilLog2(nco + 1)))
      k == IF j.e = "ok" /\ j.v > 7 THEN Fail(j, "IA_MPEGH_HOA_INIT_FATAL_INVALID_NUM_VQ_ELE_BITS")
           ELSE If(j, mo = 1, LAMBDA t : RdIn(t, 1, {0}))
      k1 == IF k.e = "ok" /\ mo = 1 /\ k.v = 1 THEN Fail(k, "IA_MPEGH_HOA_INIT_FATAL_INVALID_CONFIG_LC_PROFILE") ELSE k
      l == R(R(k1, 2), 4)
      Zero(t) == LET u == RdIn(t, 2, {0}) IN IF u.e = "ok" /\ u.v > 0 THEN Fail(u, "IA_MPEGH_HOA_INIT_NONFATAL_INVALID_SUBBAND_CFG") ELSE u
      m == Zero(Zero(l))
      q == OutAll(m, <<nco, minc, IF ntr > minc THEN ntr - minc ELSE 0, maxc - minc>>)
  IN  IF q.e # "ok" THEN q ELSE Cf(q, "ncoef", nco)

-----------------------------------------------------------------------------
\* a payload of a coded length in bytes.  Lead reads what stands between the length and the payload.
LenEsc(s, S) == EscIn(s, 4, 8, 16, S)
Frame == "IA_MPEGH_DEC_EXE_FATAL_DECODE_FRAME_ERROR"
\* generation: the payload is generated first, so that a fitting length can be written before it
RoomFor(bits) == LET n == (bits + 7) \div 8 IN {n, n, n, n + 1, n + 2}
Sized(s, f, Op(_), Lead(_)) ==
  IF s.e # "ok" THEN s
  ELSE IF s.g THEN
    LET t == Op([s EXCEPT !.a = <<>>, !.p = 0])
        w == LenEsc(s, RoomFor(t.p))
        fill == 8 * w.v - t.p
        h == Lead(w)
        u == [h EXCEPT !.a = @ \o t.a, !.p = @ + t.p, !.x.cf = t.x.cf, !.v = w.v]
        z == Skip([u EXCEPT !.e = t.e], IF fill < 400 THEN fill ELSE 0)
    IN  IF t.e # "ok" THEN [u EXCEPT !.e = t.e] ELSE [z EXCEPT !.v = w.v]
  ELSE
    LET w == LenEsc(s, {})
        len == w.v
        w1 == IF w.e = "ok" /\ len >= 1536 /\ f = "ele" THEN Fail(w, Frame)
              ELSE IF w.e = "ok" /\ len > 1536 THEN Fail(w, "IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED")
              ELSE w
        h == Lead(w1)
        t == Op(h)
        used == t.p - h.p
    IN  IF t.e # "ok" THEN t
        ELSE IF used > 8 * len THEN Fail(t, Frame)
        ELSE [Skip(t, 8 * len - used) EXCEPT !.v = len]

Bytes(s, n) == Times(s, n, LAMBDA t, k : R(t, 8))
ExtErr == "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_EXT_ELEM_CONFIG"
\* head of an extension element: x.c = <<default length, fragmentation>>
EleHead(s) ==
  LET a == Rd(s, 1)
      b == If(a, a.v = 1, LAMBDA t : EscIn(t, 8, 16, 0, 0..5))
      def == IF a.v = 1 THEN b.v + 1 ELSE 0
      c == RdIn(b, 1, {0})
  IN  IF c.e # "ok" THEN c ELSE [c EXCEPT !.x.c = <<def, c.v, a.v>>]

ExtElement(s, i) ==
  LET a == EscIn(s, 4, 8, 16, {0, 3, 4, 5, 7, 9, 13, 14, 6, 20})
      ty == a.v
      cf == s.x.cf
      a1 == Cf(Cf(Out(a, ty), "lt", ty), "exty", Append(cf.exty, ty))
      \* payloads with a grammar
      Gram(Op(_), f) ==
        LET t == Sized(a1, "ele", LAMBDA u : LET q == Sub(u, f, Op) IN [q EXCEPT !.x.c = u.x.c], EleHead) IN
        IF t.e # "ok" THEN t
        ELSE OutAll(t, <<IF ty \in {5, 7} THEN t.v ELSE 0, t.x.c[1], t.x.c[2]>>)
      \* payloads kept as bytes, or skipped
      w == LenEsc(a1, CASE ty \in {0, 3} -> {0} [] ty = 9 -> 1..4 [] OTHER -> 0..6)
      len == w.v
      w1 == IF w.e = "ok" /\ len >= 1536 THEN Fail(w, Frame) ELSE w
      h == EleHead(w1)
      def == h.x.c[1]  frag == h.x.c[2]
      meta(t, n) == OutAll(t, <<n, def, frag>>)
  IN  IF a.e # "ok" THEN a
      ELSE CASE ty = 5 -> Gram(LAMBDA u : OamConfig(u, cf.nobj), "oam")
             [] ty = 13 -> Gram(LAMBDA u : EnhConfig(u, cf.nobj), "enh")
             [] ty = 14 -> Gram(LAMBDA u : ProdConfig(u, cf.objg, cf.chg), "prod")
             [] ty = 7 -> Gram(LAMBDA u : HoaConfig(u, cf.nhoa), "hoa")
             [] h.e # "ok" -> h
             [] ty = 4 -> IF frag # 0 \/ cf.unidrc = 1 THEN Fail(h, ExtErr) ELSE Bytes(Cf(meta(h, len), "unidrc", 1), len)
             [] ty = 9 -> IF frag # 0 \/ len = 0 THEN Fail(h, ExtErr) ELSE Bytes(meta(h, len), len)
             [] ty = 3 -> IF i # 1 \/ frag # 0 \/ h.x.c[3] # 0 \/ len # 0 THEN Fail(h, ExtErr) ELSE Cf(meta(h, 0), "pre", 1)
             [] ty = 0 -> IF len # 0 \/ frag # 0 THEN Fail(h, ExtErr) ELSE meta(h, 0)
             [] OTHER -> IF ~h.g /\ (h.n - h.p) \div 8 < len THEN Fail(h, Frame) ELSE Skip(meta(h, 0), 8 * len)

-----------------------------------------------------------------------------
\* decoder configuration
LcErr == "IA_MPEGD_DEC_INIT_FATAL_INVALID_CONFIG_FOR_LC_PROFILE"
CoreHead(s) ==      \* time-warping (must be off), full-band LPD, noise filling, enhanced noise filling and its parameters
  LET a == RdIn(s, 1, {0})
      a1 == IF a.e = "ok" /\ a.v = 1 THEN Fail(a, LcErr) ELSE a
      b == RIn(RIn(a1, 1, {0}), 1, {0, 0, 1})
      nf == b.v
      c == RIn(b, 1, {0, 0, 1})
      d == If(c, c.v = 1, LAMBDA t : R(R(R(R(R(R(t, 1), 1), 1), 1), 5), 4))
  IN  IF d.e # "ok" THEN d ELSE [d EXCEPT !.x.c = <<nf, c.v>>]
Ele(s, q) == Cf(s, "ele", Append(s.x.cf.ele, q))
Element(s, i) ==
  LET a == RIn(s, 2, {0, 0, 0, 1, 2, 3})
      ty == a.v
      cf == s.x.cf
      core == cf.nch + cf.nobj + cf.nhoa
      Sce == LET t == CoreHead(a) IN IF t.e # "ok" THEN t ELSE Ele(t, <<0, t.x.c[1], t.x.c[2]>>)
      Cpe ==
        LET t == CoreHead(a)
            enf == t.x.c[2]
            u == If(t, enf = 1, LAMBDA v : R(v, 1))
            q == RdIn(u, 2, {0})
            q1 == IF q.e = "ok" /\ q.v # 0 THEN Fail(q, LcErr) ELSE q
            sh == RdIn(q1, 1, {0, 0, 1})
            nb == CASE core \in 9..16 -> 4 [] core \in 5..8 -> 3 [] core \in 3..4 -> 2 [] OTHER -> 1
            r == If(sh, sh.v = 1, LAMBDA v : Rd(v, nb))
            z == R(r, 1)
        IN IF z.e = "ok" /\ core > 16 THEN Reject(z) ELSE IF z.e # "ok" THEN z ELSE Ele(z, <<1, t.x.c[1], enf>>)
  IN  IF a.e # "ok" THEN a
      ELSE CASE ty = 0 -> Sce [] ty = 1 -> Cpe [] ty = 2 -> Ele(a, <<2, 0, 0>>)
             [] ty = 3 -> LET t == ExtElement(a, i) IN IF t.e # "ok" THEN t ELSE Ele(t, <<3, t.x.cf.lt, 0>>)

ElementsOf(s) ==
  LET a == EscIn(s, 4, 8, 16, 0..4)
      n == a.v + 1
      b == IF a.e = "ok" /\ n > 50 THEN Fail(a, Frame) ELSE R(Out(a, n), 1)
  IN  IF b.e # "ok" THEN b ELSE Times(Cf(b, "elp", b.v), n, Element)

-----------------------------------------------------------------------------
\* configuration extensions
DmxConfig(s, ui) ==
  LET a == RIn(s, 2, 0..2)
      ty == a.v
      a1 == IF a.e = "ok" /\ ty = 3 THEN Fail(a, "IA_MPEGH_DEC_INIT_FATAL_INVALID_DMX_CONF_TYPE") ELSE a
      Passive(t) ==
        LET b == R(t, 1)
            c == If(b, b.v = 0, LAMBDA u : LET v == RdIn(u, 3, {0}) IN IF v.e = "ok" /\ v.v # 0 THEN Fail(v, LcErr) ELSE v)
        IN R(c, 1)
      b1 == If(a1, ty \in {0, 2}, Passive)
      Mtx(t, k) ==
        LET c == EscIn(t, 1, 4, 4, 0..3)
            n == c.v + 1
            c1 == IF c.e = "ok" /\ c.v >= 16 THEN Fail(c, "IA_MPEGH_DEC_EXE_FATAL_MAX_ASSIGNED_GRP_IDS_EXCEEDED") ELSE Out(c, n)
            d == Times(c1, n, LAMBDA u, j : R(u, 5))
            e == EscIn(d, 8, 8, 12, {0, 1, 7, 8, 9, 40})
            bits == e.v
            e1 == IF e.e = "ok" /\ bits > 2048 THEN Fail(e, "IA_MPEGH_DEC_EXE_FATAL_MAX_DMX_MATRIX_ELEMENTS_EXCEEDED") ELSE Out(e, bits)
            f == Times(e1, bits \div 8, LAMBDA u, j : R(u, 8))
            rest == bits % 8
        IN  IF f.e # "ok" \/ rest = 0 THEN f ELSE LET g == Rd(f, rest) IN Out(g, g.v * Pow2[8 - rest])
      Id(t, k) ==
        LET c == RIn(t, 7, 1..126)
            id == c.v
            d == RIn(c, 2, {0, 1})
            d1 == IF d.e = "ok" /\ id \in {0, 127} THEN Fail(d, "IA_MPEGH_DEC_INIT_FATAL_INVALID_DMX_ID") ELSE d
            lay == RIn(d1, 6, 1..20)
            li == lay.v
            cnt == EscIn(lay, 1, 3, 0, 0..2)
            n == cnt.v + 1
            cnt1 == IF cnt.e = "ok" /\ n > 8 THEN Fail(cnt, "IA_MPEGH_DEC_EXE_FATAL_ASCPARSER_MAX_DMX_MATRICES_PER_ID_EXCEEDED") ELSE Out(cnt, n)
            body == IF d1.e # "ok" THEN d1
                    ELSE CASE d.v = 1 -> Times(cnt1, n, Mtx)
                           [] d.v = 0 -> lay
                           [] OTHER -> Fail(d1, "IA_MPEGH_DEC_INIT_FATAL_INVALID_DMX_TYPE")
        IN  IF body.e # "ok" THEN body ELSE IF li > MaxLayout THEN Fail(body, LayErr)
            ELSE IF li = ui THEN [body EXCEPT !.x.cf.dmxHit = id] ELSE body
      Ids(t) ==
        LET c == RIn(t, 5, 0..3) IN
        IF c.e = "ok" /\ c.v > 6 THEN Fail(c, "IA_MPEGH_DEC_EXE_FATAL_MAX_DMX_MATRIX_ELEMENTS_EXCEEDED") ELSE Times(c, c.v, Id)
      z == If([b1 EXCEPT !.x.cf.dmxHit = 0], ty \in {1, 2}, Ids)
  IN  Out(z, z.x.cf.dmxHit)

CompatSet(s) ==
  LET a == Rd(s, 4)
      n == a.v + 1
      b == R(Out(a, a.v), 4)
  IN  Times(b, n, LAMBDA t, k : RIn(t, 8, 11..20))
\* lowest level of a profile among the indicated ones
Lowest(q, lo) == LET m == {q[i] : i \in 3..Len(q)} \cap (lo..(lo + 4)) IN IF m = {} THEN lo + 4 ELSE CHOOSE v \in m : \A u \in m : v <= u

Extension(s, i, ui) ==
  LET a == EscIn(s, 4, 8, 16, {0, 1, 2, 3, 6, 7, 9})
      ty == a.v
      cf == s.x.cf
      a1 == Cf(a, "ext", Append(cf.ext, ty))
      Id(t) == t
      Gram(Op(_), f) == Sized(a1, "ext", LAMBDA u : Sub(u, f, Op), Id)
      \* the scene has its own scratch record; switch groups need the lengths of the elements
      SceneX(t) ==
        LET q == Scene(t)
            u == [q EXCEPT !.x = t.x]
        IN  IF u.e # "ok" \/ cf.elp = 1 THEN u
            ELSE IF q.x.ng < 0 THEN Fail(u, "any")         \* not the main stream's scene: the switch groups are those of an earlier one
            ELSE IF q.x.ns > 0 THEN Fail(u, "IA_MPEGH_DEC_INIT_FATAL_ERROR") ELSE u
      w == LenEsc(a1, 0..5)
      len == w.v
      w1 == IF w.e = "ok" /\ len > 1536 THEN Fail(w, "IA_MPEGH_DEC_INIT_FATAL_CONFIG_EXT_LEN_EXCEEDED") ELSE w
      Fill(t, k) == LET q == RdIn(t, 8, {165}) IN IF q.e = "ok" /\ q.v # 165 THEN Fail(q, "IA_MPEGH_DEC_INIT_FATAL_INVALID_FILLBYTE") ELSE q
  IN  IF a.e # "ok" THEN a
      ELSE CASE ty = 1 -> Gram(LAMBDA t : DmxConfig(t, ui), "dmx")
             [] ty = 3 -> Gram(SceneX, "scene")
             [] ty = 4 -> Fail(a1, "any")           \* HOA rendering matrices: see P08
             [] ty = 6 -> Gram(LAMBDA t : Times(t, cf.ngrp, LAMBDA u, k : R(R(u, 3), 1)), "sig")
             [] ty = 7 -> Gram(CompatSet, "compat")
             [] w1.e # "ok" -> w1
             [] ty = 0 -> Times(w1, len, Fill)
             [] ty = 2 -> LET t == Bytes([w1 EXCEPT !.o = <<>>], len) IN
                          IF t.e # "ok" THEN t ELSE Cf([t EXCEPT !.o = w1.o], "loud", <<i - 1, len>> \o t.o)
             [] OTHER -> IF ~w1.g /\ (w1.n - w1.p) \div 8 < len THEN Fail(w1, Frame) ELSE Skip(w1, 8 * len)

-----------------------------------------------------------------------------
\* mpegh3daConfig: opt is the loudspeaker layout the caller asked for (0: none)
SampRate == <<96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000>>
SrErr == "IA_MPEGH_DEC_INIT_FATAL_SAMP_FREQ_NOT_SUPPORTED"
ProfErr == "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_MPEGH_PROFILE"
MaxLevel(lvl) == CASE lvl \in {11, 16} -> 5 [] lvl \in {12, 17} -> 9 [] lvl \in {13, 18} -> 24
LevelOf(cf, bs) ==
  IF cf.compat = <<>> THEN bs
  ELSE LET bp == Lowest(cf.compat, 16) lc == Lowest(cf.compat, 11) IN
       IF bp \in 16..18 THEN bp ELSE IF lc \in 11..13 THEN lc ELSE bs
MixedTypes(q) == \E i \in 2..Len(q) : q[i] # q[i - 1]
Config(s0, opt) ==
  LET s == [s0 EXCEPT !.x = CX0]
      a == RdIn(s, 8, {11, 12, 13, 13, 16, 17, 18})
      bs == a.v
      b == RIn(a, 5, {3, 4, 5, 6, 7, 8, 31})
      idx == b.v
      c == IF b.e # "ok" THEN b ELSE IF idx = 31 THEN RdIn(b, 24, {48000, 44100, 32000, 29400, 24000, 22050, 16000, 14700, 0, 48001, 8000})
           ELSE IF idx > 8 THEN Fail(b, SrErr) ELSE [b EXCEPT !.v = SampRate[idx + 1]]
      rate == c.v
      c1 == IF c.e = "ok" /\ (rate > 48000 \/ rate = 0) THEN Fail(c, SrErr) ELSE Out(c, rate)
      d == RIn(c1, 3, 0..4)
      d1 == IF d.e = "ok" /\ d.v > 4 THEN Fail(d, "IA_MPEGH_DEC_INIT_FATAL_UNSUPPORTED_CORECODER_FRAMELENGTH_IDX") ELSE d
      f == RIn(Rd(d1, 1), 1, {1})
      comp == f.v
      g == SpeakerConfig(f, TRUE)
      ri == g.x.c[1]  rn == g.x.c[2]
      refty == g.o[5]
      h == RdIn(g, 5, {0, 0, 0, 1, 1, 2, 3})
      ng == h.v + 1
      h1 == IF h.e # "ok" THEN h
            ELSE IF ng > 16 THEN Fail(h, "IA_MPEGH_DEC_INIT_FATAL_MAX_NUM_SIGNALGROUPS_EXCEEDED")
            ELSE IF refty = 3 /\ ng # 1 THEN Fail(h, "IA_MPEGH_DEC_INIT_FATAL_ERROR")
            ELSE Cf(Cf(Cf(Out(h, ng), "ngrp", ng), "ref", ri), "refn", rn)
      i == IF h1.e # "ok" THEN h1 ELSE Times(h1, ng, Group)
      i1 == IF i.e = "ok" /\ comp = 0 /\ MixedTypes(i.x.cf.type) THEN Fail(i, "IA_MPEGH_DEC_INIT_FATAL_RECEIVER_COMP_DELAY") ELSE i
      core == i.x.cf.nch + i.x.cf.nobj + i.x.cf.nhoa
      j == ElementsOf(i1)
      Bad(q) == CASE q[1] = 0 -> q[2] # 0 \/ q[3] # 0 [] q[1] = 3 -> q[2] = 9 [] OTHER -> TRUE
      j1 == IF j.e = "ok" /\ (core > 16 \/ rn > 16) /\ \E k \in 1..Len(j.x.cf.ele) : Bad(j.x.cf.ele[k])
            THEN Fail(j, "IA_MPEGH_DEC_INIT_FATAL_INVALID_PROFILE_CONFIG") ELSE j
      k == RIn(j1, 1, {0, 1, 1})
      ui == IF opt # 0 THEN opt ELSE ri
      Exts(t) ==
        LET u == EscIn(t, 2, 4, 8, 0..3)
            n == u.v + 1
            u1 == IF u.e = "ok" /\ n > 5 THEN Fail(u, "IA_MPEGH_DEC_INIT_FATAL_MAX_CONF_EXT_EXCEEDED") ELSE Out(u, n)
        IN  IF u1.e # "ok" THEN u1 ELSE Times(u1, n, LAMBDA w, m : Extension(w, m, ui))
      l == If(k, k.v = 1, Exts)
      cf == l.x.cf
      fc0 == IF cf.chg < 1 \/ opt = 0 THEN 0 ELSE 1
      fc == IF k.v = 1
            THEN IF cf.nch # NumLs(ui) /\ cf.nch # 0 /\ ui # 0 THEN 1
                 ELSE IF ui = ri \/ cf.dmx = <<>> THEN 0 ELSE 1
            ELSE IF cf.chg > 1 THEN 1 ELSE fc0
      lvl == LevelOf(cf, bs)
      wide == core > 16 \/ rn > 16
      m == IF l.e # "ok" THEN l
           ELSE IF bs < 11 \/ lvl \notin {11, 12, 13, 16, 17, 18} THEN Fail(l, ProfErr)
           ELSE IF core > MaxLevel(lvl) \/ rn > MaxLevel(lvl) THEN Fail(l, ChanErr)
           ELSE IF wide /\ (cf.chg # 0 \/ cf.hoag # 0) THEN Fail(l, ChanErr)
           ELSE l
      List(t, q) == OutAll(Out(t, Len(q)), q)
      m1 == [m EXCEPT !.x.cf = [@ EXCEPT !.fc = fc, !.rate = rate, !.spk = SubSeq(g.o, 5, Len(g.o))]]
      z == OutAll(m1, <<lvl, fc, cf.nch, cf.nobj, cf.nhoa, cf.chg, cf.objg, cf.hoag, cf.pre>>)
  IN  IF m.e # "ok" THEN m
      ELSE FoldLeft(List, z, <<cf.oam, cf.enh, cf.prod, cf.hoa, cf.dmx, cf.sig, cf.compat, cf.loud, cf.scene, cf.ext>>)
=============================================================================
