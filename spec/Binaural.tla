------------------------------ MODULE Binaural ------------------------------
(* Binaural rendering (ISO/IEC 23008-3, 13): the loudspeaker signals, each filtered with the pair of responses of its position.
   A representation r: r.f sampling rate, r.h order of ambisonics responses or -1, r.s the positions of its pairs (loudspeaker
   indices), r.p number of pairs, r.n taps of a response, r.t the taps that are not zero <<ear, pair, tap, value>>,
   r.d blocks of common diffuse responses, of each <<ear, tap, value>>, r.w weight of each pair in them.  Values are in quarters,
   weights in halves; only the representation given last is kept. *)
EXTENDS Layouts, FiniteSets, SequencesExt, FiniteSetsExt
RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)
Block(r) == Pow2(r.n, 1)                                 \* signals are filtered a block at a time
Latency(r) == IF Block(r) < 2048 THEN Block(r) ELSE 2048
\* the pair of the loudspeaker at this position; a subwoofer takes any
First(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
PairOf(sp, set) ==
  LET same == First({k \in 1..Len(set) : Spk(set[k]) = Spk(sp)})
      sub == IF Spk(sp)[3] = 1 THEN First({k \in 1..Len(set) : Spk(set[k])[3] = 1}) ELSE 0
  IN  IF same > 0 THEN same ELSE sub
Map(r, out) == IF r.h >= 0 THEN [c \in 1..Len(out) |-> IF c <= r.p THEN c ELSE 0]
               ELSE [c \in 1..Len(out) |-> LET k == PairOf(out[c], r.s) IN IF k > r.p THEN 0 ELSE k]
Usable(r, fs, out) == r.f = fs /\ \A c \in 1..Len(out) : Map(r, out)[c] > 0
\* what an ear hears: <<loudspeaker, delay, gain in eighths>>
Hear(r, out, e) ==
  LET m == Map(r, out)
      direct(c) == LET q == SelectSeq(r.t, LAMBDA t : t[1] = e /\ t[2] = m[c] /\ t[3] < r.n) IN [k \in 1..Len(q) |-> <<c, q[k][3], 2 * q[k][4]>>]
      diffuse(c, b) == LET q == SelectSeq(r.d[b], LAMBDA t : t[1] = e /\ t[2] < r.n) IN [k \in 1..Len(q) |-> <<c, b * Block(r) + q[k][2], q[k][3] * r.w[m[c]]>>]
      of(c) == FoldLeft(LAMBDA a, b : a \o diffuse(c, b), direct(c), [b \in 1..Len(r.d) |-> b])
  IN  FoldLeft(LAMBDA a, c : a \o of(c), <<>>, [c \in 1..Len(out) |-> c])
\* samples put out for access units 1..n, the first `late` of them left out
Made(r, k) == ((Latency(r) + 1024 * k) \div Block(r)) * Block(r)
Parts(r, late, n) ==
  LET got(k) == IF Made(r, k) > late THEN Made(r, k) - late ELSE 0
      all == [k \in 1..n |-> got(k) - (IF k = 1 THEN 0 ELSE got(k - 1))]
  IN  SelectSeq(all, LAMBDA x : x > 0)
Expect(reps, fs, out) ==
  IF reps = <<>> \/ ~Usable(reps[Len(reps)], fs, out) THEN [e |-> "fail", b |-> 0, l |-> 0, h |-> <<>>]
  ELSE LET r == reps[Len(reps)] IN [e |-> "ok", b |-> Block(r), l |-> Latency(r), h |-> <<Hear(r, out, 1), Hear(r, out, 2)>>]
=============================================================================
