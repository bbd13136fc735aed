-------------------------------- MODULE Bits --------------------------------
(* Bit-level access to byte strings, and the reader state threaded through the grammar modules.

   A reader state is a record
     b  the bytes (a sequence of 0..255)
     g  TRUE: generation mode.  The tape ends where the reader stands; reading extends it with a chosen value.
     a  generation mode only: the bits written so far
     n  number of bits on the tape (checking mode)
     p  bits consumed so far
     e  "ok", or the error that stopped the parse ("short" when a field needs bits that are not there)
     v  value of the last field read
     o  all observed field values, in grammar order
     x  whatever a grammar needs to remember                                                               *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils

\* what the specifications tell the drivers: one line of JSON each
Say(tag, x) == PrintT("VP-" \o tag \o " " \o ToJson(x))

Pow2 == [i \in 0..30 |-> 2^i]

BitAt(b, p) == (b[(p \div 8) + 1] \div Pow2[7 - (p % 8)]) % 2

\* n <= 31 bits starting at bit p, most significant first
RECURSIVE Field(_, _, _)
Field(b, p, n) ==
  IF n = 0 THEN 0
  ELSE LET room == 8 - (p % 8)
           k    == IF n < room THEN n ELSE room
           part == (b[(p \div 8) + 1] \div Pow2[room - k]) % Pow2[k]
       IN  part * Pow2[n - k] + Field(b, p + k, n - k)

\* the low n bits of v as a bit sequence
ToBits(v, n) == [i \in 1..n |-> (v \div Pow2[n - i]) % 2]

Reader(b)   == [b |-> b, g |-> FALSE, a |-> <<>>, n |-> 8 * Len(b), p |-> 0, e |-> "ok", v |-> 0, o |-> <<>>, x |-> <<>>]
ReaderN(b, n, p) == [Reader(b) EXCEPT !.n = n, !.p = p]
Generator   == [b |-> <<>>, g |-> TRUE, a |-> <<>>, n |-> 0, p |-> 0, e |-> "ok", v |-> 0, o |-> <<>>, x |-> <<>>]

Short == "short"

Ok(s)      == s.e = "ok"
Fail(s, e) == IF s.e = "ok" THEN [s EXCEPT !.e = e] ELSE s
Out(s, v)  == IF s.e = "ok" THEN [s EXCEPT !.o = Append(@, v)] ELSE s
OutAll(s, q) == IF s.e = "ok" THEN [s EXCEPT !.o = @ \o q] ELSE s

\* a value for an n-bit field in generation mode: any value, with the extremes and small ones favoured
Pick(n) ==
  LET r == RandomElement(0..15) IN
  IF n = 0 THEN 0
  ELSE IF n = 1 THEN r % 2
  ELSE CASE r = 0 -> 0
         [] r = 1 -> Pow2[n] - 1
         [] r \in 2..4 -> RandomElement(0..(IF n > 3 THEN 7 ELSE Pow2[n] - 1))
         [] r = 5 -> Pow2[n - 1]
         [] OTHER -> RandomElement(0..(Pow2[n] - 1))

GenBits(s, n, val) == [s EXCEPT !.a = @ \o ToBits(val, n), !.p = @ + n, !.v = val]

\* read n bits; the value is available as .v
Rd(s, n) ==
  IF s.e # "ok" THEN s
  ELSE IF s.g THEN GenBits(s, n, Pick(n))
  ELSE IF s.p + n > s.n THEN [s EXCEPT !.e = Short]
  ELSE [s EXCEPT !.v = Field(s.b, s.p, n), !.p = @ + n]

\* read n bits; generation mode takes the value from S, except once in WILD times (default 4)
Wild == IF "WILD" \in DOMAIN IOEnv THEN atoi(IOEnv.WILD) ELSE 4
RdIn(s, n, S) ==
  IF s.e = "ok" /\ s.g /\ RandomElement(1..Wild) > 1 /\ S # {} THEN GenBits(s, n, RandomElement(S)) ELSE Rd(s, n)

\* ... always from S in generation mode
RdMust(s, n, S) == IF s.e = "ok" /\ s.g THEN GenBits(s, n, RandomElement(S)) ELSE Rd(s, n)

\* read and observe
R(s, n)       == LET t == Rd(s, n) IN Out(t, t.v)
RIn(s, n, S)  == LET t == RdIn(s, n, S) IN Out(t, t.v)
RMust(s, n, S) == LET t == RdMust(s, n, S) IN Out(t, t.v)
\* a field of up to 32 bits, observed as two 16-bit halves
R2(s, n)      == R(R(s, n - 16), 16)

\* do k times: Op(state, index), index from 1
Times(s, k, Op(_, _)) == FoldLeft(LAMBDA t, i : IF t.e = "ok" THEN Op(t, i) ELSE t, s, [i \in 1..k |-> i])

\* if the field just read is non-zero / zero
If(s, c, Op(_)) == IF s.e = "ok" /\ c THEN Op(s) ELSE s

Skip(s, n) ==
  IF s.e # "ok" \/ n <= 0 THEN s
  ELSE IF s.g /\ n > 16000 THEN [s EXCEPT !.e = Short]
  ELSE IF s.g THEN LET q == [i \in 1..n |-> RandomElement({0, 1})] IN [s EXCEPT !.a = @ \o q, !.p = @ + n]
  ELSE IF s.p + n > s.n THEN [s EXCEPT !.e = Short]
  ELSE [s EXCEPT !.p = @ + n]

\* escapedValue(n1, n2, n3) of ISO/IEC 23003-3
Esc(s, n1, n2, n3) ==
  LET s1 == Rd(s, n1)
      m1 == Pow2[n1] - 1
      m2 == Pow2[n2] - 1
  IN  IF s1.e # "ok" \/ s1.v # m1 THEN s1
      ELSE LET s2 == Rd(s1, n2)
           IN  IF s2.e # "ok" THEN s2
               ELSE IF s2.v # m2 THEN [s2 EXCEPT !.v = m1 + @]
               ELSE LET s3 == Rd(s2, n3) IN IF s3.e # "ok" THEN s3 ELSE [s3 EXCEPT !.v = m1 + m2 + @]
EscIn(s, n1, n2, n3, S) ==
  IF s.e = "ok" /\ s.g /\ RandomElement(1..Wild) > 1 /\ S # {}
  THEN LET x == RandomElement(S)
           m1 == Pow2[n1] - 1
           m2 == Pow2[n2] - 1
           t  == IF x < m1 THEN GenBits(s, n1, x)
                 ELSE IF x < m1 + m2 THEN GenBits(GenBits(s, n1, m1), n2, x - m1)
                 ELSE GenBits(GenBits(GenBits(s, n1, m1), n2, m2), n3, x - m1 - m2)
       IN [t EXCEPT !.v = x]
  ELSE Esc(s, n1, n2, n3)
REsc(s, n1, n2, n3) == LET t == Esc(s, n1, n2, n3) IN Out(t, t.v)

\* the generated bits, padded to whole bytes
RECURSIVE PackFrom(_, _)
PackFrom(a, i) ==
  IF i > Len(a) THEN <<>>
  ELSE LET bit(k) == IF i + k <= Len(a) THEN a[i + k] ELSE 0
       IN <<128*bit(0) + 64*bit(1) + 32*bit(2) + 16*bit(3) + 8*bit(4) + 4*bit(5) + 2*bit(6) + bit(7)>> \o PackFrom(a, i + 8)
Pack(a) == LET n == (Len(a) + 7) \div 8
               bit(k) == IF k <= Len(a) THEN a[k] ELSE 0
           IN [j \in 1..n |-> LET i == 8 * (j - 1) + 1 IN
                 128*bit(i) + 64*bit(i+1) + 32*bit(i+2) + 16*bit(i+3) + 8*bit(i+4) + 4*bit(i+5) + 2*bit(i+6) + bit(i+7)]
=============================================================================
