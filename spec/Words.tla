-------------------------------- MODULE Words -------------------------------
(* Sample words.  A decode produces one sequence of samples; a word of k bytes is the sample with the low bits dropped
   towards zero, clipped at full scale, least significant byte first.                                              *)
EXTENDS Integers, Sequences
FullScale(k) == <<32767, 8388607, 2147483647>>[k - 1]
Toward0(x, d) == IF x >= 0 THEN x \div d ELSE -((-x) \div d)
\* value of k bytes from position p of b; no intermediate value leaves 32 bits
Word(b, p, k) ==
  LET hi == b[p + k - 1]
      top == IF hi >= 128 THEN hi - 256 ELSE hi
      F[i \in 0..k - 1] == IF i = 0 THEN top ELSE F[i - 1] * 256 + b[p + k - 1 - i]
  IN  F[k - 1]
\* the narrow words a sample of 32 bits stands for; -2^31 is full scale and has no negation in 32 bits
To24(x) == IF x = -2147483647 - 1 THEN -8388608 ELSE Toward0(x, 256)
To16(y) == Toward0(y, 256)
\* blocks of the three outputs agree: a, b, c are the bytes of the same n samples
Agree(a, b, c) ==
  LET n == Len(a) \div 2 IN
  /\ Len(a) = 2 * n /\ Len(b) = 3 * n /\ Len(c) = 4 * n
  /\ \A i \in 1..n : LET x == Word(c, 4 * i - 3, 4)  y == Word(b, 3 * i - 2, 3)  z == Word(a, 2 * i - 1, 2) IN y = To24(x) /\ z = To16(y)
FirstBad(a, b, c) ==
  LET n == Len(a) \div 2
      i == CHOOSE j \in 1..n : LET x == Word(c, 4 * j - 3, 4)  y == Word(b, 3 * j - 2, 3)  z == Word(a, 2 * j - 1, 2) IN ~(y = To24(x) /\ z = To16(y))
  IN  <<i, Word(a, 2 * i - 1, 2), Word(b, 3 * i - 2, 3), Word(c, 4 * i - 3, 4)>>
=============================================================================
