-------------------------------- MODULE BitIO -------------------------------
(* The bit reader as a state machine over a fixed byte string.  The ghost values ret/err are what the last call
   returned.  Wide (32-bit) values are pairs of 16-bit halves because TLC integers are 32-bit signed.          *)
EXTENDS Bits
VARIABLES pos, ret, err
vars == <<pos, ret, err>>

\* up to 32 bits as <<hi16, lo16>>
Wide(b, p, n) == IF n <= 16 THEN <<0, Field(b, p, n)>> ELSE <<Field(b, p, n - 16), Field(b, p + n - 16, 16)>>
WideAdd(w, k) == LET lo == w[2] + k IN <<(w[1] + lo \div 65536) % 65536, lo % 65536>>

BInit == pos = 0 /\ ret = <<0, 0>> /\ err = 0

Read(b, n) ==
  IF pos + n > 8 * Len(b) /\ n > 0
  THEN err' = 1 /\ ret' = <<0, 0>> /\ pos' = pos
  ELSE err' = 0 /\ ret' = Wide(b, pos, n) /\ pos' = pos + n

Show(b, n) ==
  IF pos + n > 8 * Len(b) /\ n > 0
  THEN err' = 1 /\ ret' = <<0, 0>> /\ pos' = pos
  ELSE err' = 0 /\ ret' = Wide(b, pos, n) /\ pos' = pos

SkipBits(b, n) ==
  /\ ret' = <<0, 0>>
  /\ IF pos + n > 8 * Len(b) THEN err' = 1 /\ pos' = pos ELSE err' = 0 /\ pos' = pos + n

\* escapedValue: each part that is there is consumed, the first missing part is the error
Escape(b, n1, n2, n3) ==
  LET s == Esc(ReaderN(b, 8 * Len(b), pos), n1, n2, n3) IN
  /\ pos' = s.p
  /\ err' = (IF s.e = "ok" THEN 0 ELSE 1)
  /\ ret' = (IF s.e = "ok" THEN <<s.v \div 65536, s.v % 65536>> ELSE <<0, 0>>)

\* design properties
InBounds(b)   == pos \in 0..(8 * Len(b))
NeverBack     == [][pos' >= pos]_vars
ErrorsHoldStill(b) == err = 1 => ret = <<0, 0>>
=============================================================================
