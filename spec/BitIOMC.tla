------------------------------- MODULE BitIOMC ------------------------------
(* Exhaustive: every reachable position of two small buffers under every width; and the refinement facts that reading
   in one piece equals reading in two, and that an escape value never reads past the end.                        *)
EXTENDS BitIO
CONSTANTS Bufs, Widths
VARIABLE buf
Init == BInit /\ buf \in Bufs
Next == /\ UNCHANGED buf
        /\ \E n \in Widths : Read(buf, n) \/ Show(buf, n) \/ SkipBits(buf, n) \/ Escape(buf, 2, 4, 8) \/ Escape(buf, 3, 8, 8)
Spec == Init /\ [][Next]_<<vars, buf>>
Inv == InBounds(buf) /\ ErrorsHoldStill(buf)
Split == \A n \in Widths : pos + n <= 8 * Len(buf) /\ n <= 24 =>
           \A k \in 0..n : Field(buf, pos, n) = Field(buf, pos, k) * Pow2[n - k] + Field(buf, pos + k, n - k)
MBufs == {<<165, 60, 1, 254, 255, 0, 129>>, <<255, 255, 255>>, <<>>}
MWidths == {0, 1, 2, 3, 5, 7, 8, 9, 11, 16, 17, 24, 31}
=============================================================================
