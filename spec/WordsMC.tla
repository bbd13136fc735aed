------------------------------ MODULE WordsMC -------------------------------
(* The projections checked on their own: x runs over the neighbourhoods of all powers of two, of zero and of full scale. *)
EXTENDS Words, TLC
RECURSIVE Pow(_)
Pow(n) == IF n = 0 THEN 1 ELSE 2 * Pow(n - 1)
Near == UNION {{Pow(n) + d, -Pow(n) + d} : n \in 2..30, d \in -3..3} \cup -300..300 \cup {2147483647 - d : d \in 0..600} \cup {-2147483647 + d : d \in 0..600} \cup {-2147483647 - 1}
VARIABLE x
Init == x \in Near
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Bytes(v, k) == LET F[i \in 1..k] == IF i = 1 THEN v ELSE (F[i - 1] - (F[i - 1] % 256)) \div 256 IN [i \in 1..k |-> F[i] % 256]
InRange == LET y == To24(x) z == To16(y) IN y \in -8388608..8388607 /\ z \in -32768..32767
Once == x = -2147483647 - 1 \/ To16(To24(x)) = Toward0(x, 65536)
Sign == LET z == To16(To24(x)) IN (x >= 0 => z >= 0) /\ (x <= 0 => z <= 0)
Codec == Word(Bytes(x, 4), 1, 4) = x /\ Word(Bytes(To24(x), 3), 1, 3) = To24(x) /\ Word(Bytes(To16(To24(x)), 2), 1, 2) = To16(To24(x))
Order == \A d \in {1, 255, 256, 65536} : x < 2147483647 - d => To24(x) <= To24(x + d)
=============================================================================
