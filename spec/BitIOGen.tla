------------------------------ MODULE BitIOGen ------------------------------
(* Operation sequences drawn from the machine's behaviours (TLC -simulate): printed for replay into the real reader. *)
EXTENDS BitIO
CONSTANT Depth
VARIABLES buf, hist, done
gvars == <<pos, ret, err, buf, hist, done>>
GInit == BInit /\ hist = <<>> /\ done = FALSE /\ \E n \in 0..12 : buf = [i \in 1..n |-> IF RandomElement(0..3) = 0 THEN 255 ELSE RandomElement(0..255)]
Do(o, x, A) == A /\ hist' = Append(hist, <<o, x>>) /\ UNCHANGED <<buf, done>>
Shapes == {<<1,3,0>>, <<1,4,4>>, <<8,8,12>>, <<2,4,8>>, <<4,8,16>>, <<5,8,16>>, <<3,5,0>>, <<2,4,16>>, <<3,8,8>>}
GOps ==  \/ \E n \in 0..32 : Do("r", <<n>>, Read(buf, n))
         \/ \E n \in 0..32 : Do("s", <<n>>, Show(buf, n))
         \/ \E n \in 0..40 : Do("k", <<n>>, SkipBits(buf, n))
         \/ Do("w", <<32>>, Read(buf, 32))
         \/ \E sh \in Shapes : Do("e", sh, Escape(buf, sh[1], sh[2], sh[3]))
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ Say("GEN", <<buf, hist>>) /\ UNCHANGED <<pos, ret, err, buf, hist>>
GNext == (Len(hist) < Depth /\ GOps) \/ Finish
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
