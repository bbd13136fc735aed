------------------------------ MODULE OamTrace ------------------------------
(* Recorded histories of object metadata decoding.  A record: k  "oam" or "enh", cf  the configuration, fr  the frames
   <<slot or independence flag, bytes>> and res  what the decoder made of each: err, pos, o.  A history ends with the first
   frame that fails.                                                                                                     *)
EXTENDS Oam, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, st
vars == <<l, k, st>>
Start(r) == IF r.k = "oam" THEN OamState(r.cf) ELSE EnhState(r.cf)
TInit == l = 1 /\ k = 0 /\ st = <<>>
Step(r, f) == LET s == [Reader(f[2]) EXCEPT !.x = st] IN IF r.k = "oam" THEN OamFrame(s, r.cf) ELSE EnhFrame(s, r.cf, f[1])
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] IN
            IF "crash" \in DOMAIN r THEN Say("REJECT", <<l, "crash", r.crash>>) /\ l' = l + 1 /\ UNCHANGED <<k, st>>
            ELSE IF k = 0 THEN k' = 1 /\ st' = Start(r) /\ UNCHANGED l
            ELSE IF k > Len(r.fr) THEN l' = l + 1 /\ k' = 0 /\ UNCHANGED st
            ELSE LET s == Step(r, r.fr[k])
                     q == IF s.e # "ok" THEN s ELSE [s EXCEPT !.o = IF r.k = "oam" THEN Seen(r.cf, s.x) ELSE SeenEnh(r.cf, s.x)]
                     j == Judge(q, r.res[k])
                 IN  IF j # <<>> THEN Say("REJECT", <<l, "frame", k>> \o j) /\ l' = l + 1 /\ k' = 0 /\ UNCHANGED st
                     ELSE IF s.e # "ok" THEN l' = l + 1 /\ k' = 0 /\ UNCHANGED st
                     ELSE k' = k + 1 /\ st' = s.x /\ UNCHANGED l
TSpec == TInit /\ [][TNext]_vars
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
