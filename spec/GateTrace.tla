----------------------------- MODULE GateTrace -----------------------------
(* Audio under scenes.  A record is a decode compared with one of the same stream without scenes:
     n  signals     pre  preset chosen, -1 none     sc  <<access unit ahead of which it came, bytes>> of each scene
     err  "" or the code the decode ended with       k  access units decoded
     got  for each access unit and output channel: 0 silent, 1 as without scenes, 2 neither, 3 silent in both
     cf   the first scene is in the configuration
     hears  the signal in each output channel                                                                        *)
EXTENDS Gate, Parse
Trace == ndJsonDeserialize(IOEnv.TRACE)
AnyScene == [e |-> "any"]
SceneOfBytes(b) == LET s == Scene(Reader(b)) IN IF s.e = "ok" THEN [s.x EXCEPT !.w = 0] @@ [e |-> "ok"] ELSE AnyScene
\* the scene in force at access unit u (from 0)
At(r, sc, u) == LET q == {k \in 1..Len(r.sc) : r.sc[k][1] <= u} IN
                IF q = {} THEN NoScene ELSE sc[CHOOSE k \in q : \A j \in q : j <= k]
\* what access unit u may end in: "" audio, else an error; "any"
Ends(x, r) ==
  IF x.e = "none" THEN "" ELSE IF r.cf = 1 /\ x.e = "ok" /\ x.ns > 0 THEN "any" ELSE IF x.e = "any" \/ Len(x.grp) = 0 THEN "any"
  ELSE IF ~Knows(x, r.pre) THEN "IA_MPEGH_DEC_EXE_FATAL_INVALID_PRESET_ID"
  ELSE IF Extended(x, r.pre) THEN "any"
  ELSE IF Astray(x, r.pre, r.n) THEN "IA_MPEGH_DEC_EXE_FATAL_UNSUPPORTED_NUM_CHANNELS"
  ELSE IF Strays(x, r.n) THEN "any" ELSE ""
Unit(x, r, u) ==
  LET want(c) == IF x.e = "none" THEN 1 ELSE Sounds(x, r.pre, r.hears[c])
      bad == {c \in 1..Len(r.got[u + 1]) : want(c) # 2 /\ r.got[u + 1][c] \notin {3, want(c)}}
  IN  IF bad = {} THEN <<>>
      ELSE LET c == CHOOSE c \in bad : \A d \in bad : c <= d IN
           <<"access unit", u, "channel", c - 1, IF want(c) = 1 THEN "is to sound" ELSE "is to be silent",
             CASE r.got[u + 1][c] = 0 -> "is silent" [] r.got[u + 1][c] = 1 -> "sounds" [] OTHER -> "is something else">>
First(q) == IF q = <<>> THEN <<>> ELSE IF \A i \in 1..Len(q) : q[i] = <<>> THEN <<>> ELSE q[CHOOSE i \in 1..Len(q) : q[i] # <<>> /\ \A j \in 1..(i - 1) : q[j] = <<>>]
Verdict(r) ==
  LET sc == FoldLeft(LAMBDA a, k : Append(a, SceneOfBytes(r.sc[k][2])), <<>>, [k \in 1..Len(r.sc) |-> k])
      ends == FoldLeft(LAMBDA a, u : Append(a, Ends(At(r, sc, u - 1), r)), <<>>, [u \in 1..r.k |-> u])
      at == IF \A u \in 1..r.k : ends[u] = "" THEN r.k + 1 ELSE CHOOSE u \in 1..r.k : ends[u] # "" /\ \A v \in 1..(u - 1) : ends[v] = ""
      full == IF at > r.k THEN r.k ELSE at - 1     \* so many access units become audio
      units == First([u \in 1..full |-> Unit(At(r, sc, u - 1), r, u - 1)])
  IN  IF r.err = "crash" THEN <<"crash">>
      ELSE IF Len(r.got) < full THEN <<"failed at access unit", Len(r.got), r.err>>
      ELSE IF units # <<>> THEN units
      ELSE IF at <= r.k /\ ends[at] = "any" THEN <<"open">>
      ELSE IF at <= r.k /\ r.err # ends[at] THEN <<"access unit", at - 1, "is to end in", ends[at], "ended in", r.err>>
      ELSE IF at > r.k /\ r.err # "" THEN <<"failed", r.err>>
      ELSE <<>>
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET v == Verdict(Trace[l])
            IN  IF v = <<"open">> THEN Say("OPEN", <<l>>) ELSE IF v # <<>> THEN Say("REJECT", <<l>> \o v) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
