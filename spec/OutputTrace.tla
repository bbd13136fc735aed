----------------------------- MODULE OutputTrace ----------------------------
(* Recorded sessions checked against Output.  DATA: the configurations.  An event has
     e create: k, req (the caller's parameters), pcm
     e init, exec: k, s (stream), pos, err, cfg (index of the configuration the call took, 0: none), must (1: known to decode),
                   au (1: the call took an access unit), out, dig, ch, fs and, of init, what else is reported
   ASPECTS as in SessionTrace.  Sessions of one stream under the same parameters in force must agree on everything. *)
EXTENDS Output, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
Data  == JsonDeserialize(IOEnv.DATA)
Aspects == {Data.aspects[i] : i \in 1..Len(Data.aspects)}
VARIABLES l, ins, tab
vars == <<l, ins, tab>>
Put(f, k, v) == (k :> v) @@ f
Diff(a, name, want, got) == IF want = got THEN {} ELSE {<<a, name, "expected", want, "got", got>>}
DiffIn(a, name, want, got) == IF got \in want THEN {} ELSE {<<a, name, "expected one of", want, "got", got>>}

Report2(ds) == LET q == {d \in ds : d[1] \in Aspects} IN IF q # {} THEN Say("REJECT", <<l>> \o SetToSeq(q)) ELSE TRUE

TInit == l = 1 /\ ins = <<>> /\ tab = <<>>
TCreate(r) ==
  LET p == Params(r.req) IN
  /\ Report2(Diff("params", "create", "ok", r.err) \cup Diff("params", "word size", p.pcm, r.pcm))
  /\ ins' = Put(ins, r.k, [p |-> p, cf |-> CF0, on |-> FALSE, e |-> "ok", ratio |-> <<0, 0, 1, 1>>, rem |-> {}])
  /\ UNCHANGED tab

\* start of a configuration
Begin(i, cfg) ==
  LET c == Config(Reader(Data.cfgs[cfg]), i.p.cicp)
      cf == c.x.cf
  IN [i EXCEPT !.cf = cf, !.on = c.e = "ok", !.e = c.e, !.ratio = Ratio(cf.rate, i.p.ofs), !.rem = Delays(i.p, cf)]
Geometry(r) == [i \in 1..Len(r.az) |-> <<r.az[i], r.el[i], r.lfe[i]>>]
InitD(j, r) ==
  LET p == j.p
      alt == {t \in SpeakersAlso(p, j.cf) : t.layout = r.layout}
      s == IF alt = {} THEN Speakers(p, j.cf) ELSE CHOOSE t \in alt : TRUE
  IN
  Diff("params", "word size", p.pcm, r.pcm) \cup Diff("params", "effect", p.effect, r.eff)
  \cup Diff("params", "target loudness", <<p.tl, p.ln>>, <<r.tl, r.ln>>)
  \cup Diff("rate", "rate", j.ratio[2], r.fs)
  \cup DiffIn("size", "channels", Channels(p, j.cf, TRUE), r.ch)
  \cup Diff("layout", "layout type, index and number", <<s.layout, s.cicp, s.n, 0>>, <<r.layout, r.cicp, r.nspk, r.bin>>)
  \cup (IF Len(r.az) # s.n THEN {}
        ELSE LET g == Geometry(r) bad == {n \in 1..s.n : ~Same(s.geo[n], g[n])} IN
             IF bad = {} THEN {} ELSE {<<"layout", "loudspeaker", n, "expected", s.geo[n], "got", g[n]>> : n \in bad})
Pos(x) == IF x > 0 THEN x ELSE 0
\* audio of one access unit: n frames (more than one with a pre-roll), the delay still to be cut off
Units(cf) == IF cf.pre = 1 THEN 1..2 ELSE {1}
Samples(j) == (FrameLen * j.ratio[3]) \div j.ratio[4]
Amounts(j, r) == {[rem |-> d, n |-> u * Samples(j)] : d \in j.rem, u \in Units(j.cf)}
Audible(j, r) == {a \in Amounts(j, r) : Bytes4(j.p, r.ch, Pos(a.n - a.rem)) = r.out}
ExecD(j, r) ==
  Diff("rate", "rate", j.ratio[2], r.fs) \cup DiffIn("size", "channels", Channels(j.p, j.cf, FALSE), r.ch) \cup Diff("params", "word size", j.p.pcm, r.pcm)
  \cup (IF Audible(j, r) = {} THEN {<<IF j.ratio[3] = 1 THEN "size" ELSE "rate", "bytes", {Bytes4(j.p, r.ch, Pos(a.n - a.rem)) : a \in Amounts(j, r)}, "got", r.out>>} ELSE {})

TabD(key, r) == IF key \notin DOMAIN tab \/ (tab[key].err = r.err /\ tab[key].out = r.out /\ tab[key].dig = r.dig) THEN {}
                ELSE {<<"params", "the same parameters in force, different audio", tab[key].err, tab[key].out, r.err, r.out>>}
TCall(r) ==
  LET i == ins[r.k]
      key == <<r.s, i.p, r.e, r.pos>>
      ok == r.err = "ok"
      j == IF ok /\ r.cfg # 0 THEN Begin(i, r.cfg) ELSE i
      fresh == ok /\ r.cfg # 0
      ds == TabD(key, r)
            \cup (IF r.must = 1 /\ ~ok THEN {<<"params", "refused", r.err>>, <<"size", "refused", r.err>>, <<"layout", "refused", r.err>>, <<"rate", "refused", r.err>>} ELSE {})
            \cup (IF fresh /\ j.e \notin {"ok", "any"} THEN {<<"rate", "accepted a configuration that is not decodable", j.e>>} ELSE {})
            \cup (IF ~ok \/ ~j.on THEN {} ELSE IF r.e = "init" THEN InitD(j, r) ELSE IF r.au = 1 THEN ExecD(j, r) ELSE {})
      live == Audible(j, r)
  IN  /\ Report2(ds)
      /\ ins' = Put(ins, r.k, IF ok /\ r.e = "exec" /\ r.au = 1 /\ j.on
                              THEN [j EXCEPT !.rem = IF live = {} THEN {0} ELSE {Pos(a.rem - a.n) : a \in live}]
                              ELSE IF ~ok THEN [j EXCEPT !.on = FALSE] ELSE j)
      /\ tab' = IF key \in DOMAIN tab THEN tab ELSE Put(tab, key, [err |-> r.err, out |-> r.out, dig |-> r.dig])
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] IN
            CASE r.e = "create" -> TCreate(r) [] r.e \in {"init", "exec"} -> TCall(r) [] r.e = "delete" -> UNCHANGED <<ins, tab>>
              [] OTHER -> Report2({<<a, "the decoder did not return", r.e>> : a \in Aspects}) /\ UNCHANGED <<ins, tab>>
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace), Cardinality(DOMAIN tab)>>)
=============================================================================
