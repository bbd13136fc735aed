---------------------------- MODULE SessionTrace ----------------------------
(* Recorded API calls checked against Session.  The bytes are parsed here, with the MHAS grammar; what the PCM of a
   decoding history is does not matter, but it must be the same wherever the same history occurs, in whatever instance,
   carriage, schedule or buffer split.
   DATA file: streams, and a dictionary of byte strings (configurations and access units known to be well formed).
   An event has  e  create | init | exec | delete     k  instance     s  stream (index)    raw  1: no MHAS
                 pos, avail   where in the stream the call's buffer starts and how much it holds
                 h   hint: dictionary entry of the configuration or access unit expected at the front (checked here)
                 err, cons, out, osz, dig, rep (everything else reported)
                 mem (allocator calls), canary (blocks written outside their bounds)
   ASPECTS (a set of names) says which discrepancies are reported; after any other discrepancy the instance is lost. *)
EXTENDS Session, Mhas
Trace == ndJsonDeserialize(IOEnv.TRACE)
Data  == JsonDeserialize(IOEnv.DATA)
Streams == Data.streams
Dict  == Data.dict
Aspects == {Data.aspects[i] : i \in 1..Len(Data.aspects)}
Strict == Data.strict = 1

VARIABLES l, ins, node, tab, say
vars == <<l, ins, node, tab, say>>

MaxConfig == 768   \* longer configuration packets are refused
Bad == [k |-> "bad", id |-> 0, end |-> 0]
IsDict(b, from, to, h) == h # 0 /\ to - from + 1 = Len(Dict[h]) /\ to <= Len(b) /\ SubSeq(b, from, to) = Dict[h]

\* the view of an MHAS buffer
MView(r) ==
  LET b == Streams[r.s]
      w == Packets(ReaderN(b, 8 * (r.pos + r.avail), 8 * r.pos), TRUE)
      ty == w.o[1]
      len == w.o[4] * 65536 + w.o[5]
      st == w.p \div 8
  IN  IF w.e = "short" THEN [k |-> "none", id |-> 0, end |-> 0]
      ELSE IF w.e # "ok" \/ ty \notin {CFG, FRAME} \/ w.o[6] + w.o[7] > 0 THEN Bad
      ELSE IF ty = CFG
      THEN IF len > MaxConfig THEN Bad
           ELSE IF st + len > r.pos + r.avail THEN [k |-> "none", id |-> 0, end |-> 0]
           ELSE IF IsDict(b, st + 1, st + len, r.h) THEN [k |-> "cfg", id |-> r.h, end |-> st + len - r.pos] ELSE Bad
      ELSE IF r.e = "init" THEN [k |-> "au", id |-> 0, end |-> st + len - r.pos]
      ELSE IF ~IsDict(b, st + 1, st + len, r.h) THEN Bad
      ELSE [k |-> IF st + len > r.pos + r.avail THEN "cut" ELSE "au", id |-> r.h, end |-> st + len - r.pos]
\* raw carriage: the buffer is the configuration, or one access unit or the beginning of one
RView(r) ==
  LET b == Streams[r.s] IN
  IF r.h = 0 THEN Bad
  ELSE IF ~IsDict(b, r.pos + 1, r.pos + Len(Dict[r.h]), r.h) THEN Bad
  ELSE IF r.avail < Len(Dict[r.h]) THEN [k |-> IF r.e = "init" THEN "none" ELSE "cut", id |-> r.h, end |-> 0]
  ELSE [k |-> IF r.e = "init" THEN "cfg" ELSE "au", id |-> r.h, end |-> Len(Dict[r.h])]
View(r) == IF r.raw = 1 THEN RView(r) ELSE MView(r)

Cell(i) == IF i \in DOMAIN ins THEN ins[i] ELSE None
Root(opt, cfg) == <<0, opt, cfg>>
Child(n, au) == <<1, n, au>>
Attr(r) == [out |-> r.out, dig |-> r.dig, ch |-> r.ch, fs |-> r.fs]

\* discrepancies of an event, as a set of <<aspect, text...>>
Life(r, want) == IF \A f \in DOMAIN want : want[f] = r[f] THEN {}
                 ELSE {<<"life", [f \in {g \in DOMAIN want : want[g] # r[g]} |-> <<"expected", want[f], "got", r[f]>>]>>}
Mem(r) == Life(r, [canary |-> 0, mem |-> 0, inp_ok |-> 1]) \cup
          (IF r.out >= 0 /\ r.out <= r.osz THEN {} ELSE {<<"life", "out", r.out, r.osz>>})
CreateD(r) ==
  LET okay == r.fail = -1 \/ r.fail >= r.nreq
  IN  (IF (r.err = "ok") = okay /\ (okay \/ r.err = NoMemory) THEN {} ELSE {<<"life", "create returned", r.err, "allocation", r.fail, r.nreq>>})
      \cup Life(r, [canary |-> 0, live |-> r.nalloc, nalloc |-> IF okay THEN r.nreq ELSE r.nreq - 1])
      \* an allocation failure ends the requests
      \cup (IF okay \/ r.nreq = r.fail + 1 THEN {} ELSE {<<"life", "requests after a failed one", r.nreq, r.fail>>})
DeleteD(r) == Life(r, [err |-> "ok", live |-> 0, nfree |-> r.nalloc, badfree |-> 0, canary |-> 0])

CallD(i, r, v, x) ==
  (IF x.err = AnyErr \/ x.err = r.err \/ (x.err = SomeErr /\ r.err # "ok") THEN {} ELSE {<<"err", "expected", x.err, "got", r.err>>})
  \cup (IF r.avail = 0 THEN {} ELSE IF r.cons >= 1 /\ r.cons <= r.avail THEN {} ELSE {<<"bound", "consumed", r.cons, "of", r.avail>>})
  \cup (IF x.cons = 0 \/ x.cons = r.cons THEN {} ELSE {<<"cons", "expected", x.cons, "got", r.cons>>})
  \cup (IF x.err # AnyErr /\ x.err = r.err /\ x.hist # "child" /\ r.out # 0 THEN {<<"pcm", "audio without an access unit", r.out>>} ELSE {})
  \cup (IF r.err # "ok" /\ r.out # 0 THEN {<<"pcm", "audio with an error", r.out, r.err>>} ELSE {})
  \cup Mem(r)

\* what the table says about the history the call leads to
TabD(key, r) ==
  IF key = <<>> \/ key \notin DOMAIN tab THEN {}
  ELSE LET a == tab[key] IN
       (IF a.out = r.out /\ a.dig = r.dig THEN {} ELSE {<<"pcm", "same history, different audio", a.out, r.out>>}) \cup
       (IF a.ch = r.ch /\ a.fs = r.fs /\ (r.e # "init" \/ a.rep = <<>> \/ a.rep = r.rep) THEN {}
        ELSE {<<"rep", "same history, different report", a.ch, r.ch, a.fs, r.fs, a.rep, r.rep>>})

TInit == l = 1 /\ ins = <<>> /\ node = <<>> /\ tab = <<>> /\ say = 0
Put(f, k, v) == (k :> v) @@ f

Report(ds) == LET q == {d \in ds : d[1] \in Aspects} IN
              IF q # {} THEN Say("REJECT", <<l>> \o SetToSeq(q)) ELSE TRUE

TCreate(r) ==
  LET x == Create(Cell(r.k), r.opt, r.err = "ok") ds == CreateD(r) IN
  /\ Report(ds) /\ ins' = Put(ins, r.k, x.to) /\ node' = Put(node, r.k, 0) /\ UNCHANGED tab
TDelete(r) ==
  /\ Report(DeleteD(r)) /\ ins' = Put(ins, r.k, None) /\ UNCHANGED <<node, tab>>
TCall(r) ==
  LET i == Cell(r.k)
      v == IF i.st = "lost" THEN Bad ELSE View(r)
      x == IF i.st = "lost" THEN Res(AnyErr, 0, "same", i) ELSE IF r.e = "init" THEN Init(i, v, r.avail) ELSE Exec(i, v, r.avail)
      key == IF x.hist = "root" THEN Root(i.opt, v.id)
             ELSE IF x.hist = "child" /\ i.clean THEN Child(node[r.k], v.id) ELSE <<>>
      known == key # <<>> /\ key \in DOMAIN tab
      ds == CallD(i, r, v, x) \cup (IF r.err = "ok" THEN TabD(key, r) ELSE {})
            \cup (IF Strict /\ v.k = "bad" /\ i.st # "lost" /\ i.clean THEN {<<"strict", "unknown input">>} ELSE {})
      id == IF known THEN tab[key].id ELSE Cardinality(DOMAIN tab) + 1
      hard == {d \in ds : d[1] \in {"err", "cons", "bound", "strict"}} # {}
  IN  /\ Report(ds)
      /\ ins' = Put(ins, r.k, IF hard THEN [x.to EXCEPT !.st = "lost"] ELSE x.to)
      /\ node' = IF key # <<>> THEN Put(node, r.k, id) ELSE node
      /\ tab' = IF key = <<>> \/ known \/ r.err # "ok" THEN
                   (IF known /\ r.e = "init" /\ tab[key].rep = <<>> THEN [tab EXCEPT ![key].rep = r.rep] ELSE tab)
                ELSE (key :> [id |-> id, out |-> r.out, dig |-> r.dig, ch |-> r.ch, fs |-> r.fs, rep |-> IF r.e = "init" THEN r.rep ELSE <<>>]) @@ tab
TNext == /\ l <= Len(Trace)
         /\ LET r == Trace[l] IN
            CASE r.e = "create" -> TCreate(r) [] r.e = "delete" -> TDelete(r) [] r.e \in {"init", "exec"} -> TCall(r)
              [] OTHER -> Report({<<"life", "the decoder did not return", r.e>>}) /\ UNCHANGED <<ins, node, tab>>
         /\ l' = l + 1 /\ say' = say
TSpec == TInit /\ [][TNext]_vars
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace), Cardinality(DOMAIN tab)>>)
=============================================================================
