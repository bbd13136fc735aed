------------------------------ MODULE BinTrace ------------------------------
(* Decodes with binaural data.  r.ci: layout of the stream, r.cq: layout asked for or 0, r.reps: the representations, r.units:
   access units, r.pre: access units of another stream with the same layout before it, or 0, r.late, r.late0: samples left out at the beginning of it and of the other one, r.err, r.lens: samples put out in each call, r.ears: of each ear,
   <<what it was said to hear, largest deviation from that in parts per million of the peak>> *)
EXTENDS Binaural, TLC, Json, IOUtils
Say(tag, x) == PrintT("VP-" \o tag \o " " \o ToJson(x))
Trace == ndJsonDeserialize(IOEnv.TRACE)
Out(r) == Layout(IF r.cq = 0 THEN r.ci ELSE r.cq)
Lens(r) == LET q == r.reps[Len(r.reps)] IN Parts(q, r.late0, r.pre) \o Parts(q, r.late, r.units)     \* the other stream's last block is lost
Fail == "IA_MPEGH_BINAURAL_INIT_FATAL_INIT_FAIL"
Check(r) ==
  LET x == Expect(r.reps, 48000, Out(r)) IN
  IF x.e = "fail" THEN IF r.err = Fail /\ r.lens = <<>> THEN <<>> ELSE <<"accepted responses that do not cover the loudspeakers", r.err, r.lens>>
  ELSE IF r.err # "" THEN <<"error", r.err>>
  ELSE IF r.lens # Lens(r) THEN <<"samples", r.lens, Lens(r)>>
  ELSE IF \E e \in {1, 2} : r.ears[e][1] # x.h[e] THEN <<"compared with something else">>
  ELSE IF \E e \in {1, 2} : r.ears[e][2] > 200 THEN <<"ears deviate by", r.ears[1][2], r.ears[2][2]>> ELSE <<>>
VARIABLE l
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET j == Check(Trace[l]) IN IF j # <<>> THEN Say("REJECT", <<l>> \o j) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
