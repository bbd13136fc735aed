------------------------------ MODULE SessionMC -----------------------------
(* Exhaustive exploration of Session over all short packet sequences, all ways of handing them over in buffers that
   hold at least one whole packet beyond what is transparent, and all interleavings of the instances.
   The abstract decoder of a packet sequence is Decode: the list of <<configuration, access units so far>> it outputs.
   Invariants: what instances output is a prefix of Decode(their stream), whatever the schedule and the buffers
   (S04, S09); ancillary packets do not matter (S05); a repeated configuration does not matter, a different one
   restarts (S08); each call consumes within its buffer and ends at a packet boundary (S02).                      *)
EXTENDS Session
CONSTANTS NI, LEN
Anc  == {"fill"}
Pkts == {"c1", "c2", "a1", "a2", "fill"}
Size(p) == IF p = "fill" THEN 1 ELSE IF p \in {"c1", "c2"} THEN 2 ELSE 3
Ids == 1..NI
VARIABLES stm, pos, ins, hist, outp, calls, lastc
vars == <<stm, pos, ins, hist, outp, calls, lastc>>

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + Total(Tail(s))
\* packets from byte offset p (always a boundary here)
RECURSIVE From(_, _)
From(s, p) == IF p <= 0 THEN s ELSE From(Tail(s), p - Size(Head(s)))
RECURSIVE View(_, _, _)
View(s, n, acc) ==
  IF s = <<>> THEN [k |-> "none", id |-> 0, end |-> 0]
  ELSE LET p == Head(s) e == acc + Size(p) IN
       IF p \in Anc THEN (IF e > n THEN [k |-> "none", id |-> 0, end |-> 0] ELSE View(Tail(s), n, e))
       ELSE IF acc + 1 > n THEN [k |-> "none", id |-> 0, end |-> 0]
       ELSE IF p \in {"c1", "c2"} THEN (IF e > n THEN [k |-> "none", id |-> 0, end |-> 0] ELSE [k |-> "cfg", id |-> IF p = "c1" THEN 1 ELSE 2, end |-> e])
       ELSE [k |-> IF e > n THEN "cut" ELSE "au", id |-> IF p = "a1" THEN 1 ELSE 2, end |-> e]
\* number of bytes up to the end of the next significant packet: the smallest buffer a caller may offer
RECURSIVE Need(_)
Need(s) == IF s = <<>> THEN 0 ELSE IF Head(s) \in Anc THEN Size(Head(s)) + Need(Tail(s)) ELSE Size(Head(s))

RECURSIVE Dec(_, _, _)
Dec(s, c, h) ==
  IF s = <<>> THEN <<>>
  ELSE LET p == Head(s) IN
       CASE p \in Anc -> Dec(Tail(s), c, h)
         [] p \in {"c1", "c2"} -> Dec(Tail(s), p, IF p = c THEN h ELSE <<>>)
         [] OTHER -> IF c = "" THEN Dec(Tail(s), c, h)
                     ELSE <<<<c, Append(h, p)>>>> \o Dec(Tail(s), c, Append(h, p))
Decode(s) == Dec(s, "", <<>>)
Significant(s) == SelectSeq(s, LAMBDA p : p \notin Anc)

Streams == UNION {[1..l -> Pkts] : l \in 1..LEN}
MInit == /\ stm \in [Ids -> Streams]
         /\ pos = [i \in Ids |-> 0] /\ ins = [i \in Ids |-> None] /\ hist = [i \in Ids |-> <<"", <<>>>>]
         /\ outp = [i \in Ids |-> <<>>] /\ calls = [i \in Ids |-> 0] /\ lastc = [n |-> 1, cons |-> 1]

DoCreate(i) == /\ ins[i].st = "none" /\ ins' = [ins EXCEPT ![i] = Create(@, 1, TRUE).to]
               /\ UNCHANGED <<stm, pos, hist, outp, calls, lastc>>
Call(i, n) ==
  LET rest == From(stm[i], pos[i])
      v == View(rest, n, 0)
      ini == ins[i].st = "created"
      r == IF ini THEN Init(ins[i], v, n) ELSE Exec(ins[i], v, n)
      cons == IF r.cons = 0 THEN 1 ELSE r.cons
      h == IF r.hist = "root" THEN <<IF v.id = 1 THEN "c1" ELSE "c2", <<>>>>
           ELSE IF r.hist = "child" THEN <<hist[i][1], Append(hist[i][2], IF v.id = 1 THEN "a1" ELSE "a2")>> ELSE hist[i]
  IN  /\ ins' = [ins EXCEPT ![i] = r.to]
      /\ hist' = [hist EXCEPT ![i] = h]
      /\ outp' = [outp EXCEPT ![i] = IF r.hist = "child" THEN Append(@, h) ELSE @]
      /\ pos' = [pos EXCEPT ![i] = @ + cons]
      /\ lastc' = [n |-> n, cons |-> cons]
      /\ calls' = [calls EXCEPT ![i] = @ + 1]
      /\ UNCHANGED stm
MNext == \E i \in Ids :
           \/ DoCreate(i)
           \/ /\ ins[i].st \in {"created", "ready"} /\ pos[i] < Total(stm[i])
              /\ \E n \in Need(From(stm[i], pos[i]))..(Total(stm[i]) - pos[i]) : n > 0 /\ Call(i, n)
MSpec == MInit /\ [][MNext]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Inv_Output == \A i \in Ids : Prefix(outp[i], Decode(stm[i])) /\ (pos[i] = Total(stm[i]) => outp[i] = Decode(stm[i]))
Inv_Ancillary == \A i \in Ids : Decode(stm[i]) = Decode(Significant(stm[i]))
Inv_Progress == lastc.cons \in 1..lastc.n
Inv_Boundary == \A i \in Ids : \E k \in 0..Len(stm[i]) : Total(SubSeq(stm[i], 1, k)) = pos[i]
Inv_Clean == \A i \in Ids : ins[i].clean
=============================================================================
