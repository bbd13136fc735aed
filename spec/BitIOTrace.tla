------------------------------ MODULE BitIOTrace ----------------------------
(* Every recorded operation sequence of the real bit reader / writer must be a behaviour of BitIO. *)
EXTENDS BitIO
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k        \* record, operation within the record
tvars == <<pos, ret, err, l, k>>

\* an "ops" record: .b bytes, .ops <<[o, a..]>>, .ev <<<<hi, lo, pos, err>>>>
Op(r, i) == r.ops[i]
Act(r, i) ==
  LET q == Op(r, i) b == r.b IN
  CASE q.o = "r" -> Read(b, q.x[1])
    [] q.o = "s" -> Show(b, q.x[1])
    [] q.o = "k" -> SkipBits(b, q.x[1])
    [] q.o = "w" -> Read(b, 32)
    [] q.o = "e" -> Escape(b, q.x[1], q.x[2], q.x[3])
Logged(r, i) == ret' = <<r.ev[i][1], r.ev[i][2]>> /\ pos' = r.ev[i][3] /\ err' = r.ev[i][4]

\* a "wr" record: what was written, as the standard's escape coding
RECURSIVE WriteBits(_, _)
EscW(v, n1, n2, n3) ==
  LET m1 == Pow2[n1] - 1  m2 == Pow2[n2] - 1  m3 == Pow2[n3] - 1
      Least(x, y) == IF x < y THEN x ELSE y IN
  IF v < m1 THEN ToBits(v, n1)
  ELSE IF v - m1 < m2 THEN ToBits(m1, n1) \o ToBits(v - m1, n2)
  ELSE ToBits(m1, n1) \o ToBits(m2, n2) \o ToBits(Least(v - m1 - m2, m3), n3)
Piece(q) == IF q.o = "b" THEN ToBits(q.x[1], q.x[2]) ELSE EscW(q.x[1], q.x[2], q.x[3], q.x[4])
WriteBits(ops, i) == IF i > Len(ops) THEN <<>> ELSE Piece(ops[i]) \o WriteBits(ops, i + 1)
WrOk(r) ==
  LET w == WriteBits(r.ops, 1) IN
  /\ r.over = 0
  /\ r.cnt = Len(w)
  /\ \A i \in 1..Len(r.ops) : r.ret[i] = Len(Piece(r.ops[i]))
  /\ \A i \in 1..Len(w) : BitAt(r.buf, i - 1) = w[i]

TInit == BInit /\ l = 1 /\ k = 1
Rec == Trace[l]
NextRec == l' = l + 1 /\ k' = 1 /\ pos' = 0 /\ ret' = <<0, 0>> /\ err' = 0
Reject(why) == Say("REJECT", <<l, why>>) /\ NextRec
Step ==
  /\ l <= Len(Trace)
  /\ IF "crash" \in DOMAIN Rec THEN Reject(<<"crash">>)
     ELSE IF Rec.k = "wr" THEN (IF WrOk(Rec) THEN NextRec ELSE Reject(<<"written bits differ">>))
     ELSE IF k > Len(Rec.ops) THEN NextRec
     ELSE \/ /\ Act(Rec, k) /\ Logged(Rec, k) /\ l' = l /\ k' = k + 1
          \/ /\ ~ ENABLED (Act(Rec, k) /\ Logged(Rec, k))
             /\ Reject(<<"op", k, Op(Rec, k), "at", pos, "logged", Rec.ev[k]>>)
TNext == Step
TSpec == TInit /\ [][TNext]_tvars
Done == l = Len(Trace) + 1 => Say("DONE", <<Len(Trace)>>)
=============================================================================
