----------------------------- MODULE SessionGen -----------------------------
(* Behaviours of Session drawn by TLC's simulator, as schedules for the drivers.
   Streams are sequences of packets: <<"c", n>> configuration n, <<"a", 0>> the next access unit of the configuration in
   force, <<"x", t>> an ancillary packet of kind t.  Each call is offered one of: exactly what it needs, a bit more,
   all there is, or less than it needs.
   LESS (environment) allows the last; MULTI is the number of instances; CFGS configurations; EPOCH allows more than one.  *)
EXTENDS Session, Json, IOUtils
Say(tag, x) == PrintT("VP-" \o tag \o " " \o ToJson(x))
Num(s) == atoi(s)
NI == Num(IOEnv.MULTI)
NC == Num(IOEnv.CFGS)
LESS == Num(IOEnv.LESS)
EPOCH == Num(IOEnv.EPOCH)
ANC == Num(IOEnv.ANC)
STEPS == Num(IOEnv.STEPS)
Ids == 0..(NI - 1)
VARIABLES ins, stm, at, log, n
vars == <<ins, stm, at, log, n>>

RandPkt(j) ==
  LET r == RandomElement(1..20) IN
  IF r <= 2 /\ EPOCH = 1 THEN <<"c", RandomElement(1..NC)>>
  ELSE IF r <= 9 /\ ANC = 1 THEN <<"x", RandomElement(0..20)>>
  ELSE <<"a", 0>>
RandAnc(j) == IF ANC = 1 THEN <<"x", RandomElement(0..20)>> ELSE <<"a", 0>>
RandStream(j) ==
  LET head == IF ANC = 1 THEN [i \in 1..RandomElement(0..2) |-> RandAnc(i)] ELSE <<>> IN
  head \o <<<<"c", RandomElement(1..NC)>>>> \o [i \in 1..RandomElement(3..14) |-> RandPkt(i)]

\* position after the next significant packet
RECURSIVE Past(_, _)
Past(s, p) == IF p > Len(s) THEN p ELSE IF s[p][1] = "x" THEN Past(s, p + 1) ELSE p + 1

GInit == ins = [k \in Ids |-> None] /\ stm = [k \in Ids |-> <<>>] /\ at = [k \in Ids |-> 1] /\ log = <<>> /\ n = 0
Create2(k) == /\ ins[k].st = "none"
              /\ \E s \in {RandStream(n)} : \E fl \in {RandomElement(0..3)} :
                   /\ stm' = [stm EXCEPT ![k] = s]
                   /\ log' = Append(log, <<"create", k, s, fl>>)
                   /\ ins' = [ins EXCEPT ![k] = Create(@, 1, TRUE).to] /\ at' = [at EXCEPT ![k] = 1]
Delete2(k) == /\ ins[k].st # "none" /\ ins' = [ins EXCEPT ![k] = None] /\ log' = Append(log, <<"delete", k>>) /\ UNCHANGED <<stm, at>>
View2(k, m) ==
  LET p == Past(stm[k], at[k]) IN
  IF p > Len(stm[k]) + 1 \/ (p = Len(stm[k]) + 1 /\ stm[k][Len(stm[k])][1] = "x") THEN [k |-> "none", id |-> 0, end |-> 1]
  ELSE LET q == stm[k][p - 1] IN
       IF q[1] = "c" THEN [k |-> IF m = "less" THEN "none" ELSE "cfg", id |-> q[2], end |-> 1]
       ELSE [k |-> IF m = "less" THEN "cut" ELSE "au", id |-> 1, end |-> 1]
Call2(k) == /\ ins[k].st \in {"created", "ready"} /\ at[k] <= Len(stm[k])
            /\ \E m \in {IF LESS = 1 /\ RandomElement(1..8) = 1 THEN "less" ELSE RandomElement({"need", "more", "all"})} :
               LET v == View2(k, m)
                   r == IF ins[k].st = "created" THEN Init(ins[k], v, 1) ELSE Exec(ins[k], v, 1)
               IN /\ ins' = [ins EXCEPT ![k] = r.to]
                  /\ at' = [at EXCEPT ![k] = IF m = "less" THEN @ ELSE Past(stm[k], @)]     \* offered again after too little
                  /\ log' = Append(log, <<"call", k, m>>)
                  /\ UNCHANGED stm
GNext == \/ n < STEPS /\ n' = n + 1 /\ \E k \in Ids : Create2(k) \/ Call2(k) \/ ((n % 7 = 3 \/ \A j \in Ids : ins[j].st # "none" /\ at[j] > Len(stm[j])) /\ Delete2(k))
         \/ n >= STEPS /\ n < STEPS + 1000 /\ n' = n + 1000 /\ Say("GEN", log) /\ UNCHANGED <<ins, stm, at, log>>
GSpec == GInit /\ [][GNext]_vars
=============================================================================
