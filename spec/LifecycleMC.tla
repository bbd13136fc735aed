----------------------------- MODULE LifecycleMC ----------------------------
(* Blocks of memory over the life of several instances: create makes NREQ requests one after the other and gives up at
   the first that fails; delete frees what was obtained, last first; no other call allocates or frees.
   Exhaustive over histories of at most STEPS calls and over the request that fails in each create.            *)
EXTENDS Session
CONSTANTS NI, NREQ, STEPS
Ids == 1..NI
VARIABLES ins, blocks, frees, touched, n
vars == <<ins, blocks, frees, touched, n>>
LInit == /\ ins = [i \in Ids |-> None] /\ blocks = [i \in Ids |-> {}]
         /\ frees = [i \in Ids |-> [b \in 1..NREQ |-> 0]] /\ touched = 0 /\ n = 0
LCreate(i) == /\ ins[i].st = "none"
              /\ \E f \in 0..NREQ :         \* f: the request that fails, 0: none
                   /\ ins' = [ins EXCEPT ![i] = Create(@, 1, f = 0).to]
                   /\ blocks' = [blocks EXCEPT ![i] = IF f = 0 THEN 1..NREQ ELSE 1..(f - 1)]
                   /\ frees' = [frees EXCEPT ![i] = [b \in 1..NREQ |-> 0]]
                   /\ touched' = i
LCall(i) == /\ ins[i].st \in {"created", "ready"}
            /\ \E k \in {"cfg", "au", "cut", "none", "bad"} : \E id \in 1..2 :
                 LET v == [k |-> k, id |-> id, end |-> 1]
                     r == IF ins[i].st = "created" THEN Init(ins[i], v, 1) ELSE Exec(ins[i], v, 1)
                 IN ins' = [ins EXCEPT ![i] = r.to]
            /\ touched' = 0 /\ UNCHANGED <<blocks, frees>>
LDelete(i) == /\ ins[i].st # "none"
              /\ ins' = [ins EXCEPT ![i] = None]
              /\ frees' = [frees EXCEPT ![i] = [b \in 1..NREQ |-> @[b] + IF b \in blocks[i] THEN 1 ELSE 0]]
              /\ blocks' = [blocks EXCEPT ![i] = {}] /\ touched' = i
LNext == n < STEPS /\ n' = n + 1 /\ \E i \in Ids : LCreate(i) \/ LCall(i) \/ LDelete(i)
LSpec == LInit /\ [][LNext]_vars
Inv_Once == \A i \in Ids : \A b \in 1..NREQ : frees[i][b] <= 1 /\ (b \in blocks[i] => frees[i][b] = 0)
Inv_Return == \A i \in Ids : ins[i].st = "none" => blocks[i] = {}
Inv_Whole == \A i \in Ids : ins[i].st \in {"created", "ready", "lost"} => blocks[i] = 1..NREQ
Prop_Only == [][\A i \in Ids : blocks[i] # blocks'[i] => (ins[i].st = "none" \/ ins'[i].st = "none")]_vars
=============================================================================
