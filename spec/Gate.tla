-------------------------------- MODULE Gate --------------------------------
(* Which channels sound under an audio scene.  A scene is what Asi reads (x of a reader): groups have members, the
   signals of the stream counted from 0, and a default state; a preset gives states to some of the groups, and the
   others keep their default.  A signal sounds when the group it is in is on.  Without a scene every signal sounds.    *)
EXTENDS Asi
NoScene == [e |-> "none"]
\* state of group g (by index) under preset p, -1: none; <<>> not known
StateOf(x, p, g) ==
  LET q == {k \in 1..Len(x.pre) : x.pre[k][1] = p}
      cs == IF q = {} THEN <<>> ELSE x.pre[CHOOSE k \in q : TRUE][2]
      m == {cs[k][2] : k \in {j \in 1..Len(cs) : cs[j][1] = x.grp[g][1]}}
  IN  IF m = {} THEN <<x.on[g]>> ELSE IF Cardinality(m) = 1 THEN <<CHOOSE v \in m : TRUE>> ELSE <<>>
Knows(x, p) == p = -1 \/ \E k \in 1..Len(x.pre) : x.pre[k][1] = p
\* the scene has rules about presets that are not followed up here
Extended(x, p) == p # -1 /\ 8 \in x.seen
\* state of signal c: 0 or 1, 2 not known
Sounds(x, p, c) ==
  LET gs == {g \in 1..Len(x.mem) : \E k \in 1..Len(x.mem[g]) : x.mem[g][k] = c}
      st == {StateOf(x, p, g) : g \in gs}
  IN  IF Cardinality(st) = 1 /\ st # {<<>>} THEN (CHOOSE v \in st : TRUE)[1] ELSE 2
\* a group that is on has a member which is no signal of the stream
Astray(x, p, n) == \E g \in 1..Len(x.mem) : StateOf(x, p, g) # <<0>> /\ \E k \in 1..Len(x.mem[g]) : x.mem[g][k] >= n
Strays(x, n) == \E g \in 1..Len(x.mem) : \E k \in 1..Len(x.mem[g]) : x.mem[g][k] >= n
=============================================================================
