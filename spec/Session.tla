------------------------------- MODULE Session ------------------------------
(* A decoder instance, its life cycle and its calls.

   An instance is a record
     st    "none"     no create call yet (or deleted)
           "failed"   create failed: only delete is possible
           "created"  init has not succeeded yet
           "ready"    decoding
           "wait"     a switch to a new configuration failed in mid-stream: init is needed again
           "lost"     its state can not be predicted any more (damaged input); only the robustness rules apply
     opt   the decoder options it was created with
     cfg   the stream configuration in force (an identifier; 0: none)
     clean FALSE once a damaged or incomplete access unit has been fed to it

   A call is offered n bytes, of which it makes a view v:
     k     "cfg"   configuration packet v.id comes first      "au"   access unit v.id comes first
           "cut"   an access unit comes first, but not all of it is there
           "none"  no significant packet is complete          "bad"  something the decoder must report or may misread
     end   number of bytes up to the end of that packet

   Init and Exec say what the call returns, how much it consumes and what becomes of the instance.  What is decoded is
   not interpreted: hist says how the decoding history (the thing the PCM is a function of) develops:
     "root" starts afresh at a configuration, "child" is extended by the access unit, "same" is unchanged.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitShort == "IA_MPEGH_DEC_INIT_NONFATAL_INSUFFICIENT_INPUT_BYTES"
ExecShort == "IA_MPEGH_DEC_EXE_NONFATAL_INSUFFICIENT_INPUT_BYTES"
NoConfig  == "IA_MPEGH_DEC_INIT_FATAL_3DACONFIG_DATA_NOT_FOUND"
NotReady  == "IA_MPEGH_DEC_INIT_FATAL_ERROR"
NoMemory  == "IA_MPEGH_DEC_API_FATAL_MEM_ALLOC"
AnyErr    == "any"        \* any outcome
SomeErr   == "error"      \* any outcome but success

None   == [st |-> "none", opt |-> 0, cfg |-> 0, clean |-> TRUE]
MinN(a, b) == IF a < b THEN a ELSE b

\* err: return code; cons: bytes consumed (0: anything within 1..n); hist; to: the instance afterwards
Res(err, cons, hist, to) == [err |-> err, cons |-> cons, hist |-> hist, to |-> to]

Create(i, opt, okay) ==
  IF okay THEN Res("ok", 0, "same", [None EXCEPT !.st = "created", !.opt = opt])
  ELSE Res(NoMemory, 0, "same", [None EXCEPT !.st = "failed", !.opt = opt])

Init(i, v, n) ==
  CASE v.k = "cfg"  -> Res("ok", v.end, "root", [i EXCEPT !.st = "ready", !.cfg = v.id, !.clean = TRUE])
    [] v.k \in {"au", "cut"} -> Res(NoConfig, MinN(v.end, n), "same", i)
    [] v.k = "none" -> Res(InitShort, n, "same", i)
    [] OTHER        -> Res(AnyErr, 0, "same", [i EXCEPT !.st = "lost"])

Exec(i, v, n) ==
  IF i.st # "ready" THEN Res(NotReady, 1, "same", i)
  ELSE CASE v.k = "au"   -> IF i.clean THEN Res("ok", v.end, "child", i) ELSE Res(AnyErr, 0, "child", i)
         [] v.k = "cut"  -> Res(IF i.clean THEN SomeErr ELSE AnyErr, 0, "same", [i EXCEPT !.clean = FALSE])
         [] v.k = "none" -> Res(ExecShort, n, "same", i)
         [] v.k = "cfg"  -> IF v.id = i.cfg THEN Res("ok", v.end, "same", i)
                            ELSE Res("ok", v.end, "root", [i EXCEPT !.cfg = v.id, !.clean = TRUE])
         [] OTHER        -> Res(AnyErr, 0, "same", [i EXCEPT !.st = "lost"])
=============================================================================
