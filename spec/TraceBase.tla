----------------------------- MODULE TraceBase -----------------------------
(* State and reporting shared by the parts of the trace specification.       *)
EXTENDS Prims, TxSig, HD, Json, IOUtils
VARIABLES l,      \* position in the log
          objs,   \* the library objects of the current scenario, abstractly
          rej     \* number of rejected scenarios so far
vars == <<l, objs, rej>>

TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Has(e, f) == f \in DOMAIN e
Opt(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
Flag(b) == IF b THEN 1 ELSE 0

(* ok(..) with a report of what differed *)
Chk(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "spec", exp, "impl", got>>) /\ FALSE
(* the same for byte strings, recorded in hex *)
ChkB(what, exp, got) == Chk(what, ToHexStr(exp), got)
ChkIn(what, set, got) == IF got \in set THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "spec", set, "impl", got>>) /\ FALSE
Res(ok, o) == [ok |-> ok, objs |-> o]
Pure(ok) == Res(ok, objs)

----------------------------------------------------------------------------
(* Objects.  st: 0 done, 1 incomplete, 2 failed, 9 unspecified; buf: bytes   *)
(* consumed so far while incomplete; ok: the value is determined.            *)
Obj(k, v)  == [k |-> k, st |-> 0, buf |-> <<>>, ok |-> TRUE, v |-> v]
Unknown(k) == [k |-> k, st |-> 0, buf |-> <<>>, ok |-> FALSE, v |-> <<>>]
Wild(k)    == [k |-> k, st |-> 9, buf |-> <<>>, ok |-> FALSE, v |-> <<>>]
Put(i, x) == (i :> x) @@ objs
Val(i) == objs[i].v
=============================================================================
