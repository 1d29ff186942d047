------------------------------ MODULE MC_Wipe ------------------------------
(* Where secrets are while keys are made, read, copied, replaced, used and   *)
(* destroyed.  Storage is modelled as halves of the secret and of the chain  *)
(* code, so that a key read in part is visible; destructors run from the     *)
(* derived class to its bases, each erasing its own field; texts are decoded *)
(* in working memory that is erased before it is given back.                 *)
(* TLC checks that the erasing rules suffice: free storage and memory given  *)
(* back hold nothing, a complete key holds its own secret only, and no       *)
(* operation disturbs another key.  One history per transition is exported   *)
(* and replayed into the library (C25).                                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Cells, Secrets, Kinds
VARIABLES kind, mem, st, val, heap, hist, last, from
vars == <<kind, mem, st, val, heap, hist, last, from>>
No == "-"
Blank == [num |-> <<No, No>>, cc |-> <<No, No>>]
HasCC == kind = "hdprv"
Full(v) == [num |-> <<v, v>>, cc |-> IF HasCC THEN <<v, v>> ELSE <<No, No>>]
(* the classes of the object, the most derived first, and what each erases *)
Chain == CASE kind = "scalar" -> <<"ECScalar">> [] kind = "prv" -> <<"PrivateKey", "ECScalar">> [] kind = "hdprv" -> <<"HDPrivateKey", "PrivateKey", "ECScalar">>
Erases(c) == IF c = "HDPrivateKey" THEN {"cc", "num"} ELSE {"num"}
RECURSIVE Destroyed(_, _)
Destroyed(s, ch) == IF ch = <<>> THEN s ELSE Destroyed([f \in DOMAIN s |-> IF f \in Erases(ch[1]) THEN <<No, No>> ELSE s[f]], Tail(ch))
Live(i) == st[i] # "absent"
(* working memory: filled while decoding, erased, given back *)
Work(v) == <<v, v>>
Given(block) == heap' = heap \cup {[i \in 1..Len(block) |-> No]}
Put(i, m, s, v) == mem' = [mem EXCEPT ![i] = m] /\ st' = [st EXCEPT ![i] = s] /\ val' = [val EXCEPT ![i] = v]
Do(op) == hist' = Append(hist, op) /\ last' = op /\ from' = <<mem, st>> /\ UNCHANGED kind
Keep == UNCHANGED heap
New(i) == ~Live(i) /\ Put(i, Blank, "empty", No) /\ Keep /\ Do(<<"new", i>>)
Make(i, v) == ~Live(i) /\ Put(i, Full(v), "done", v) /\ Keep /\ Do(<<"make", i, v>>)
Text(i, v) == kind # "scalar" /\ st[i] \in {"empty", "done"} /\ Put(i, Full(v), "done", v) /\ Given(Work(v)) /\ Do(<<"text", i, v>>)
Typo(i, v) == kind # "scalar" /\ st[i] \in {"empty", "done"} /\ Put(i, Blank, "failed", No) /\ Given(Work(v)) /\ Do(<<"typo", i, v>>)
(* the first part of a serialized key: an old chain code is overwritten first *)
Part(i, v) == /\ st[i] \in {"empty", "done"}
              /\ Put(i, [num |-> <<v, IF HasCC THEN No ELSE mem[i].num[2]>>, cc |-> IF HasCC THEN <<v, v>> ELSE <<No, No>>], "part", v)
              /\ Keep /\ Do(<<"part", i, v>>)
Rest(i) == st[i] = "part" /\ Put(i, Full(val[i]), "done", val[i]) /\ Keep /\ Do(<<"rest", i>>)
Set(i, v) == st[i] = "done" /\ kind # "hdprv" /\ Put(i, Full(v), "done", v) /\ Keep /\ Do(<<"set", i, v>>)
Copy(i, j) == ~Live(i) /\ Live(j) /\ i # j /\ Put(i, mem[j], st[j], val[j]) /\ Keep /\ Do(<<"copy", i, j>>)
Assign(i, j) == Live(i) /\ Live(j) /\ Put(i, mem[j], st[j], val[j]) /\ Keep /\ Do(<<"assign", i, j>>)
Use(i) == st[i] = "done" /\ UNCHANGED <<mem, st, val>> /\ Given(Work(val[i])) /\ Do(<<"use", i>>)
Del(i) == Live(i) /\ Put(i, Destroyed(mem[i], Chain), "absent", No) /\ Keep /\ Do(<<"del", i>>)
Init == /\ kind \in Kinds /\ mem = [i \in Cells |-> Blank] /\ st = [i \in Cells |-> "absent"] /\ val = [i \in Cells |-> No]
        /\ heap = {} /\ hist = <<>> /\ last = <<"init">> /\ from = <<mem, st>>
Next == \E i \in Cells : \/ New(i) \/ Rest(i) \/ Use(i) \/ Del(i)
                         \/ \E v \in Secrets : Make(i, v) \/ Text(i, v) \/ Typo(i, v) \/ Part(i, v) \/ Set(i, v)
                         \/ \E j \in Cells : Copy(i, j) \/ Assign(i, j)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Held(m) == {m.num[1], m.num[2], m.cc[1], m.cc[2]} \ {No}
Gone == \A i \in Cells : st[i] = "absent" => Held(mem[i]) = {}
Only == \A i \in Cells : /\ (st[i] = "done" => mem[i] = Full(val[i]))
                         /\ (st[i] \in {"empty", "failed"} => Held(mem[i]) = {})
Returned == \A b \in heap : \A i \in 1..Len(b) : b[i] = No
(* whatever happens to one key leaves the others alone *)
Alone == [][\A i \in Cells : (last' # last /\ last'[2] # i) => mem'[i] = mem[i] /\ st'[i] = st[i]]_vars
Export == Len(hist) = 0 \/ PrintT("HIST " \o ToString(<<kind, hist>>))
View == <<kind, from, mem, st, last>>
=============================================================================
