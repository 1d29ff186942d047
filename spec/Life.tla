-------------------------------- MODULE Life --------------------------------
(* Life of streamed objects: created, fed (wholly, in part, with rubbish),   *)
(* reset, copied, assigned and destroyed, in any order.  An object is known  *)
(* by what a reader may rely on: nothing, a complete value, a part of one,   *)
(* or that parsing failed; prev remembers the value it held before, because  *)
(* what is left of it must never show.                                       *)
(* TLC checks that the interface rules below keep values independent, and    *)
(* exports one history per transition of this machine; check.py replays them *)
(* into the library for every kind of object and validates the recording     *)
(* with module Trace.                                                        *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Slots, Values, Track
VARIABLES slot, hist, last, from
vars == <<slot, hist, last, from>>
None == "none"
Absent == [st |-> "absent", v |-> None, prev |-> None]
Fresh  == [st |-> "fresh", v |-> None, prev |-> None]
Live(i) == slot[i].st # "absent"
(* the value being replaced, remembered if the object had a complete one *)
Old(o) == IF ~Track THEN None ELSE IF o.st = "done" THEN o.v ELSE o.prev
Put(i, o) == slot' = [slot EXCEPT ![i] = o]
Do(op) == hist' = Append(hist, op) /\ last' = op /\ from' = slot
New(i) == ~Live(i) /\ Put(i, Fresh) /\ Do(<<"new", i>>)
Del(i) == Live(i) /\ Put(i, Absent) /\ Do(<<"del", i>>)
(* all of a value: complete, unless an earlier part is waiting (what then     *)
(* results depends on the bytes, so the model forgets the object)            *)
Open == [st |-> "open", v |-> None, prev |-> None]
Feed(i, v) == /\ Live(i) /\ slot[i].st # "open"
              /\ Put(i, CASE slot[i].st = "fail" -> slot[i]
                          [] slot[i].st = "part" -> Open
                          [] OTHER -> [st |-> "done", v |-> v, prev |-> Old(slot[i])])
              /\ Do(<<"feed", i, v>>)
Head1(i, v) == /\ slot[i].st \in {"fresh", "done", "fail"}
               /\ Put(i, IF slot[i].st = "fail" THEN slot[i] ELSE [st |-> "part", v |-> v, prev |-> Old(slot[i])])
               /\ Do(<<"head", i, v>>)
Rest(i, v) == /\ slot[i].st = "part" /\ slot[i].v = v
              /\ Put(i, [slot[i] EXCEPT !.st = "done"])
              /\ Do(<<"rest", i, v>>)
Rubbish(i) == /\ slot[i].st \in {"fresh", "done", "part", "fail"}
              /\ Put(i, [st |-> "fail", v |-> None, prev |-> Old(slot[i])])
              /\ Do(<<"bad", i>>)
Nothing(i) == slot[i].st \in {"part", "fail"} /\ UNCHANGED slot /\ Do(<<"empty", i>>)
Reset(i) == Live(i) /\ Put(i, [st |-> "fresh", v |-> None, prev |-> Old(slot[i])]) /\ Do(<<"reset", i>>)
CopyOf(o) == IF o.st \in {"done", "fresh"} THEN [o EXCEPT !.prev = None] ELSE Open
Copy(i, j) == ~Live(i) /\ Live(j) /\ i # j /\ Put(i, CopyOf(slot[j])) /\ Do(<<"copy", i, j>>)
Assign(i, j) == /\ Live(i) /\ Live(j)
                /\ Put(i, IF i = j THEN slot[i] ELSE [CopyOf(slot[j]) EXCEPT !.prev = IF CopyOf(slot[j]).st = "open" THEN None ELSE Old(slot[i])])
                /\ Do(<<"assign", i, j>>)
Init == slot = [i \in Slots |-> Absent] /\ hist = <<>> /\ last = <<"init">> /\ from = slot
Next == \E i \in Slots : \/ New(i) \/ Del(i) \/ Rubbish(i) \/ Nothing(i) \/ Reset(i)
                         \/ \E v \in Values : Feed(i, v) \/ Head1(i, v) \/ Rest(i, v)
                         \/ \E j \in Slots : Copy(i, j) \/ Assign(i, j)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* a complete object holds one of the values it was given or copied *)
TypeOK == \A i \in Slots : /\ slot[i].st \in {"absent", "fresh", "done", "part", "fail", "open"}
                           /\ (slot[i].st \in {"done", "part"} => slot[i].v \in Values)
(* whose value the history says object i has: replaying it from scratch *)
RECURSIVE Says(_, _)
Says(h, i) ==
    IF h = <<>> THEN <<"absent">>
    ELSE LET op == h[Len(h)]
             p == SubSeq(h, 1, Len(h) - 1)
         IN IF op[2] # i THEN Says(p, i)        \* operations on other objects do not matter
            ELSE LET was == Says(p, i) IN
                 CASE op[1] \in {"new", "reset"} -> <<"idle">>
                   [] op[1] = "del" -> <<"absent">>
                   [] op[1] = "feed" -> IF was[1] \in {"idle", "has"} THEN <<"has", op[3]>> ELSE IF was[1] = "bad" THEN was ELSE <<"?">>
                   [] op[1] = "head" -> IF was[1] = "bad" THEN was ELSE <<"part", op[3]>>
                   [] op[1] = "rest" -> <<"has", op[3]>>
                   [] op[1] = "bad" -> <<"bad">>
                   [] op[1] = "empty" -> was
                   [] op[1] = "assign" /\ op[3] = i -> was
                   [] OTHER -> LET s == Says(p, op[3]) IN IF s[1] \in {"idle", "has"} THEN s ELSE <<"?">>
Independent == \A i \in Slots : CASE slot[i].st = "done" -> Says(hist, i) = <<"has", slot[i].v>>
                                  [] slot[i].st = "part" -> Says(hist, i) = <<"part", slot[i].v>>
                                  [] slot[i].st = "fail" -> Says(hist, i) = <<"bad">>
                                  [] slot[i].st = "absent" -> Says(hist, i) = <<"absent">>
                                  [] OTHER -> TRUE
Export == Len(hist) = 0 \/ PrintT("HIST " \o ToString(hist))
View == <<from, slot, last>>
=============================================================================
