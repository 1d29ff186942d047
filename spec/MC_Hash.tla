------------------------------ MODULE MC_Hash ------------------------------
(* Streaming hash objects: begin (plain or keyed), write, end, begin again.  *)
(* The compression function is left uninterpreted: its state is the list of  *)
(* blocks it has absorbed, so that two digests are equal exactly when the    *)
(* same blocks went in.  TLC explores every sequence of writes and checks    *)
(* that ending at any moment gives the digest of everything written since    *)
(* the object was last begun, and exports the histories for replay, where a  *)
(* block of Blk bytes stands for the real block of 64 or 128.                *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Blk, LenW, MaxWritten, MaxBegins
ASSUME LenW + 1 < Blk
VARIABLES st, msg, hist, last
vars == <<st, msg, hist, last>>
(* an object: is it running, its key (keyed: ipad block absorbed first), the  *)
(* blocks absorbed, the bytes waiting, how many bytes in all                 *)
Idle == [run |-> FALSE, key |-> "", h |-> <<>>, buf |-> <<>>, n |-> 0]
Pad0(k) == [i \in 1..Blk |-> <<k, i, 0>>]
KeyBlock(key) == IF key = "" THEN <<>> ELSE Pad0(key)
RECURSIVE Absorb(_)
Absorb(s) == IF Len(s.buf) < Blk THEN s
             ELSE Absorb([s EXCEPT !.h = Append(@, SubSeq(s.buf, 1, Blk)), !.buf = SubSeq(@, Blk + 1, Len(@))])
Begin0(key) == Absorb([run |-> TRUE, key |-> key, h |-> <<>>, buf |-> KeyBlock(key), n |-> Len(KeyBlock(key))])
Write0(s, d) == Absorb([s EXCEPT !.buf = @ \o d, !.n = @ + Len(d)])
(* padding: a mark, zeroes, and the length in the last LenW bytes of a block *)
Fill(n) == LET r == (n + 1 + LenW) % Blk IN IF r = 0 THEN 0 ELSE Blk - r
Padding(n) == <<<<"mark", 0, 0>>>> \o [i \in 1..Fill(n) |-> <<"zero", 0, 0>>] \o [i \in 1..LenW |-> <<"len", n, i>>]
Finish(s) == Absorb([s EXCEPT !.buf = @ \o Padding(s.n)])
Digest(s) == LET inner == Finish(s).h IN IF s.key = "" THEN inner ELSE <<"outer", s.key, inner>>
(* the same in one go *)
Chunks(b) == [i \in 1..(Len(b) \div Blk) |-> SubSeq(b, Blk * (i - 1) + 1, Blk * i)]
OneShot(key, m) == LET b == KeyBlock(key) \o m
                       inner == Chunks(b \o Padding(Len(b)))
                   IN IF key = "" THEN inner ELSE <<"outer", key, inner>>
----------------------------------------------------------------------------
Keys == {"", "k", "long"}
Do(op) == hist' = Append(hist, op) /\ last' = <<op, IF last = <<>> THEN <<>> ELSE last[1], Len(st.buf), st.run>>   \* the last two calls: covered in all combinations
Begins == Len(SelectSeq(hist, LAMBDA op : op[1] = "begin"))
Begin(key) == Begins < MaxBegins /\ st' = Begin0(key) /\ msg' = <<>> /\ Do(<<"begin", key>>)
Write(k) == /\ st.run /\ Len(msg) + k <= MaxWritten
            /\ LET d == [i \in 1..k |-> <<"m", Begins, Len(msg) + i>>] IN st' = Write0(st, d) /\ msg' = msg \o d
            /\ Do(<<"write", k>>)
Byte == /\ st.run /\ Len(msg) < MaxWritten
        /\ LET d == <<<<"m", Begins, Len(msg) + 1>>>> IN st' = Write0(st, d) /\ msg' = msg \o d
        /\ Do(<<"byte">>)
End == st.run /\ st' = [st EXCEPT !.run = FALSE] /\ UNCHANGED msg /\ Do(<<"end">>)
Init == st = Idle /\ msg = <<>> /\ hist = <<>> /\ last = <<>>
Next == (\E key \in Keys : Begin(key)) \/ (\E k \in 0..(2 * Blk) : Write(k)) \/ Byte \/ End
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Buffer == Len(st.buf) < Blk /\ (st.run => Len(st.h) * Blk + Len(st.buf) = st.n)
Whole == Len(Finish(st).buf) = 0
SameAsOneShot == st.run => Digest(st) = OneShot(st.key, msg)
(* different messages of one key never share a digest: padding is injective *)
Injective == st.run /\ Len(msg) > 0 => \A j \in 0..(Len(msg) - 1) : OneShot(st.key, SubSeq(msg, 1, j)) # Digest(st)
Export == Len(hist) < 2 \/ PrintT("HIST " \o ToString(hist))
View == <<st.run, st.key, Len(st.buf), Len(msg), Begins, last>>
=============================================================================
