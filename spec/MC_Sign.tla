------------------------------ MODULE MC_Sign ------------------------------
(* What a signature hash commits to.  A state is a transaction under edit,   *)
(* the input about to be signed, its script code and amount; every step      *)
(* edits one thing or installs a signature.  Hashing is symbolic: a framed   *)
(* copy of the message, so two hashes are equal exactly if the messages are. *)
(* TLC checks after every sequence of edits that the hash is the one of the  *)
(* starting point exactly when everything it has to commit to is unchanged,  *)
(* and that what it must not commit to (other script signatures, witnesses)  *)
(* makes no difference.  The histories are replayed on one live transaction  *)
(* with all hashes taken after every edit (C05).                             *)
EXTENDS TxSig, Toy
CONSTANTS MaxEdits
VARIABLES t, i, code, amt, hist
vars == <<t, i, code, amt, hist>>
Frame(b) == <<Len(b)>> \o b
In(h, n, s, q, w) == [hash |-> <<h>>, idx |-> <<n>>, script |-> s, seq |-> <<q>>, wit |-> w]
Out(a, s) == [amt |-> <<a>>, script |-> s]
T0 == [ver |-> <<1>>, ins |-> <<In(1, 0, <<>>, 1, <<>>), In(1, 1, <<>>, 1, <<>>)>>, outs |-> <<Out(1, <<1>>), Out(2, <<1>>)>>, lock |-> <<0>>]
C0 == <<1, 1>>
A0 == <<1>>
Scripts == {<<>>, <<1>>, <<1, 1>>}
NIn == Len(t.ins)
NOut == Len(t.outs)
Edit(op) == Len(hist) < MaxEdits /\ hist' = Append(hist, op)
SetT(u, op) == t' = u /\ UNCHANGED <<i, code, amt>> /\ Edit(op)
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Ver == \E v \in {1, 2} : t.ver # <<v>> /\ SetT([t EXCEPT !.ver = <<v>>], <<"ver", v>>)
Lock == \E v \in {0, 1} : t.lock # <<v>> /\ SetT([t EXCEPT !.lock = <<v>>], <<"lock", v>>)
InHash == \E k \in 1..NIn, v \in {0, 1} : t.ins[k].hash # <<v>> /\ SetT([t EXCEPT !.ins[k].hash = <<v>>], <<"hash", k, v>>)
InIdx == \E k \in 1..NIn, v \in {0, 1} : t.ins[k].idx # <<v>> /\ SetT([t EXCEPT !.ins[k].idx = <<v>>], <<"idx", k, v>>)
InSeq == \E k \in 1..NIn, v \in {0, 1} : t.ins[k].seq # <<v>> /\ SetT([t EXCEPT !.ins[k].seq = <<v>>], <<"seq", k, v>>)
InScript == \E k \in 1..NIn, s \in Scripts : t.ins[k].script # s /\ SetT(WithScript(t, k, s), <<"ssig", k, s>>)
InWit == \E k \in 1..NIn, w \in {<<>>, <<<<>>>>, <<<<1>>, <<1>>>>} : t.ins[k].wit # w /\ SetT(WithWit(t, k, w), <<"wit", k, w>>)
OutAmt == \E k \in 1..NOut, v \in {1, 2} : t.outs[k].amt # <<v>> /\ SetT([t EXCEPT !.outs[k].amt = <<v>>], <<"amt", k, v>>)
OutScript == \E k \in 1..NOut, s \in Scripts : t.outs[k].script # s /\ SetT([t EXCEPT !.outs[k].script = s], <<"spk", k, s>>)
AddIn == NIn < 3 /\ \E h \in {0, 1} : SetT([t EXCEPT !.ins = Append(@, In(h, 0, <<>>, 1, <<>>))], <<"addin", h>>)
AddOut == NOut < 3 /\ \E s \in {<<>>, <<1>>} : SetT([t EXCEPT !.outs = Append(@, Out(1, s))], <<"addout", s>>)
SwapIn == NIn >= 2 /\ SetT([t EXCEPT !.ins = <<@[2], @[1]>> \o SubSeq(@, 3, NIn)], <<"swapin">>)
SwapOut == NOut >= 2 /\ SetT([t EXCEPT !.outs = <<@[2], @[1]>> \o SubSeq(@, 3, NOut)], <<"swapout">>)
Which == \E k \in 1..NIn : k # i /\ i' = k /\ UNCHANGED <<t, code, amt>> /\ Edit(<<"which", k>>)
Code == \E s \in Scripts \cup {<<0>>} : s # code /\ code' = s /\ UNCHANGED <<t, i, amt>> /\ Edit(<<"code", s>>)
Amt == \E v \in {0, 1} : amt # <<v>> /\ amt' = <<v>> /\ UNCHANGED <<t, i, code>> /\ Edit(<<"spent", v>>)
(* signing installs something in the chosen input and nothing anywhere else *)
Sign == \E m \in {"legacy", "segwit"} :
          SetT(IF m = "legacy" THEN WithScript(t, i, <<7>>) ELSE WithWit(t, i, <<<<7>>>>), <<"sign", m>>)
Init == t = T0 /\ i = 1 /\ code = C0 /\ amt = A0 /\ hist = <<>>
Next == \/ Ver \/ Lock \/ InHash \/ InIdx \/ InSeq \/ InScript \/ InWit \/ OutAmt \/ OutScript
        \/ AddIn \/ AddOut \/ SwapIn \/ SwapOut \/ Which \/ Code \/ Amt \/ Sign
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Prevout(n) == <<n.hash, n.idx>>
(* what has to be the same for a signature to remain valid *)
LegacyView(u, k, c) == <<u.ver, Map(Prevout, u.ins), [j \in 1..Len(u.ins) |-> u.ins[j].seq], u.outs, u.lock, c, IF c = <<>> THEN 0 ELSE k>>
SegwitView(u, k, c, a) == <<u.ver, Map(Prevout, u.ins), [j \in 1..Len(u.ins) |-> u.ins[j].seq], u.outs, u.lock, Prevout(u.ins[k]), u.ins[k].seq, c, a>>
IdView(u) == <<u.ver, [j \in 1..Len(u.ins) |-> <<u.ins[j].hash, u.ins[j].idx, u.ins[j].script, u.ins[j].seq>>], u.outs, u.lock>>
LegacyCommits == (Legacy(t, i, code) = Legacy(T0, 1, C0)) <=> (LegacyView(t, i, code) = LegacyView(T0, 1, C0))
SegwitCommits == (Bip143(t, i, code, amt) = Bip143(T0, 1, C0, A0)) <=> (SegwitView(t, i, code, amt) = SegwitView(T0, 1, C0, A0))
IdCommits == /\ (TxHash(t) = TxHash(T0)) <=> (IdView(t) = IdView(T0))
             /\ (WTxHash(t) = WTxHash(T0)) <=> (t = T0)
             /\ (IsSegwit(t) <=> TxHash(t) # WTxHash(t))
(* every signature made earlier for another input is still one for the same message *)
Signs == {j \in 1..Len(hist) : hist[j][1] = "sign"}
OthersKeep == \A k \in 1..NIn : k # i =>
    /\ Legacy(WithScript(t, i, <<7>>), k, code) = Legacy(t, k, code)
    /\ Bip143(WithWit(t, i, <<<<7>>>>), k, code, amt) = Bip143(t, k, code, amt)
    /\ Legacy(WithWit(t, k, <<<<7>>>>), k, code) = Legacy(t, k, code)
Export == Len(hist) = 0 \/ PrintT("HIST " \o ToString(hist))
View == IF Len(hist) = 0 THEN <<t, i, code, amt, <<"none">>>> ELSE <<t, i, code, amt, hist[Len(hist)]>>
=============================================================================
