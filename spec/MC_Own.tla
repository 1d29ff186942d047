------------------------------- MODULE MC_Own -------------------------------
(* What a signer shows its user: amounts, fee, and which outputs come back.  *)
(*  fee:  every choice of spent and created amounts from the edges of the    *)
(*        64-bit range: the fee is what is left over, unknown counts as none *)
(*  prev: a previous transaction is believed only if it is the one the input *)
(*        names and has the output the input spends; a bare output given     *)
(*        as well, before or after it, has to be the same                    *)
(*  mine: an output is ours exactly if one of its records leads from the key *)
(*        to the public key it names, told by private and public key alike   *)
(* The cases are replayed into PSBT objects (C08).                           *)
EXTENDS Psbt, Toy, FiniteSets
CONSTANT What
VARIABLES a, b, c, d, e
vars == <<a, b, c, d, e>>
H20(s) == [j \in 1..20 |-> ToyMix(s, 3)]
----------------------------------------------------------------------------
Amts == <<Zeros(8), LE(1, 8), LE(546, 8), LE(65536, 8), <<0, 0, 0, 0, 1, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 127>>, <<0, 0, 0, 0, 0, 0, 0, 128>>, <<255, 255, 255, 255, 255, 255, 255, 255>>>>
NA == Len(Amts)
(* 0: the spent output is not known *)
Outs(s) == [i \in 1..Len(s) |-> [amt |-> Amts[s[i]], script |-> <<1>>]]
FeeRes == FeeOf([i \in 1..Len(a) |-> [amt |-> IF a[i] = 0 THEN Zeros(8) ELSE Amts[a[i]]]], Outs(b), \A i \in 1..Len(a) : a[i] # 0)
(* sums once more, digit by digit in naturals: sixteen bits at a time *)
Limb(x, k) == x[2 * k - 1] + 256 * x[2 * k]
RECURSIVE SumLimb(_, _, _)
SumLimb(xs, j, k) == IF j = 0 THEN 0 ELSE Limb(Amts[xs[j]], k) + SumLimb(xs, j - 1, k)
RECURSIVE Norm(_, _, _)
Norm(xs, k, carry) == IF k = 5 THEN <<carry>> ELSE LET s == SumLimb(xs, Len(xs), k) + carry IN <<s % 65536>> \o Norm(xs, k + 1, s \div 65536)
FeeLimbs(f) == [k \in 1..4 |-> Limb(f, k)]
(* in + 0 = out + fee, limb by limb with carries *)
RECURSIVE AddUp(_, _, _, _)
AddUp(x, y, k, carry) == IF k = 5 THEN <<x[5] + carry>> ELSE LET s == x[k] + y[k] + carry IN <<s % 65536>> \o AddUp(x, y, k + 1, s \div 65536)
Less(x, y) == \E k \in 1..5 : x[k] < y[k] /\ \A j \in (k + 1)..5 : x[j] = y[j]
Fee == What = "fee" /\ b # <<>> => LET sin == Norm(a, 1, 0)
                         sout == Norm(b, 1, 0)
                         f == FeeRes
                     IN IF \E i \in 1..Len(a) : a[i] = 0 THEN f.v = Zeros(8)
                        ELSE /\ f.exact = (sin[5] = 0 /\ sout[5] = 0)
                             /\ (f.exact => IF Less(sin, sout) THEN f.v = Zeros(8) ELSE AddUp(sout, FeeLimbs(f.v), 1, 0) = sin)
----------------------------------------------------------------------------
(* previous transactions: u with n outputs, segwit or not *)
Prev(n, seg) == [ver |-> LE(n, 4), ins |-> <<[hash |-> <<5>>, idx |-> LE(0, 4), script |-> <<>>, seq |-> LE(7, 4), wit |-> IF seg THEN <<<<1, 2>>>> ELSE <<>>]>>,
                 outs |-> [i \in 1..n |-> [amt |-> LE(100 + i, 8), script |-> <<i>>]], lock |-> LE(0, 4)]
(* a = outputs of it, b = segwit, c = what the input names, d = index *)
NamedHash == LET t == Prev(a, b) IN CASE c = "txid" -> TxHash(t) [] c = "wtxid" -> WTxHash(t) [] c = "other" -> [TxHash(t) EXCEPT ![1] = (@ + 1) % 256] [] c = "witless" -> TxHash(Prev(a, FALSE))
PrevInput == [hash |-> NamedHash, idx |-> d, script |-> <<>>, seq |-> LE(0, 4), wit |-> <<>>]
(* e = when the bare output is given and how it differs *)
Bare == LET o == IF d[4] = 0 /\ UnLE(Take(d, 3)) < a THEN Prev(a, b).outs[UnLE(Take(d, 3)) + 1] ELSE Prev(a, b).outs[1]
        IN TxOutEnc(CASE e[2] = "same" -> o [] e[2] = "amt" -> [o EXCEPT !.amt[8] = 1] [] e[2] = "script" -> [o EXCEPT !.script = Append(@, 0)])
PrevRight == What = "prev" /\ c # "" => LET s0 == IF e[1] = "before" THEN InRec(PIn0, PrevInput, <<1>>, Bare).v ELSE PIn0
                            r0 == InRec(s0, PrevInput, <<0>>, TxEnc(Prev(a, b)))
                            r == IF e[1] = "after" /\ r0.act = "set" THEN InRec(r0.v, PrevInput, <<1>>, Bare) ELSE r0
                            right == NamedHash = TxHash(Prev(a, b))
                            n == UnLE(Take(d, 3))
                            fits == d[4] = 0 /\ n < a
                        IN IF right /\ fits /\ e[2] = "same" THEN r.act = "set" /\ r.v.known /\ r.v.utxo = [amt |-> LE(101 + n, 8), script |-> <<n + 1>>] ELSE r.act = "bad"
----------------------------------------------------------------------------
(* records of one output; a = account key, b, c = record patterns, d = depth of the key relative to the records *)
Root == [ok |-> TRUE, d |-> <<5>>, cc |-> <<1>>, depth |-> 0, fp |-> Zeros(4), child |-> Zeros(4), type |-> "UNKNOWN", net |-> "main"]
Other == [Root EXCEPT !.d = <<11>>, !.cc = <<5>>]
Hd(n) == [LE(n, 4) EXCEPT ![4] = 128]
Steps == {<<>>, <<LE(0, 4)>>, <<LE(0, 4), LE(1, 4)>>, <<Hd(0)>>, <<Hd(0), LE(1, 4)>>}
PathOf(n) == CASE n = 1 -> <<>> [] n = 2 -> <<LE(0, 4)>> [] n = 3 -> <<LE(0, 4), LE(1, 4)>> [] n = 4 -> <<Hd(0)>> [] n = 5 -> <<LE(0, 4), Hd(1)>>
KeyAt(w, path) == PubPoint(DerivePriv(w, path).d)
(* a pattern <<whose, n, m>>: whose key (neg: own, negated) at path n, announced with path m *)
Rec(q) == [pub |-> [pt |-> LET k == KeyAt(IF q[1] = "other" THEN Other ELSE Root, PathOf(q[2])) IN IF q[1] = "neg" THEN PNeg(k) ELSE k, c |-> TRUE], fp |-> <<0, 0, 0, 0>>, path |-> PathOf(q[3])]
MineP == [tx |-> [ins |-> <<>>, outs |-> <<>>], ins |-> <<>>, outs |-> <<[POut0 EXCEPT !.ders = Map(Rec, SelectSeq(<<b, c>>, LAMBDA q : q # <<>>))]>>]
(* a record is right if the path announced leads to the key; a public key cannot follow hardened steps *)
RightFor(q, w, pub) == q # <<>> /\ KeyAt(w, PathOf(q[3])) = Rec(q).pub.pt /\ (pub => \A j \in 1..Len(PathOf(q[3])) : ~IsHard(PathOf(q[3])[j]))
Mine == What = "mine" /\ a # "" => \A w \in {Root, Other} :
    /\ IsMine(MineP, 0, w, FALSE) = (RightFor(b, w, FALSE) \/ RightFor(c, w, FALSE))
    /\ IsMine(MineP, 0, Neuter(w), TRUE) = (RightFor(b, w, TRUE) \/ RightFor(c, w, TRUE))
    /\ ~IsMine(MineP, 1, w, FALSE)
----------------------------------------------------------------------------
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Init == CASE What = "fee" -> a \in Seqs(0..NA, 1, 2) /\ b = <<>> /\ c = 0 /\ d = 0 /\ e = ""
          [] What = "prev" -> a \in {1, 2, 3} /\ b \in BOOLEAN /\ c = "" /\ d = Zeros(4) /\ e = <<"no", "same">>
          [] What = "mine" -> a = "" /\ b = <<>> /\ c = <<>> /\ d = 0 /\ e = ""
Next == CASE What = "fee" -> b = <<>> /\ b' \in Seqs(1..NA, 1, 2) /\ UNCHANGED <<a, c, d, e>>
          [] What = "prev" -> c = "" /\ c' \in {"txid", "wtxid", "other", "witless"} /\ d' \in {LE(n, 4) : n \in {0, 1, 2, 3, 255, 256, 257, 65536, 65537}} \cup {<<0, 0, 0, 1>>, <<0, 0, 0, 128>>, <<255, 255, 255, 255>>}
                              /\ e' \in {<<"no", "same">>} \cup ({"before", "after"} \X {"same", "amt", "script"}) /\ UNCHANGED <<a, b>>
          [] What = "mine" -> a = "" /\ a' = "go" /\ b' \in {"own", "other", "neg"} \X (1..5) \X (1..5) /\ c' \in {<<>>} \cup {<<"own", 3, 3>>, <<"own", 5, 5>>, <<"other", 3, 3>>, <<"other", 2, 3>>, <<"neg", 3, 3>>} /\ UNCHANGED <<d, e>>
Spec == Init /\ [][Next]_vars
Export == CASE What = "fee" -> b = <<>> \/ PrintT("HIST " \o ToString(<<What, a, b>>))
            [] What = "prev" -> c = "" \/ PrintT("HIST " \o ToString(<<What, a, b, c, d, e>>))
            [] What = "mine" -> a = "" \/ PrintT("HIST " \o ToString(<<What, b, c>>))
=============================================================================
