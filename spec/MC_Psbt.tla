------------------------------ MODULE MC_Psbt ------------------------------
(* A partially signed transaction and its signers.  A file is put together   *)
(* for two inputs from script kind, utxo, and derivation records of wallets  *)
(* A and B - right, with a foreign fingerprint, with a path that leads       *)
(* elsewhere, with somebody else's key - and is then signed by A and B in    *)
(* any order, written and read back, and completed with further records.     *)
(* TLC checks (on the toy curve) that reading a file is adding its records   *)
(* one by one in whatever order, unknown ones making no difference, that a   *)
(* signer signs exactly what is its own, with signatures valid for what the  *)
(* transaction spends, that signers commute and signing twice is signing     *)
(* once, and that reading what was written gives back transaction and        *)
(* signatures.  The histories are replayed into PSBT objects (C06, C07, C08).*)
EXTENDS Psbt, Toy, FiniteSets
CONSTANTS MaxLive, Kinds, Patterns
VARIABLES kinds, pats, unk, p, full, raw, hist
vars == <<kinds, pats, unk, p, full, raw, hist>>
KindPairs == {<<"wpkh", "pkh">>, <<"pkh", "wsh">>, <<"shwpkh", "wpkh">>, <<"wsh", "sh">>, <<"sh", "shwpkh">>}
H20(b) == [j \in 1..20 |-> ToyMix(b, 3)]
HNonce(k, b) == <<(ToyMix(b, ToyMix(k, 3)) % 30) + 1>>
A == [ok |-> TRUE, d |-> <<5>>, cc |-> <<1>>, depth |-> 0, fp |-> Zeros(4), child |-> Zeros(4), type |-> "UNKNOWN", net |-> "main"]
B == [A EXCEPT !.d = <<11>>, !.cc = <<5>>]
Fp(w) == Fingerprint(PubPoint(w.d))
Acc(n) == <<LE(n, 4)>>
H(n) == [LE(n, 4) EXCEPT ![4] = 128]
Path(i, acc) == <<H(acc), LE(0, 4), LE(i, 4)>>
KeyAt(w, path) == PubPoint(DerivePriv(w, path).d)
Used(i) == {Path(i, 0), Path(i, 1), Take(Path(i, 0), 1), <<>>}
Fit(a, b) == /\ Fp(a) # Fp(b) /\ \A w \in {a, b} : \A i \in 1..2, c \in 0..1, n \in 1..2 : DerivePriv(w, SubSeq(Path(i, c), 1, n)).d # <<0>>
             /\ \A w \in {a, b} : \A x \in Used(1) \cup Used(2) : KeyAt(w, x) # <<>>
             /\ \A i \in 1..2, j \in 1..2 : \A x \in Used(i) : \A y \in Used(j) : KeyAt(a, x) # KeyAt(b, y) /\ (x # y => KeyAt(a, x) # KeyAt(a, y))
ASSUME Fit(A, B)
(* records *)
DerRec(P, fp, path) == <<<<6>> \o SecC(P), fp \o Cat(path)>>
Ders(i, pat) ==
    LET a == Path(i, 0)
        b == Path(i, 1)
    IN CASE pat \in {"none", "blind"} -> <<>>
         [] pat = "A" -> <<DerRec(KeyAt(A, a), Fp(A), a)>>
         [] pat = "B" -> <<DerRec(KeyAt(B, a), Fp(B), a)>>
         [] pat = "AB" -> <<DerRec(KeyAt(A, a), Fp(A), a), DerRec(KeyAt(B, a), Fp(B), a)>>
         [] pat = "BA" -> <<DerRec(KeyAt(B, a), Fp(B), a), DerRec(KeyAt(A, a), Fp(A), a)>>
         [] pat = "A2" -> <<DerRec(KeyAt(A, b), Fp(A), b)>>
         [] pat = "Aacc" -> <<DerRec(KeyAt(A, Take(a, 1)), Fp(A), Take(a, 1))>>
         [] pat = "Aroot" -> <<DerRec(KeyAt(A, <<>>), Fp(A), <<>>)>>
         [] pat = "Afp" -> <<DerRec(KeyAt(A, a), <<1, 2, 3, 4>>, a)>>
         [] pat = "Apath" -> <<DerRec(KeyAt(A, a), Fp(A), b)>>
         [] pat = "Bkey" -> <<DerRec(KeyAt(B, a), Fp(A), a)>>
First(ds) == IF ds = <<>> THEN SecC(PubPoint(<<7>>)) ELSE Tail(ds[1][1])
SomeScript == <<82, 1, 2, 3>>                     \* some script
Spk(kind, sec) == CASE kind = "pkh" -> Pkh(sec) [] kind = "wpkh" -> Wpkh(sec) [] kind = "shwpkh" -> Sh(Wpkh(sec)) [] kind = "wsh" -> Wsh(SomeScript) [] kind = "sh" -> Sh(SomeScript)
Scripts(kind, sec) == CASE kind = "shwpkh" -> <<<<<<4>>, Wpkh(sec)>>>> [] kind = "wsh" -> <<<<<<5>>, SomeScript>>>> [] kind = "sh" -> <<<<<<4>>, SomeScript>>>> [] OTHER -> <<>>
Amt(i) == LE(100 + i, 8)
Prev(i, spk) == [ver |-> LE(i, 4), ins |-> <<[hash |-> <<i>>, idx |-> LE(0, 4), script |-> <<>>, seq |-> LE(0, 4), wit |-> <<>>]>>,
                 outs |-> <<[amt |-> Amt(i), script |-> spk]>>, lock |-> LE(0, 4)]
Byte2 == {"pkh", "sh"}
Utxo(i, kind, spk) == IF kind \in Byte2 THEN <<<<<<0>>, TxEnc(Prev(i, spk))>>>> ELSE <<<<<<1>>, TxOutEnc([amt |-> Amt(i), script |-> spk])>>>>
InRecs(i, kind, pat) ==
    LET ds == Ders(i, pat)
        spk == Spk(kind, First(ds))
    IN (IF pat = "blind" THEN <<>> ELSE Utxo(i, kind, spk)) \o Scripts(kind, First(ds)) \o ds
Tx(ks, ps) == [ver |-> LE(2, 4), lock |-> LE(0, 4), outs |-> <<[amt |-> LE(150, 8), script |-> <<1>>]>>,
    ins |-> [i \in 1..2 |-> [hash |-> IF ks[i] \in Byte2 THEN TxHash(Prev(i, Spk(ks[i], First(Ders(i, ps[i]))))) ELSE <<40 + i>>,
                             idx |-> LE(0, 4), script |-> <<>>, seq |-> LE(i, 4), wit |-> <<>>]]]
Unk(u) == IF u THEN <<<<<<200, 1>>, <<9, 9>>>>>> ELSE <<>>
RECURSIVE AddAll(_, _, _)
AddAll(q, sec, recs) == IF recs = <<>> THEN q ELSE LET r == Add(q, sec, recs[1][1], recs[1][2]) IN AddAll(IF r.act = "set" THEN r.v ELSE q, sec, Tail(recs))
RecEnc(r) == VarBytes(r[1]) \o VarBytes(r[2])
FileOf(t, secs) == Magic \o RecEnc(<<<<0>>, TxEncBase(t)>>) \o <<0>> \o Cat([j \in 1..Len(secs) |-> Cat(Map(RecEnc, secs[j])) \o <<0>>])

Empty == [tx |-> [ins |-> <<>>], ins |-> <<>>, outs |-> <<>>]
Init == kinds \in Kinds /\ pats = <<>> /\ unk = FALSE /\ p = Empty /\ full = Empty /\ raw = <<>> /\ hist = <<>>
Load == /\ pats = <<>> /\ \E a \in Patterns, b \in Patterns, u \in BOOLEAN :
           LET ps == <<a, b>>
               t == Tx(kinds, ps)
               secs == [j \in 1..3 |-> IF j = 3 THEN Unk(u) ELSE Unk(u) \o InRecs(j, kinds[j], ps[j])]
           IN /\ (u => a = b) /\ pats' = ps /\ unk' = u /\ raw' = FileOf(t, secs)
              /\ p' = AddAll(AddAll(Blank(t), 1, secs[1]), 2, secs[2]) /\ full' = p'
        /\ UNCHANGED <<kinds, hist>>
Live(op) == pats # <<>> /\ Len(hist) < MaxLive /\ hist' = Append(hist, op) /\ UNCHANGED <<kinds, pats, unk, raw>>
Sgn(q, w) == PsbtSign(q, IF w = "A" THEN A ELSE B)
Sign(w) == Live(<<"sign", w>>) /\ p' = Sgn(p, w).p /\ UNCHANGED full
Reload == Live(<<"reload">>) /\ (\E i \in 1..Len(p.ins) : p.ins[i].ders # <<>>) /\ p' = PsbtDec(PsbtEnc(p)).v /\ UNCHANGED full
(* a record that comes later: A's key for the first input *)
Late == /\ pats # <<>> /\ pats[1] \in {"none", "B", "A2"} /\ Live(<<"late">>)
        /\ LET r == DerRec(KeyAt(A, Path(1, 0)), Fp(A), Path(1, 0))
               x == Add(p, 1, r[1], r[2])
               y == Add(full, 1, r[1], r[2])
           IN Known(p.ins[1]) /\ x.act = "set" /\ y.act = "set" /\ p' = x.v /\ full' = y.v
Next == Load \/ Sign("A") \/ Sign("B") \/ Reload \/ Late
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Loaded == pats # <<>>
(* reading the file is adding its records; other orders and unknown records make no difference beyond the order of lists *)
Reads == Loaded /\ hist = <<>> => LET r == PsbtDec(raw) IN r.st = 0 /\ r.n = Len(raw) /\ r.v = p /\ PsbtDec(raw \o <<1, 2>>) = r
SetOf(q) == {q[j] : j \in 1..Len(q)}
Same(x, y) == x.tx = y.tx /\ \A i \in 1..Len(x.ins) : /\ SetOf(x.ins[i].ders) = SetOf(y.ins[i].ders) /\ SetOf(x.ins[i].sigs) = SetOf(y.ins[i].sigs)
                                                      /\ Len(x.ins[i].sigs) = Len(y.ins[i].sigs) /\ x.ins[i].utxo = y.ins[i].utxo
                                                      /\ x.ins[i].redeem = y.ins[i].redeem /\ x.ins[i].wscript = y.ins[i].wscript
Order1 == Loaded /\ hist = <<>> => LET t == p.tx
                                       rs(j) == Reverse(InRecs(j, kinds[j], pats[j]))
                                   IN Same(p, AddAll(AddAll(Blank(t), 2, rs(2)), 1, rs(1)))
Parts == Loaded /\ hist = <<>> /\ pats[1] = pats[2] => \A n \in 1..(Len(raw) - 1) : PsbtDec(Take(raw, n)).st = 1
(* whose record is it? *)
OwnedBy(w, r) == r.fp = Fp(w) /\ KeyAt(w, r.path) = r.pub.pt
Signed == {w \in {"A", "B"} : \E j \in 1..Len(hist) : hist[j] = <<"sign", w>>}
Who(w) == IF w = "A" THEN A ELSE B
Ok == Loaded /\ Signable(full, A) /\ Signable(full, B)
OnlyOwn == Ok => \A i \in 1..2 : \A g \in SetOf(p.ins[i].sigs) :
    /\ \E w \in Signed : \E r \in SetOf(full.ins[i].ders) : OwnedBy(Who(w), r) /\ r.pub = g.pub
    /\ EcdsaVerify(g.pub.pt, g.rs, SigHashOf(full, i, SecC(g.pub.pt))) /\ g.ht = SigHashAll
AllOwn == Ok => \A w \in {"A", "B"} : LET q == Sgn(p, w) IN
    /\ \A i \in 1..2 : \A r \in SetOf(p.ins[i].ders) : OwnedBy(Who(w), r) => \E g \in SetOf(q.p.ins[i].sigs) : g.pub = r.pub
    /\ q.n = Cardinality({x \in (1..2) \X (1..3) : x[2] <= Len(p.ins[x[1]].ders) /\ OwnedBy(Who(w), p.ins[x[1]].ders[x[2]])})
    /\ Same(q.p, [p EXCEPT !.ins = [i \in 1..2 |-> [@[i] EXCEPT !.sigs = q.p.ins[i].sigs]]])
Commute == Ok => Same(Sgn(Sgn(p, "A").p, "B").p, Sgn(Sgn(p, "B").p, "A").p)
Again == Ok => LET q == Sgn(p, "A").p IN Sgn(q, "A").p = q
Writes == Loaded => LET b == PsbtEnc(p)
                        r == PsbtDec(b)
                    IN r.st = 0 /\ r.n = Len(b) /\ r.v.tx = p.tx /\ \A i \in 1..2 : r.v.ins[i].sigs = p.ins[i].sigs /\ PsbtEnc(r.v) = b
FeeKnown == Loaded => LET f == PsbtFee(p) IN f.exact /\ f.v = (IF Known(p.ins[1]) /\ Known(p.ins[2]) THEN LE(101 + 102 - 150, 8) ELSE Zeros(8))
Export == ~Loaded \/ PrintT("HIST " \o ToString(<<kinds, pats, unk, hist>>))
=============================================================================
