-------------------------------- MODULE Psbt --------------------------------
(* BIP174 (version 0) containers as this library reads and writes them:      *)
(* [tx, ins, outs] with                                                      *)
(*   ins[i]  [known, full, utxo, redeem, wscript, ders, sigs]                *)
(*   outs[i] [redeem, wscript, ders]                                         *)
(*   ders[j] [pub, fp, path]     sigs[j] [pub, rs, ht]                       *)
(* and the signer's, updater's and inspector's view of them.                 *)
EXTENDS TxSig, HD
AnyResult == [st |-> 5, n |-> 0, v |-> <<>>]   \* not well-formed, and left open what a reader makes of it
Magic == <<112, 115, 98, 116, 255>>
MaxSections == 254
MaxRecords == 255      \* signatures, and derivations, of one section

PIn0 == [known |-> FALSE, full |-> FALSE, utxo |-> [amt |-> Zeros(WAmt), script |-> <<>>], redeem |-> <<>>, wscript |-> <<>>, ders |-> <<>>, sigs |-> <<>>]
POut0 == [redeem |-> <<>>, wscript |-> <<>>, ders |-> <<>>]
Blank(t) == [tx |-> t, ins |-> [i \in 1..Len(t.ins) |-> PIn0], outs |-> [i \in 1..Len(t.outs) |-> POut0]]

----------------------------------------------------------------------------
(* One record given for a section.  act: "skip" (unknown, nothing changes),  *)
(* "set" (v is the new section), "bad", or "open" (a record BIP174 rules     *)
(* out, such as a duplicate, without saying what a reader does)              *)
Skip == [act |-> "skip", v |-> <<>>]
Wrong == [act |-> "bad", v |-> <<>>]
Open == [act |-> "open", v |-> <<>>]
Set(v) == [act |-> "set", v |-> v]
KeyOf(key) == SecDec(Tail(key), 0)
KeyBad(key) == Len(key) \notin {2 + WS, 2 + 2 * WS} \/ KeyOf(key).st # 0
KeyOdd(key) == KeyOf(key).n # Len(key) - 1
(* what is spent is told by a full previous transaction (which the input's txid vouches for), by the bare output, or by both if they agree *)
Known(s) == s.known /\ ~(AllZero(s.utxo.amt) /\ s.utxo.script = <<>>)
SetUtxo(s, o, full) == IF s.known /\ s.utxo # o THEN IF (full \/ s.full) /\ Known(s) THEN Wrong ELSE Open
                       ELSE Set([s EXCEPT !.known = TRUE, !.full = @ \/ full, !.utxo = o])
PrevTx(s, in, val) ==
    LET r == TxDec(val, 0)
        idx == UnLE(Take(in.idx, 2))
    IN IF r.st # 0 THEN Wrong
       ELSE IF r.n # Len(val) THEN Open
       ELSE IF TxHash(r.v) # in.hash \/ ~AllZero(From(in.idx, 2)) \/ idx >= Len(r.v.outs) THEN Wrong
       ELSE SetUtxo(s, r.v.outs[idx + 1], TRUE)
WitUtxo(s, val) == LET r == TxOutDec(val, 0) IN IF r.st # 0 THEN Wrong ELSE IF r.n # Len(val) THEN Open ELSE SetUtxo(s, r.v, FALSE)
PartialSig(s, key, val) ==
    LET g == DerDec(val, 0)
        p == KeyOf(key).v
    IN IF KeyBad(key) \/ g.st # 0 \/ g.n + 1 # Len(val) THEN Wrong
       ELSE IF KeyOdd(key) \/ (\E j \in 1..Len(s.sigs) : s.sigs[j].pub = p) THEN Open
       ELSE IF Len(s.sigs) = MaxRecords THEN Wrong
       ELSE Set([s EXCEPT !.sigs = Append(@, [pub |-> p, rs |-> g.v, ht |-> val[Len(val)]])])
Derivation(s, key, val) ==
    LET p == KeyOf(key).v IN
    IF KeyBad(key) \/ Len(val) < 4 \/ Len(val) % 4 # 0 \/ Len(val) > 4 + 4 * 255 THEN Wrong
    ELSE IF KeyOdd(key) \/ (\E j \in 1..Len(s.ders) : s.ders[j].pub = p) THEN Open
    ELSE IF Len(s.ders) = MaxRecords THEN Wrong
    ELSE Set([s EXCEPT !.ders = Append(@, [pub |-> p, fp |-> Take(val, 4), path |-> Indexes(From(val, 4))])])
ScriptRec(s, key, val, f) == IF Len(key) # 1 THEN Wrong ELSE IF s[f] # <<>> THEN Open ELSE Set([s EXCEPT ![f] = val])
InRec(s, in, key, val) ==
    CASE key[1] = 0 -> IF Len(key) # 1 THEN Wrong ELSE PrevTx(s, in, val)
      [] key[1] = 1 -> IF Len(key) # 1 THEN Wrong ELSE WitUtxo(s, val)
      [] key[1] = 2 -> PartialSig(s, key, val)
      [] key[1] = 4 -> ScriptRec(s, key, val, "redeem")
      [] key[1] = 5 -> ScriptRec(s, key, val, "wscript")
      [] key[1] = 6 -> Derivation(s, key, val)
      [] OTHER -> Skip
OutRec(s, key, val) ==
    CASE key[1] = 0 -> ScriptRec(s, key, val, "redeem")
      [] key[1] = 1 -> ScriptRec(s, key, val, "wscript")
      [] key[1] = 2 -> Derivation(s, key, val)
      [] OTHER -> Skip
(* section 0 is the global one; then inputs; then outputs *)
Sections(p) == 1 + Len(p.ins) + Len(p.outs)
Add(p, sec, key, val) ==
    LET i == sec
        o == sec - Len(p.ins)
    IN IF sec = 0 THEN IF key = <<0>> THEN Open ELSE Skip
       ELSE IF sec >= Sections(p) THEN Skip
       ELSE IF sec <= Len(p.ins) THEN LET r == InRec(p.ins[i], p.tx.ins[i], key, val)
                                      IN IF r.act = "set" THEN Set([p EXCEPT !.ins[i] = r.v]) ELSE r
       ELSE LET r == OutRec(p.outs[o], key, val) IN IF r.act = "set" THEN Set([p EXCEPT !.outs[o] = r.v]) ELSE r

----------------------------------------------------------------------------
(* reading *)
RECURSIVE Records(_, _, _, _, _)
Records(b, off, p, sec, open) ==
    IF sec = Sections(p) THEN IF open THEN AnyResult ELSE Done(off, p)
    ELSE LET key == VarBytesDec(b, off) IN
         IF key.st # 0 THEN IF open THEN AnyResult ELSE key
         ELSE IF key.v = <<>> THEN Records(b, key.n, p, sec + 1, open)
         ELSE LET val == VarBytesDec(b, key.n) IN
              IF val.st # 0 THEN IF open THEN AnyResult ELSE val
              ELSE LET r == Add(p, sec, key.v, val.v)
                   IN CASE r.act = "skip" -> Records(b, val.n, p, sec, open)
                        [] r.act = "set" -> Records(b, val.n, r.v, sec, open)
                        [] r.act = "bad" -> IF open THEN AnyResult ELSE Bad
                        [] r.act = "open" -> Records(b, val.n, p, sec, TRUE)
Unsigned(t) == \A i \in 1..Len(t.ins) : t.ins[i].script = <<>> /\ t.ins[i].wit = <<>>
PsbtDec(b) ==
    IF Take(b, 5) # Take(Magic, Len(Take(b, 5))) THEN Bad
    ELSE IF Len(b) < 5 THEN Inc
    ELSE LET key == VarBytesDec(b, 5) IN
    IF key.st # 0 THEN key
    ELSE LET val == VarBytesDec(b, key.n) IN
    IF key.v # <<0>> THEN IF val.st \in {0, 2} THEN Bad ELSE Big
    ELSE IF val.st # 0 THEN val
    ELSE LET t == TxDec(val.v, 0) IN
    IF t.st # 0 \/ t.n # Len(val.v) THEN Bad
    ELSE IF Len(t.v.ins) + Len(t.v.outs) > MaxSections THEN Bad
    ELSE Records(b, val.n, Blank(t.v), 0, val.v[WInt + 1] = 0 \/ ~Unsigned(t.v))

(* writing: the unsigned transaction and the partial signatures *)
SigRec(g) == VarBytes(<<2>> \o Sec(g.pub.pt, g.pub.c)) \o VarBytes(Der(g.rs) \o <<g.ht>>)
PsbtEnc(p) == Magic \o <<1, 0>> \o VarBytes(TxEncBase(p.tx)) \o <<0>>
    \o Cat([i \in 1..Len(p.ins) |-> Cat(Map(SigRec, p.ins[i].sigs)) \o <<0>>]) \o Zeros(Len(p.outs))

----------------------------------------------------------------------------
(* signing *)
SigHashOf(p, i, sec) ==
    LET s == p.ins[i]
        amt == s.utxo.amt
    IN IF s.wscript # <<>> THEN Bip143(p.tx, i, s.wscript, amt)
       ELSE IF s.redeem # <<>> THEN IF TypeOf(s.redeem) = "P2WPKH" THEN Bip143(p.tx, i, Pkh(sec), amt) ELSE Legacy(p.tx, i, s.redeem)
       ELSE IF TypeOf(s.utxo.script) = "P2WPKH" THEN Bip143(p.tx, i, Pkh(sec), amt) ELSE Legacy(p.tx, i, s.utxo.script)
PutSig(gs, g) == IF \E j \in 1..Len(gs) : gs[j].pub = g.pub
                 THEN [j \in 1..Len(gs) |-> IF gs[j].pub = g.pub THEN g ELSE gs[j]] ELSE Append(gs, g)
Own(root, fp, r) == r.fp = fp /\ PubPoint(DerivePriv(root, r.path).d) = r.pub.pt
RECURSIVE SignIn(_, _, _, _, _, _)   \* records j.. of input i
SignIn(p, root, fp, i, j, n) ==
    IF j > Len(p.ins[i].ders) THEN [p |-> p, n |-> n]
    ELSE LET r == p.ins[i].ders[j] IN
         IF ~Own(root, fp, r) THEN SignIn(p, root, fp, i, j + 1, n)
         ELSE LET d == DerivePriv(root, r.path).d
                  sec == SecC(r.pub.pt)
                  g == EcdsaSign(d, SigHashOf(p, i, sec)).sig
                  q == [p EXCEPT !.ins[i].sigs = PutSig(@, [pub |-> [pt |-> r.pub.pt, c |-> TRUE], rs |-> g, ht |-> SigHashAll])]
              IN SignIn(q, root, fp, i, j + 1, n + 1)
RECURSIVE SignFrom(_, _, _, _, _)
SignFrom(p, root, fp, i, n) ==
    IF i > Len(p.ins) THEN [p |-> p, n |-> n]
    ELSE LET r == SignIn(p, root, fp, i, 1, n) IN SignFrom(r.p, root, fp, i + 1, r.n)
PsbtSign(p, root) == SignFrom(p, root, Fingerprint(PubPoint(root.d)), 1, 0)
(* signing is specified when what is spent is known and own keys are in the form BIP32 gives them *)
Signable(p, root) == LET fp == Fingerprint(PubPoint(root.d)) IN
    \A i \in 1..Len(p.ins) : \A j \in 1..Len(p.ins[i].ders) :
        LET r == p.ins[i].ders[j] IN ~Own(root, fp, r) \/ (Known(p.ins[i]) /\ r.pub.c)

----------------------------------------------------------------------------
(* amounts and ownership; sums in ten bytes *)
Wide(a) == a \o <<0, 0>>
Paid(outs) == SumLE(Map(LAMBDA o : Wide(o.amt), outs), 10)
FeeOf(spent, created, known) ==
    LET a == Paid(spent)
        b == Paid(created)
    IN [exact |-> AllZero(From(a, 8)) /\ AllZero(From(b, 8)),
        v |-> IF ~known \/ LexLess(Rev(a), Rev(b)) THEN Zeros(8) ELSE Take(SubLE(a, b), 8)]
PsbtFee(p) == FeeOf(Map(LAMBDA s : s.utxo, p.ins), p.tx.outs, \A i \in 1..Len(p.ins) : Known(p.ins[i]))
MineRec(k, pub, r) == LET c == IF pub THEN DerivePub(k, r.path) ELSE Neuter(DerivePriv(k, r.path)) IN c.ok /\ c.pt = r.pub.pt
IsMine(p, o, k, pub) == o < Len(p.outs) /\ \E j \in 1..Len(p.outs[o + 1].ders) : MineRec(k, pub, p.outs[o + 1].ders[j])

----------------------------------------------------------------------------
(* Electrum's unsigned transaction format:  [tx, hd, der, amt]               *)
ElMagic == <<69, 80, 84, 70, 255, 0>>
ElLegacyHead == <<1, 255, 76, 83, 255>>              \* in the script: no signature, then ff and the extended key
ElWitHead == <<254, 255, 255, 255, 255>>             \* in the witness: marker, amount,
ElWitKey == <<0, 0, 2, 1, 255, 83, 255>>             \* version, two items: no signature, ff and the extended key
ElEntry == 102
PrefixEq(b, h) == Take(b, Len(h)) = Take(h, Len(Take(b, Len(h))))
El(t, keys, ders, amts) == [tx |-> [t EXCEPT !.ins = [i \in 1..Len(t.ins) |-> [t.ins[i] EXCEPT !.script = <<>>]]], hd |-> keys, der |-> ders, amt |-> amts]
(* a transaction that ended: its keys are in the input scripts *)
ElLegacy(n, t) ==
    LET s(i) == t.ins[i].script
        k(i) == XPubDec(Slice(s(i), 5, 78))
    IN IF \E i \in 1..Len(t.ins) : Len(s(i)) # 87 THEN Bad
       ELSE IF \E i \in 1..Len(t.ins) : k(i).st # 0 THEN Bad
       ELSE IF IsSegwit(t) \/ \E i \in 1..Len(t.ins) : Take(s(i), 5) # ElLegacyHead THEN AnyResult
       ELSE Done(n, El(t, [i \in 1..Len(t.ins) |-> k(i).v],
                       [i \in 1..Len(t.ins) |-> <<Slice(s(i), 83, 2), Slice(s(i), 85, 2)>>], [i \in 1..Len(t.ins) |-> Zeros(8)]))
(* witness entries from offset off *)
RECURSIVE ElWits(_, _, _, _)
ElWits(b, off, k, acc) ==
    IF k = 0 THEN Done(off, acc)
    ELSE LET e == Window(b, off, ElEntry)
             x == XPubDec(Window(e, 20, 78))
         IN IF ~PrefixEq(e, ElWitHead) \/ ~PrefixEq(From(e, Min2(13, Len(e))), ElWitKey) THEN AnyResult
            ELSE IF x.st # 0 THEN x
            ELSE IF Len(e) < ElEntry THEN Inc
            ELSE ElWits(b, off + ElEntry, k - 1, Append(acc, [hd |-> x.v, amt |-> Slice(e, 5, 8), der |-> <<Slice(e, 98, 2), Slice(e, 100, 2)>>]))
ElDec(b) ==
    IF Take(b, 6) # Take(ElMagic, Len(Take(b, 6))) THEN Bad
    ELSE IF Len(b) < 6 THEN Inc
    ELSE LET t == TxDec(b, 6)
             seg == Len(b) >= 12 /\ Slice(b, 10, 2) = <<0, 1>>
             nin == CountDec(b, 12)
             ins == Many(TxInDec, b, nin.n, nin.v, <<>>)
             nout == CountDec(b, ins.n)
             outs == Many(TxOutDec, b, nout.n, nout.v, <<>>)
             isEl == seg /\ nin.st = 0 /\ ins.st = 0 /\ nout.st = 0 /\ outs.st = 0 /\ outs.n < Len(b) /\ b[outs.n + 1] > MaxCount
         IN IF ~isEl THEN IF t.st = 0 THEN IF t.v.ins = <<>> THEN AnyResult ELSE ElLegacy(t.n, t.v) ELSE t
            ELSE IF nin.v = 0 THEN AnyResult
            ELSE LET w == ElWits(b, outs.n, nin.v, <<>>) IN
                 IF w.st # 0 THEN w
                 ELSE IF w.n + 4 > Len(b) THEN Inc
                 ELSE IF \E i \in 1..nin.v : ins.v[i].script # <<>> THEN AnyResult
                 ELSE Done(w.n + 4, El([ver |-> Slice(b, 6, 4), ins |-> ins.v, outs |-> outs.v, lock |-> Slice(b, w.n, 4)],
                                       [i \in 1..nin.v |-> w.v[i].hd], [i \in 1..nin.v |-> w.v[i].der], [i \in 1..nin.v |-> w.v[i].amt]))
ElEnc(v) == TxEnc(v.tx)
ElOwn(v, i, acc) == v.hd[i].pt = PubPoint(acc.d) /\ v.hd[i].cc = acc.cc
Idx4(x) == x \o <<0, 0>>
ElSignIn(v, i, acc) ==
    LET d == CkdPriv(CkdPriv(acc, Idx4(v.der[i][1])), Idx4(v.der[i][2])).d
        sec == SecC(PubPoint(d))
        ty == v.hd[i].type
        h == IF ty = "UNKNOWN" THEN Legacy(v.tx, i, Pkh(sec)) ELSE Bip143(v.tx, i, Pkh(sec), v.amt[i])
        g == DerAll(EcdsaSign(d, h).sig)
    IN [v EXCEPT !.tx = CASE ty = "UNKNOWN" -> WithScript(@, i, PushData(g) \o PushData(sec))
                          [] ty = "P2WPKH" -> WithWit(@, i, <<g, sec>>)
                          [] ty = "P2SH_P2WPKH" -> WithScript(WithWit(@, i, <<g, sec>>), i, PushData(Wpkh(sec)))]
RECURSIVE ElSignFrom(_, _, _)
ElSignFrom(v, i, acc) == IF i > Len(v.hd) THEN v
    ELSE ElSignFrom(IF ElOwn(v, i, acc) THEN ElSignIn(v, i, acc) ELSE v, i + 1, acc)
ElSignable(v, acc) == \A i \in 1..Len(v.hd) : ElOwn(v, i, acc) => v.hd[i].type \in {"UNKNOWN", "P2WPKH", "P2SH_P2WPKH"}
ElCount(v, acc) == Len(SelectSeq([i \in 1..Len(v.hd) |-> ElOwn(v, i, acc)], LAMBDA x : x))
ElFee(v) == FeeOf([i \in 1..Len(v.amt) |-> [amt |-> v.amt[i]]], v.tx.outs, \A i \in 1..Len(v.amt) : ~AllZero(v.amt[i]))
=============================================================================
