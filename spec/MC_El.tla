------------------------------- MODULE MC_El --------------------------------
(* Electrum's unsigned transactions and their signers.  A file for one or    *)
(* two inputs is put together from format (keys in the scripts, or in the    *)
(* witness area with amounts), owner of each input's extended key - account  *)
(* A, account B, A's key with another chain code, or the negated key - and   *)
(* key version; A and B then sign in any order.  TLC checks that the file is *)
(* read as put together (and no prefix of it is), that each account signs    *)
(* exactly its inputs, with signatures valid for them, that signers commute, *)
(* and that the fee is known only with the amounts.  Real curve and hashes;  *)
(* the histories are replayed into ElectrumTx objects (C21).                 *)
EXTENDS Psbt, Prims
CONSTANTS MaxLive, MaxIn, Owners
VARIABLES seg, own, ver, p, hist
vars == <<seg, own, ver, p, hist>>
K(d, cc) == [ok |-> TRUE, d |-> Zeros(31) \o <<d>>, cc |-> [i \in 1..32 |-> cc], depth |-> 3, fp |-> <<1, 2, 3, 4>>, child |-> <<7, 0, 0, 128>>, type |-> "UNKNOWN", net |-> "main"]
A == K(5, 9)
B == K(11, 3)
Acct(o, v) ==
    LET k == CASE o = "A" -> A [] o = "B" -> B [] o = "Acc" -> K(5, 8) [] o = "neg" -> [A EXCEPT !.d = SNeg(A.d)]
        ty == CASE v = "x" -> "UNKNOWN" [] v = "y" -> "P2SH_P2WPKH" [] v = "z" -> "P2WPKH"
    IN Neuter([k EXCEPT !.type = ty])
N == Len(own)
Der2(i) == <<LE(i, 2), LE(255 + i, 2)>>
Amt(i) == LE(1000 + i, 8)
Tx0 == [ver |-> LE(2, 4), ins |-> [i \in 1..N |-> [hash |-> [j \in 1..32 |-> i], idx |-> LE(i, 4), script |-> <<>>, seq |-> LE(9, 4), wit |-> <<>>]],
        outs |-> <<[amt |-> LE(900, 8), script |-> <<81>>]>>, lock |-> LE(3, 4)]
Keys == [i \in 1..N |-> Acct(own[i], ver[i])]
Value == El(Tx0, Keys, [i \in 1..N |-> Der2(i)], [i \in 1..N |-> IF seg THEN Amt(i) ELSE Zeros(8)])
(* the file *)
KeyPart(i) == XPub(Keys[i]) \o Cat(Der2(i))
LegacyTx == [Tx0 EXCEPT !.ins = [i \in 1..N |-> [Tx0.ins[i] EXCEPT !.script = <<1, 255, 76, 83, 255>> \o KeyPart(i)]]]
Entry(i) == <<254, 255, 255, 255, 255>> \o Amt(i) \o <<0, 0, 2, 1, 255, 83, 255>> \o KeyPart(i)
File == IF ~seg THEN ElMagic \o TxEncBase(LegacyTx)
        ELSE ElMagic \o Tx0.ver \o <<0, 1>> \o Body(Tx0) \o Cat([i \in 1..N |-> Entry(i)]) \o Tx0.lock
Vers == IF seg THEN {"y", "z"} ELSE {"x"}
Init == seg \in BOOLEAN /\ own = <<>> /\ ver = <<>> /\ p = <<>> /\ hist = <<>>
Load == own = <<>> /\ UNCHANGED <<seg, hist>> /\ (\E n \in 1..MaxIn : own' \in [1..n -> Owners] /\ ver' \in [1..n -> Vers]) /\ p' = Value'
Sgn(q, w) == ElSignFrom(q, 1, w)
Sign(w, nm) == own # <<>> /\ Len(hist) < MaxLive /\ p' = Sgn(p, w) /\ hist' = Append(hist, nm) /\ UNCHANGED <<seg, own, ver>>
Next == Load \/ Sign(A, "A") \/ Sign(B, "B")
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Loaded == own # <<>>
Reads == Loaded /\ hist = <<>> => LET r == ElDec(File) IN r.st = 0 /\ r.n = Len(File) /\ r.v = p /\ ElDec(File \o <<7>>) = r
Parts == Loaded /\ hist = <<>> /\ own[1] = "A" => \A n \in {x \in 1..(Len(File) - 1) : x < 14 \/ x % 9 = 0 \/ x > Len(File) - 6} : ElDec(Take(File, n)).st = 1
(* which inputs carry a signature after the history *)
Signers == {hist[j] : j \in 1..Len(hist)}
InputKey(i) == DerivePub(Keys[i], <<LE(i, 4), LE(255 + i, 4)>>)
SigOf(i) == IF seg THEN p.tx.ins[i].wit ELSE LET s == p.tx.ins[i].script IN IF s = <<>> THEN <<>> ELSE <<SubSeq(s, 2, 1 + s[1]), SubSeq(s, 3 + s[1], Len(s))>>
OnlyOwn == Loaded => \A i \in 1..N : LET w == SigOf(i) IN
    /\ (w # <<>>) = (own[i] \in Signers)
    /\ (w = <<>> => p.tx.ins[i] = Tx0.ins[i])
    /\ (w # <<>> => LET sec == SecC(InputKey(i).pt)
                        g == DerDec(w[1], 0)
                        h == IF seg THEN Bip143(Tx0, i, Pkh(sec), Amt(i)) ELSE Legacy(Tx0, i, Pkh(sec))
                    IN /\ w[2] = sec /\ g.st = 0 /\ w[1] = Der(g.v) \o <<1>> /\ EcdsaVerify(InputKey(i).pt, g.v, h)
                       /\ p.tx.ins[i].script = (CASE ver[i] = "x" -> PushData(w[1]) \o PushData(w[2]) [] ver[i] = "y" -> PushData(Wpkh(sec)) [] OTHER -> <<>>)
                       /\ (~seg => p.tx.ins[i].wit = <<>>))
Rest == Loaded => /\ p.tx.ver = Tx0.ver /\ p.tx.outs = Tx0.outs /\ p.tx.lock = Tx0.lock
                  /\ \A i \in 1..N : p.tx.ins[i].hash = Tx0.ins[i].hash /\ p.tx.ins[i].idx = Tx0.ins[i].idx /\ p.tx.ins[i].seq = Tx0.ins[i].seq
Commute == Loaded /\ hist = <<>> => Sgn(Sgn(p, A), B) = Sgn(Sgn(p, B), A) /\ Sgn(Sgn(p, A), A) = Sgn(p, A)
Counts == Loaded => ElCount(p, A) = Len(SelectSeq(own, LAMBDA o : o = "A")) /\ ElCount(p, B) = Len(SelectSeq(own, LAMBDA o : o = "B"))
Fee == Loaded => ElFee(p).v = (IF ~seg THEN Zeros(8) ELSE LE(N * 1000 + ((N * (N + 1)) \div 2) - 900, 8))
Export == ~Loaded \/ PrintT("HIST " \o ToString(<<seg, own, ver, hist>>))
=============================================================================
