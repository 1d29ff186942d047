------------------------------- MODULE MC_Toy -------------------------------
(* The constructions of Crypto and HD over the toy group, for every value.   *)
EXTENDS HD, Toy, FiniteSets
CONSTANTS What, Deep
VARIABLES x, y, z
vars == <<x, y, z>>
Scalars == {<<i>> : i \in 0..30}
Keys == {<<i>> : i \in 1..30}
Bytes1 == {<<i>> : i \in 0..255}
(* x, y, z range over what the part under examination needs *)
Init == CASE What = "group" -> x \in ToyGroup /\ y \in ToyGroup /\ z \in ToyGroup
          [] What = "scalar" -> x \in Scalars /\ y \in Scalars /\ z \in Scalars
          [] What = "sign" -> x \in Keys /\ y \in Keys /\ z \in {<<i>> : i \in IF Deep THEN 0..40 ELSE {0, 1, 2, 15, 16, 30, 31, 32, 255}}
          [] What = "sigs" -> x \in (IF Deep THEN Bytes1 ELSE {<<i>> : i \in 0..45}) /\ y \in {<<i>> : i \in 0..40} /\ z \in {<<i>> : i \in {0, 1, 15, 16, 31, 34, 255}}
          [] What = "hd" -> x \in Keys /\ y \in {<<i>> : i \in IF Deep THEN 0..250 ELSE {0, 1, 77, 250}} /\ z \in {Zeros(4), LE(1, 4), LE(77, 4), <<255, 255, 255, 127>>, <<0, 0, 0, 128>>, <<7, 0, 0, 128>>}
          [] What = "der" -> x \in Bytes1 /\ y \in (IF Deep THEN Bytes1 ELSE {<<i>> : i \in {0, 1, 127, 128, 255}}) /\ z = <<>>
          [] What = "derbytes" -> x = <<>> /\ y = <<>> /\ z = <<>>
Next == /\ What = "derbytes" /\ Len(x) < 9
        /\ \E c \in {0, 1, 2, 3, 6, 7, 48, 127, 128, 255} :
             /\ (Len(x) < 2 => c = <<48, IF y = <<>> THEN 6 ELSE 7>>[Len(x) + 1] \/ Len(x) = 1)
             /\ DerDec(x, 0).st = 1
             /\ x' = Append(x, c) /\ UNCHANGED <<y, z>>
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
ASSUME Cardinality(ToyGroup) = 31 /\ ToyPOn(ToyG) /\ \A i \in 1..30 : PMul(<<i>>, PG) # <<>>
Group == What = "group" =>
    /\ PAdd(x, y) \in ToyGroup /\ PAdd(x, y) = PAdd(y, x) /\ PAdd(PAdd(x, y), z) = PAdd(x, PAdd(y, z))
    /\ PAdd(x, <<>>) = x /\ PAdd(x, PNeg(x)) = <<>> /\ PSub(PAdd(x, y), y) = x
    /\ (x # <<>> => \A c \in {TRUE, FALSE} : LET r == SecDec(Sec(x, c), 0) IN r.st = 0 /\ r.v.pt = x /\ r.v.c = c /\ r.n = Len(Sec(x, c)))
    /\ (x # <<>> /\ y # <<>> => ((SecC(x) = SecC(y)) = (x = y)) /\ ((PX(x) = PX(y)) = (y \in {x, PNeg(x)})))
Scalar == What = "scalar" =>
    /\ SAdd(x, y) = SAdd(y, x) /\ SMul(x, SAdd(y, z)) = SAdd(SMul(x, y), SMul(x, z)) /\ SSub(SAdd(x, y), y) = x
    /\ (y # SZero => SMul(SDiv(x, y), y) = x)
    /\ PMul(SAdd(x, y), PG) = PAdd(PMul(x, PG), PMul(y, PG)) /\ PMul(SMul(x, y), PMul(z, PG)) = PMul(x, PMul(SMul(y, z), PG))
    /\ (SAdd(x, y) = SZero) = (y = SNeg(x)) /\ (High(x) => ~High(SNeg(x)))
    /\ (x # SZero /\ y # SZero => Ecdh(x, PubPoint(y), FALSE) = Ecdh(y, PubPoint(x), FALSE) /\ Ecdh(x, PubPoint(y), TRUE) = Ecdh(y, PubPoint(x), TRUE))
(* recovery: the key that made a signature, from the recovery id *)
Recover(g, rec, msg) ==
    LET cand == {P \in ToyPoints : SRed(PX(P)) = SigR(g) /\ (LexLess(PX(P), Order) = (rec < 2)) /\ (Even(P) = (rec % 2 = 0))}
    IN {PMul(SInv(SigR(g)), PSub(PMul(SigS(g), R), PMul(SRed(msg), PG))) : R \in cand}
Sign == What = "sign" =>      \* x: key, y: nonce, z: message
    LET P == PubPoint(x)
        t == EcdsaTry(x, z, y)
        g == SchnorrWith(x, z, y)
    IN /\ (t # <<>> => /\ EcdsaVerify(P, t.sig, z) /\ ~High(SigS(t.sig)) /\ EcdsaVerify(P, SigR(t.sig) \o SNeg(SigS(t.sig)), z)
                       /\ P \in Recover(t.sig, t.rec, z))
       /\ SchnorrVerify(PX(P), z, g) /\ (SchnorrWith(SNeg(x), z, y) = g) /\ (SchnorrWith(x, z, SNeg(y)) = g)
       /\ \A s \in (IF Deep THEN Bytes1 ELSE {<<i>> : i \in 0..33}) : SchnorrVerify(PX(P), z, PX(PMul(y, PG)) \o s) => s = SigS(g)      \* not malleable
Sigs == What = "sigs" =>      \* x: r, y: s, z: message: what verification accepts
    \A d \in {<<1>>, <<2>>, <<17>>, <<30>>} :
      LET P == PubPoint(d) IN
      /\ (EcdsaVerify(P, x \o y, z) => x # SZero /\ y # SZero /\ IsScalar(x) /\ IsScalar(y)
                                       /\ \E k \in Keys : SRed(PX(PubPoint(k))) = x /\ SMul(y, k) \in {SAdd(SRed(z), SMul(x, d)), SNeg(SAdd(SRed(z), SMul(x, d)))})
      /\ (SchnorrVerify(PX(P), z, x \o y) => IsScalar(y) /\ ToyPLift(x, FALSE) # <<>>)
Hd == What = "hd" =>          \* x: key, y: chain code, z: index
    LET k == [ok |-> TRUE, d |-> x, cc |-> y, depth |-> 1, fp |-> Zeros(4), child |-> Zeros(4), type |-> "P2WPKH", net |-> "main"]
        c == CkdPriv(k, z)
    IN IF IsHard(z) THEN ~CkdPub(Neuter(k), z).ok
       ELSE c.d # SZero => (Neuter(c) = CkdPub(Neuter(k), z) /\ \A j \in {LE(0, 4), LE(5, 4)} : CkdPriv(c, j).d # SZero =>
              (DerivePub(Neuter(k), <<z, j>>) = Neuter(DerivePriv(k, <<z, j>>))))
Ders == What = "der" =>
    LET b == Der(x \o y)
        r == DerDec(b, 0)
    IN r.st = 0 /\ r.v = x \o y /\ r.n = Len(b)
       /\ \A j \in 0..(Len(b) - 1) : DerDec(Take(b, j), 0).st = 1
DerBytes == What = "derbytes" => LET r == DerDec(x, 0) IN r.st = 0 => Der(r.v) = Take(x, r.n)
=============================================================================
