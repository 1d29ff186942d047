--------------------------------- MODULE HD ---------------------------------
(* BIP32 keys and paths, SLIP132 texts, BIP39 sentences.                     *)
(* HD private key: [d, cc, depth, fp, child, type, net]; child is the index  *)
(* as four little-endian bytes.  HD public key: [pt, cc, ...].               *)
EXTENDS TextCodec, Words
IsHard(i) == i[4] >= 128
Hard(i) == IF IsHard(i) THEN i ELSE [i EXCEPT ![4] = @ + 128]
HIdx(n) == Hard(LE(n, 4))
NoPrv == [ok |-> FALSE]
SeedKey == Text("Bitcoin seed")
Master(seed, net) == LET I == HmacSha512(SeedKey, seed)
    IN [ok |-> TRUE, d |-> SubSeq(I, 1, WS), cc |-> SubSeq(I, WS + 1, 2 * WS), depth |-> 0, fp |-> Zeros(4), child |-> Zeros(4),
        type |-> "UNKNOWN", net |-> net]
Fingerprint(P) == Take(Hash160(SecC(P)), 4)
(* the script type and network a hardened step announces (BIP44, 45, 48, 49, 84) *)
ChildType(k, i) ==
    IF ~IsHard(i) THEN k.type
    ELSE IF k.depth = 0 THEN CASE i = HIdx(44) -> "P2PKH" [] i = HIdx(49) -> "P2SH_P2WPKH" [] i = HIdx(84) -> "P2WPKH"
                               [] i = HIdx(48) -> "MULTISIG" [] i = HIdx(45) -> "P2SH" [] OTHER -> k.type
    ELSE IF k.depth = 3 /\ k.type = "MULTISIG" THEN CASE i = HIdx(1) -> "P2SH_P2WSH" [] i = HIdx(2) -> "P2WSH" [] OTHER -> k.type
    ELSE k.type
ChildNet(k, i) == IF k.depth # 1 THEN k.net ELSE IF i = HIdx(1) THEN "test" ELSE IF i = HIdx(0) THEN "main" ELSE k.net
(* BIP32 child of a private key, index as 4 bytes LE *)
CkdPriv(k, i) ==
    LET P == PubPoint(k.d)
        data == IF IsHard(i) THEN <<0>> \o k.d ELSE SecC(P)
        I == HmacSha512(k.cc, data \o Rev(i))
    IN [ok |-> TRUE, d |-> SAdd(SRed(SubSeq(I, 1, WS)), k.d), cc |-> SubSeq(I, WS + 1, 2 * WS), depth |-> k.depth + 1,
        fp |-> Fingerprint(P), child |-> i, type |-> ChildType(k, i), net |-> ChildNet(k, i)]
Neuter(k) == [ok |-> TRUE, pt |-> PubPoint(k.d), cc |-> k.cc, depth |-> k.depth, fp |-> k.fp, child |-> k.child, type |-> k.type, net |-> k.net]
CkdPub(k, i) ==
    IF IsHard(i) THEN NoPrv
    ELSE LET I == HmacSha512(k.cc, SecC(k.pt) \o Rev(i))
         IN [ok |-> TRUE, pt |-> PAdd(PMul(SRed(SubSeq(I, 1, WS)), PG), k.pt), cc |-> SubSeq(I, WS + 1, 2 * WS), depth |-> k.depth + 1,
             fp |-> Fingerprint(k.pt), child |-> i, type |-> k.type, net |-> k.net]
RECURSIVE DerivePriv(_, _)
DerivePriv(k, path) == IF path = <<>> THEN k ELSE DerivePriv(CkdPriv(k, path[1]), Tail(path))
RECURSIVE DerivePub(_, _)
DerivePub(k, path) == IF path = <<>> THEN k ELSE IF ~k.ok THEN k ELSE DerivePub(CkdPub(k, path[1]), Tail(path))
(* index list given as bytes *)
Indexes(b) == [i \in 1..(Len(b) \div 4) |-> Slice(b, 4 * (i - 1), 4)]

(* ---- path text: optional "m" or "m/", then steps separated by "/" ---- *)
IsDigit(c) == c \in 48..57
RECURSIVE DecToLE(_, _)        \* decimal digits -> four bytes LE, <<>> if 2^31 or more
DecToLE(t, acc) ==
    IF t = <<>> THEN acc
    ELSE LET x10 == AddLE(acc, AddLE(acc, AddLE(acc, AddLE(acc, AddLE(acc, AddLE(acc, AddLE(acc, AddLE(acc, AddLE(acc, acc)))))))))
             x == AddLE(x10, LE(t[1] - 48, 5))
         IN IF x[4] >= 128 \/ x[5] > 0 THEN <<>> ELSE DecToLE(Tail(t), x)
RECURSIVE DigitCount(_, _)
DigitCount(t, n) == IF n < Len(t) /\ IsDigit(t[n + 1]) THEN DigitCount(t, n + 1) ELSE n
BadPath == [ok |-> FALSE, p |-> <<>>]
RECURSIVE PathSteps(_)
PathSteps(t) ==
    IF t = <<>> THEN [ok |-> TRUE, p |-> <<>>]
    ELSE LET n == DigitCount(t, 0)
             v == DecToLE(SubSeq(t, 1, n), Zeros(5))
             h == n < Len(t) /\ t[n + 1] \in {104, 39}
             e == IF h THEN n + 1 ELSE n
             i == IF h THEN Hard(Take(v, 4)) ELSE Take(v, 4)
         IN IF n = 0 \/ v = <<>> \/ (e < Len(t) /\ t[e + 1] # 47) THEN BadPath
            ELSE LET r == PathSteps(SubSeq(t, e + 2, Len(t)))
                 IN IF r.ok THEN [ok |-> TRUE, p |-> <<i>> \o r.p] ELSE BadPath
PathDec(t) == IF t # <<>> /\ t[1] = 109
    THEN IF Len(t) = 1 THEN [ok |-> TRUE, p |-> <<>>] ELSE IF t[2] # 47 THEN BadPath ELSE PathSteps(SubSeq(t, 3, Len(t)))
    ELSE PathSteps(t)

(* ---- serialized extended keys ---- *)
VerTypes == <<"UNKNOWN", "P2SH_P2WPKH", "P2WPKH", "P2SH_P2WSH", "P2WSH">>   \* x y z Y Z
PrvMain == <<<<4, 136, 173, 228>>, <<4, 157, 120, 120>>, <<4, 178, 67, 12>>, <<2, 149, 176, 5>>, <<2, 170, 122, 153>>>>
PubMain == <<<<4, 136, 178, 30>>, <<4, 157, 124, 178>>, <<4, 178, 71, 70>>, <<2, 149, 180, 63>>, <<2, 170, 126, 211>>>>
PrvTest == <<<<4, 53, 131, 148>>, <<4, 74, 78, 40>>, <<4, 95, 24, 188>>, <<2, 66, 133, 181>>, <<2, 87, 80, 72>>>>
PubTest == <<<<4, 53, 135, 207>>, <<4, 74, 82, 98>>, <<4, 95, 28, 246>>, <<2, 66, 137, 239>>, <<2, 87, 84, 131>>>>
VerIdx(type) == IF \E i \in 2..5 : VerTypes[i] = type THEN CHOOSE i \in 2..5 : VerTypes[i] = type ELSE 1
PrvVer(k) == (IF k.net = "main" THEN PrvMain ELSE PrvTest)[VerIdx(k.type)]
PubVer(k) == (IF k.net = "main" THEN PubMain ELSE PubTest)[VerIdx(k.type)]
XHead(k) == <<k.depth>> \o k.fp \o Rev(k.child) \o k.cc
XPrv(k) == PrvVer(k) \o XHead(k) \o <<0>> \o k.d
XPub(k) == PubVer(k) \o XHead(k) \o SecC(k.pt)
(* decoding; networks that share version bytes are told apart as "test" *)
VerDec(v, main, test) ==
    IF \E i \in 1..5 : main[i] = v THEN [ok |-> TRUE, net |-> "main", type |-> VerTypes[CHOOSE i \in 1..5 : main[i] = v]]
    ELSE IF \E i \in 1..5 : test[i] = v THEN [ok |-> TRUE, net |-> "test", type |-> VerTypes[CHOOSE i \in 1..5 : test[i] = v]]
    ELSE [ok |-> FALSE, net |-> "", type |-> ""]
XDecHead(b, ver) == [ok |-> TRUE, depth |-> b[5], fp |-> Slice(b, 5, 4), child |-> Rev(Slice(b, 9, 4)), cc |-> Slice(b, 13, 32), type |-> ver.type, net |-> ver.net]
XLen == 78
(* stream decoders with the statuses of module Bytes *)
XPrvDec(b) ==
    IF Len(b) < 4 THEN Inc
    ELSE LET ver == VerDec(SubSeq(b, 1, 4), PrvMain, PrvTest)
         IN IF ~ver.ok THEN Bad
            ELSE IF Len(b) < 46 THEN Inc
            ELSE IF Len(b) < XLen THEN IF b[46] # 0 THEN Big ELSE Inc   \* Big: may be refused at once or when complete
            ELSE IF b[46] # 0 THEN Bad
            ELSE LET d == Slice(b, 46, 32) IN
                 IF ~InRange(d) THEN Bad ELSE Done(XLen, [d |-> d] @@ XDecHead(b, ver))
XPubDec(b) ==
    IF Len(b) < 4 THEN Inc
    ELSE LET ver == VerDec(SubSeq(b, 1, 4), PubMain, PubTest)
         IN IF ~ver.ok THEN Bad
            ELSE IF Len(b) < 46 THEN Inc
            ELSE IF Len(b) < XLen THEN IF b[46] \notin {2, 3} THEN Big ELSE Inc
            ELSE IF b[46] \notin {2, 3} THEN Bad
            ELSE LET P == PLift(Slice(b, 46, 32), b[46] = 3) IN
                 IF P = <<>> THEN Bad ELSE Done(XLen, [pt |-> P] @@ XDecHead(b, ver))
(* from text: the key, or [ok |-> FALSE] *)
XFromText(t, pub) == LET b == UnBase58Check(t)
                         r == IF pub THEN XPubDec(b.v) ELSE XPrvDec(b.v)
                     IN IF b.ok /\ Len(b.v) = XLen /\ r.st = 0 THEN r.v ELSE NoPrv
KeyAddr(type, net, sec) == CASE type = "P2SH_P2WPKH" -> NestedAddr(sec, net)
                             [] type = "P2PKH" -> LegacyAddr(sec, net)
                             [] OTHER -> WpkhAddr(sec, net)

----------------------------------------------------------------------------
(* BIP39 *)
EntropySizes == {16, 20, 24, 28, 32}
Sentence(ent) ==
    LET bits == BitsOf(ent, 8) \o SubSeq(BitsOf(Sha256(ent), 8), 1, Len(ent) \div 4)
        idx == Regroup(bits, 11)
        ws == Map(LAMBDA i : Text(WordList[i + 1]), idx)
    IN Tail(Cat(Map(LAMBDA w : <<32>> \o w, ws)))
(* words are in lexicographic order *)
RECURSIVE WordSearch(_, _, _)
WordSearch(w, lo, hi) ==
    IF lo > hi THEN 0
    ELSE LET m == (lo + hi) \div 2
             x == Text(WordList[m])
         IN IF x = w THEN m ELSE IF LexLess(x, w) THEN WordSearch(w, m + 1, hi) ELSE WordSearch(w, lo, m - 1)
RECURSIVE SplitAt(_, _, _)     \* split t at character c
SplitAt(t, c, acc) == IF t = <<>> THEN <<acc>> ELSE IF t[1] = c THEN <<acc>> \o SplitAt(Tail(t), c, <<>>) ELSE SplitAt(Tail(t), c, Append(acc, t[1]))
(* the entropy of a valid sentence, <<>> otherwise *)
SentenceEntropy(t) ==
    LET ws == SplitAt(t, 32, <<>>)
        idx == Map(LAMBDA w : WordSearch(w, 1, Len(WordList)), ws)
        bits == BitsOf(Map(LAMBDA i : i - 1, idx), 11)
        n == (Len(ws) * 4) \div 3
        ent == Regroup(SubSeq(bits, 1, 8 * n), 8)
    IN IF Len(ws) \notin {12, 15, 18, 21, 24} THEN <<>>
       ELSE IF \E i \in 1..Len(idx) : idx[i] = 0 THEN <<>>
       ELSE IF Sentence(ent) = t THEN ent ELSE <<>>
WordCounts == {12, 15, 18, 21, 24}
SentenceSeed(t, pass) == Pbkdf2(t, Text("mnemonic") \o pass, 2048, 64)
=============================================================================
