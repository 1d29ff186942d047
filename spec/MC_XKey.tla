------------------------------ MODULE MC_XKey ------------------------------
(* Extended keys as bytes and text.  A state is a serialized key put together *)
(* from version bytes, depth, key material and a length, read as a private   *)
(* or a public key.  TLC checks that exactly the well-formed ones are read,  *)
(* that they come out again byte for byte, that a key's version tells kind,  *)
(* network and script type apart, and that no prefix is taken for a key.     *)
(* Exported texts and bytes are given to the library (C10).                  *)
EXTENDS HD, Prims
CONSTANT Depths
VARIABLES pub, ver, depth, mat, len, how
vars == <<pub, ver, depth, mat, len, how>>
AllVers == [k \in 1..20 |-> <<PrvMain, PrvTest, PubMain, PubTest>>[((k - 1) \div 5) + 1][((k - 1) % 5) + 1]]
ASSUME \A i, j \in 1..20 : AllVers[i] = AllVers[j] => i = j
OddVers == <<Zeros(4), <<4, 136, 173, 229>>, <<255, 255, 255, 255>>>>
Ver == IF ver <= 20 THEN AllVers[ver] ELSE OddVers[ver - 20]
(* key material: 33 bytes *)
Bump(b, up) == [b EXCEPT ![Len(b)] = IF up THEN @ + 1 ELSE @ - 1]
One == Zeros(31) \o <<1>>
Key33 == CASE mat = "one" -> <<0>> \o One
           [] mat = "last" -> <<0>> \o Bump(RealOrder, FALSE)
           [] mat = "order" -> <<0>> \o RealOrder
           [] mat = "zero" -> Zeros(33)
           [] mat = "pad" -> <<1>> \o One
           [] mat = "G" -> SecC(RealPG)
           [] mat = "-G" -> SecC(RealPNeg(RealPG))
           [] mat = "off" -> <<2>> \o Zeros(31) \o <<5>>          \* no point has this x
           [] mat = "wide" -> <<2>> \o [i \in 1..32 |-> 255]
           [] mat = "unc" -> <<4>> \o Take(RealPG, 32)
           [] mat = "hyb" -> <<6>> \o Take(RealPG, 32)
PrvMats == {"one", "last"}
PubMats == {"G", "-G"}
Mats == PrvMats \cup PubMats \cup {"order", "zero", "pad", "off", "wide", "unc", "hyb"}
Init == pub \in BOOLEAN /\ ver \in 1..23 /\ depth = 0 - 1 /\ mat = "" /\ len = 78 /\ how = "good"
Next == /\ depth = 0 - 1 /\ depth' \in Depths /\ mat' \in Mats /\ UNCHANGED <<pub, ver>>
        /\ \/ len' = 78 /\ how' = "good"
           \/ mat' \in {"one", "G"} /\ depth' = 0 /\ len' \in {0, 3, 4, 45, 46, 77, 79} /\ how' = "good"
           \/ mat' \in {"one", "G"} /\ depth' = 0 /\ len' = 78 /\ how' \in {"symbol", "cut", "more"}
Spec == Init /\ [][Next]_vars
Body == Take(Ver \o <<depth>> \o <<1, 2, 3, 4>> \o <<128, 0, 0, 7>> \o [i \in 1..32 |-> i] \o Key33 \o <<9, 9>>, len)
Next1(alpha, c) == alpha[(IndexIn(alpha, c) % Len(alpha)) + 1]
Txt == LET t == Base58Check(Body) IN
       CASE how = "symbol" -> [t EXCEPT ![20] = Next1(B58, @)]
         [] how = "cut" -> SubSeq(t, 1, Len(t) - 1)
         [] how = "more" -> Append(t, B58[5])
         [] OTHER -> t
Chosen == depth >= 0
IsPub == ver \in 11..20
Good == len = 78 /\ how = "good" /\ ver <= 20 /\ IsPub = pub /\ mat \in (IF pub THEN PubMats ELSE PrvMats)
----------------------------------------------------------------------------
Dec(b) == IF pub THEN XPubDec(b) ELSE XPrvDec(b)
Enc(k) == IF pub THEN XPub(k) ELSE XPrv(k)
Reads == Chosen => LET r == XFromText(Txt, pub) IN
    /\ r.ok = Good
    /\ (Good => /\ Enc(r) = Body /\ r.depth = depth /\ r.child = <<7, 0, 0, 128>> /\ Dec(Body).st = 0
                /\ r.net = (IF ((ver - 1) \div 5) % 2 = 0 THEN "main" ELSE "test") /\ r.type = VerTypes[((ver - 1) % 5) + 1]
                /\ (~pub => XPubDec(XPub(Neuter(r))).st = 0))
Parts == Chosen /\ Good /\ depth = 0 => \A j \in {0, 1, 3, 4, 5, 13, 45, 46, 60, 77} : Dec(Take(Body, j)).st # 0 /\ Dec(Take(Body, j)).st # 2
Longer == Chosen /\ Good => Dec(Body \o <<1, 2>>) = Dec(Body)
Export == ~Chosen \/ PrintT("HIST " \o ToString(<<pub, ToHexStr(Txt), IF how = "good" THEN ToHexStr(Body) ELSE "">>))
=============================================================================
