------------------------------ MODULE MC_Addr ------------------------------
(* Addresses and private keys as text.  A state is a way of writing an       *)
(* address or key: what it stands for, on which network, and how it was      *)
(* written or spoilt.  TLC checks for every combination that a proper text   *)
(* means exactly what it was made from, that spoilt ones mean nothing, and   *)
(* that reading and writing are inverse; the texts are exported and given to *)
(* the library (C16, C20).                                                   *)
EXTENDS TextCodec, Toy, Prims
CONSTANTS What, Nets, Vers, Sizes
VARIABLES form, ver, size, net, how
vars == <<form, ver, size, net, how>>
Payload(n) == [i \in 1..n |-> (37 * i + 11 * ver + 5) % 256]
Hows == {"good", "upper", "mixed", "other checksum", "extra zero bits", "set pad bit", "symbol", "network", "cut", "more"}
Init == net \in Nets /\ form = "none" /\ ver = 0 /\ size = 0 /\ how = "none"
Choose == CASE What = "wit" -> form' = "wit" /\ ver' \in Vers /\ size' \in Sizes /\ how' \in Hows
             [] What = "b58" -> form' = "b58" /\ ver' \in {0, 5, 111, 196, 1, 4, 6, 110, 112, 128, 195, 197, 239, 255} /\ size' \in {0, 1, 19, 20, 21, 32} /\ how' \in {"good", "symbol", "cut", "more", "check"}
             [] What = "wif" -> form' = "wif" /\ ver' \in {128, 239, 0, 127, 129, 238, 240, 255} /\ size' \in {0, 31, 32, 33, 34, 35} /\ how' \in {"good", "flag 0", "flag 2", "zero", "order", "order - 1", "order + 1", "max", "symbol", "cut", "more"}
Next == form = "none" /\ Choose /\ UNCHANGED net
Spec == Init /\ [][Next]_vars
Hrp == IF how = "network" THEN Text("ltc") ELSE Net(net).hrp
Data == LET d == <<ver>> \o To5(Payload(size)) IN
        IF how = "extra zero bits" THEN d \o <<0>>
        ELSE IF how = "set pad bit" THEN [d EXCEPT ![Len(d)] = @ ^^ 1] ELSE d
Upper(c) == IF c \in 97..122 THEN c - 32 ELSE c
Next1(alpha, c) == alpha[(IndexIn(alpha, c) % Len(alpha)) + 1]        \* another character
Spoil(t, alpha) == CASE how = "symbol" -> [t EXCEPT ![Len(t) - 1] = Next1(alpha, @)]
                     [] how = "cut" -> SubSeq(t, 1, Len(t) - 1)
                     [] how = "more" -> Append(t, alpha[5])
                     [] OTHER -> t
Wit == LET t == BechEnc(Hrp, Data, BechConst(IF how = "other checksum" THEN (IF ver = 0 THEN 1 ELSE 0) ELSE ver)) IN
       CASE how = "upper" -> Map(Upper, t)
         [] how = "mixed" -> [t EXCEPT ![1] = Upper(@)]
         [] OTHER -> Spoil(t, BechChars)
B58Text == IF how = "check" THEN LET b == <<ver>> \o Payload(size) IN Base58(b \o <<0, 0, 0, 0>>) ELSE Spoil(Base58Check(<<ver>> \o Payload(size)), B58)
Bump(b, up) == [b EXCEPT ![Len(b)] = IF up THEN @ + 1 ELSE @ - 1]
WifBody == LET k == CASE how = "zero" -> Zeros(32) [] how = "order" -> RealOrder [] how = "order - 1" -> Bump(RealOrder, FALSE) [] how = "order + 1" -> Bump(RealOrder, TRUE)
                      [] how = "max" -> [i \in 1..32 |-> 255] [] OTHER -> Payload(32)
               f == CASE how = "flag 0" -> 0 [] how = "flag 2" -> 2 [] OTHER -> 1
           IN <<ver>> \o Take(k \o <<f>> \o <<7, 7>>, size)
WifText == Spoil(Base58Check(WifBody), B58)
Made == CASE What = "wit" -> Wit [] What = "b58" -> B58Text [] What = "wif" -> WifText
----------------------------------------------------------------------------
(* whether a pad bit exists to be set *)
Padded == (8 * size) % 5 # 0
Fine == /\ ver <= 16 /\ size \in 2..40 /\ (ver = 0 => size \in {20, 32})
        /\ how \in {"good", "upper"}
WitProg0 == <<IF ver = 0 THEN 0 ELSE 80 + ver, size>> \o Payload(size)
WitRight == form = "wit" =>
    LET s == AddrScript(Made) IN
    /\ (Fine => s = WitProg0 /\ SegwitAddr(Net(net).hrp, ver, Payload(size)) = Map(Lower, Made))
    /\ (how = "good" /\ ~Fine => s = <<>>)
    /\ (how \in {"mixed", "other checksum", "symbol", "network"} => s = <<>>)
    /\ (how = "set pad bit" /\ Padded => s = <<>>)
    /\ (how = "extra zero bits" => s = <<>> \/ s = <<WitProg0[1], size + 1>> \o Payload(size) \o <<0>>)   \* five more bits may make up a byte
    /\ (s # <<>> => Len(s) = 2 + s[2] /\ s[2] \in 2..40)
(* a bech32 text with symbols added or cut: never the same meaning *)
WitOther == form = "wit" /\ how \in {"cut", "more"} => AddrScript(Made) # WitProg0
B58Right == form = "b58" =>
    LET s == AddrScript(Made) IN
    /\ (how = "good" => (s # <<>>) = (size = 20 /\ ver \in {0, 5, 111, 196}))
    /\ (how # "good" => s = <<>>)
    /\ (s # <<>> => \E n \in NetNames : ScriptAddr(s, n) = Made)
WifRight == form = "wif" =>
    LET r == WifDec(Made)
        shape == ver \in {128, 239} /\ size \in {32, 33} /\ (size = 33 => how \notin {"flag 0", "flag 2"})
    IN /\ r.ok = (shape /\ how \notin {"zero", "order", "order + 1", "max", "symbol", "cut", "more"})
       /\ (r.ok => Wif(r.d, r.c, r.net) = Made /\ r.c = (size = 33) /\ (r.net = "main") = (ver = 128))
Export == form = "none" \/ PrintT("HIST " \o ToString(<<What, net, ToHexStr(Made)>>))
=============================================================================
