----------------------------- MODULE TextCodec -----------------------------
(* Text encodings.  Text is a sequence of character codes.                   *)
EXTENDS Crypto, Bitwise
CONSTANTS BigDigits(_, _), BigBytes(_, _)   \* radix conversion of a big-endian byte string

(* the radix conversions, by long division; MC_Text checks the encodings     *)
(* with these, trace validation uses a big-number library for speed          *)
RECURSIVE DivBytes(_, _, _)      \* <<quotient, remainder>> of b by a small number
DivBytes(b, d, r) == IF b = <<>> THEN <<<<>>, r>>
    ELSE LET t == 256 * r + b[1]
             q == DivBytes(Tail(b), d, t % d)
         IN <<<<t \div d>> \o q[1], q[2]>>
RECURSIVE PureDigits(_, _)
PureDigits(b, base) == IF AllZero(b) THEN <<>>
    ELSE LET q == DivBytes(b, base, 0) IN PureDigits(q[1], base) \o <<q[2]>>
RECURSIVE MulAdd(_, _, _)        \* big-endian bytes times d plus c
MulAdd(b, d, c) == IF b = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET n == Len(b)
             t == b[n] * d + c
         IN MulAdd(SubSeq(b, 1, n - 1), d, t \div 256) \o <<t % 256>>
RECURSIVE PureBytes(_, _)
PureBytes(ds, base) == IF ds = <<>> THEN <<>>
    ELSE LET n == Len(ds) IN Strip(MulAdd(PureBytes(SubSeq(ds, 1, n - 1), base), base, ds[n]))

RECURSIVE LeadCount(_, _)
LeadCount(s, x) == IF s = <<>> \/ s[1] # x THEN 0 ELSE 1 + LeadCount(Tail(s), x)
(* position of a character in an alphabet, 0 if absent *)
IndexIn(alpha, c) == IF \E i \in 1..Len(alpha) : alpha[i] = c THEN CHOOSE i \in 1..Len(alpha) : alpha[i] = c ELSE 0
(* character code -> digit, 255 if absent, as a table *)
Table(alpha) == [c \in 0..255 |-> LET i == IndexIn(alpha, c) IN IF i = 0 THEN 255 ELSE i - 1]
(* the longest prefix made of characters of the alphabet *)
RECURSIVE PrefixLen(_, _, _)
PrefixLen(t, tab, n) == IF n >= Len(t) \/ tab[t[n + 1]] = 255 THEN n ELSE PrefixLen(t, tab, n + 1)

(* ---- hexadecimal ---- *)
HexChars == Text("0123456789abcdef")
HexText(b) == Cat(Map(LAMBDA x : <<HexChars[x \div 16 + 1], HexChars[(x % 16) + 1]>>, b))
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 255
RECURSIVE HexPairs(_)
HexPairs(t) == IF Len(t) < 2 THEN <<>>
    ELSE LET a == HexVal(t[1])
             b == HexVal(t[2])
         IN IF a > 15 \/ b > 15 THEN <<>> ELSE <<16 * a + b>> \o HexPairs(SubSeq(t, 3, Len(t)))
RECURSIVE SkipNonHex(_)
SkipNonHex(t) == IF t # <<>> /\ HexVal(t[1]) > 15 THEN SkipNonHex(Tail(t)) ELSE t
HexDecode(t) == HexPairs(SkipNonHex(t))   \* leading non-hex characters are skipped, the first later one ends it

(* ---- binary ---- *)
Bit(x, k) == (x \div Pow2(k)) % 2
BinText(b) == Cat(Map(LAMBDA x : [k \in 1..8 |-> 48 + Bit(x, 8 - k)], b))
RECURSIVE BinVal(_)
BinVal(t) == IF t = <<>> THEN 0 ELSE (t[Len(t)] - 48) + 2 * BinVal(SubSeq(t, 1, Len(t) - 1))
BinOk(t) == \A i \in 1..Len(t) : t[i] \in {48, 49}
BinDecode(t) == LET n == (Len(t) + 7) \div 8
                    p == [i \in 1..(8 * n - Len(t)) |-> 48] \o t
                IN IF BinOk(t) THEN [i \in 1..n |-> BinVal(SubSeq(p, 8 * i - 7, 8 * i))] ELSE <<>>

(* ---- Base58 and Base43 ---- *)
B58 == Text("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
B43 == Text("0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:")
B58Tab == Table(B58)
B43Tab == Table(B43)
BaseEnc(alpha, b) == LET z == LeadCount(b, 0) IN
    [i \in 1..z |-> alpha[1]] \o Map(LAMBDA d : alpha[d + 1], BigDigits(From(b, z), Len(alpha)))
(* decoding reads up to the first character outside the alphabet *)
BaseDec(alpha, tab, t) == LET p == SubSeq(t, 1, PrefixLen(t, tab, 0))
                              z == LeadCount(p, alpha[1])
                          IN Zeros(z) \o BigBytes(Map(LAMBDA c : tab[c], From(p, z)), Len(alpha))
Base58(b) == BaseEnc(B58, b)
Base43(b) == BaseEnc(B43, b)
UnBase58(t) == BaseDec(B58, B58Tab, t)
UnBase43(t) == BaseDec(B43, B43Tab, t)
Base58Check(b) == Base58(b \o Take(DSha(b), 4))
(* <<>> if refused; [ok, v] because the empty string is a legal payload *)
UnBase58Check(t) == LET b == UnBase58(t)
                        n == Len(b) - 4
                    IN IF n < 0 THEN [ok |-> FALSE, v |-> <<>>]
                       ELSE IF Take(DSha(Take(b, n)), 4) # From(b, n) THEN [ok |-> FALSE, v |-> <<>>]
                       ELSE [ok |-> TRUE, v |-> Take(b, n)]

(* ---- Base64; flags: 1 no padding, 2 URL alphabet ---- *)
B64(url) == Text("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789") \o (IF url THEN <<45, 95>> ELSE <<43, 47>>)
B64Std == B64(FALSE)
B64Url == B64(TRUE)
B64StdTab == Table(B64Std)
B64UrlTab == Table(B64Url)
RECURSIVE B64Groups(_, _, _)
B64Groups(b, al, pad) ==
    IF b = <<>> THEN <<>>
    ELSE LET x == b[1]
             y == IF Len(b) > 1 THEN b[2] ELSE 0
             z == IF Len(b) > 2 THEN b[3] ELSE 0
             q == <<al[x \div 4 + 1], al[(x % 4) * 16 + y \div 16 + 1], al[(y % 16) * 4 + z \div 64 + 1], al[(z % 64) + 1]>>
         IN IF Len(b) >= 3 THEN q \o B64Groups(SubSeq(b, 4, Len(b)), al, pad)
            ELSE SubSeq(q, 1, Len(b) + 1) \o (IF pad THEN [i \in 1..(3 - Len(b)) |-> 61] ELSE <<>>)
Base64(b, flags) == B64Groups(b, IF flags >= 2 THEN B64Url ELSE B64Std, flags % 2 = 0)
RECURSIVE B64Ungroup(_)     \* digits -> bytes
B64Ungroup(d) ==
    IF Len(d) < 2 THEN <<>>
    ELSE <<d[1] * 4 + d[2] \div 16>>
         \o (IF Len(d) < 3 THEN <<>> ELSE <<(d[2] % 16) * 16 + d[3] \div 4>>
             \o (IF Len(d) < 4 THEN <<>> ELSE <<(d[3] % 4) * 64 + d[4]>> \o B64Ungroup(SubSeq(d, 5, Len(d)))))
(* without the padding characters at the end *)
RECURSIVE Unpad(_, _)
Unpad(t, n) == IF n > 0 /\ t # <<>> /\ t[Len(t)] = 61 THEN Unpad(SubSeq(t, 1, Len(t) - 1), n - 1) ELSE t
(* set of permitted results of decoding t *)
UnBase64(t, flags) ==
    LET u == Unpad(t, 2)
        padded == Len(u) < Len(t)
        tab == IF flags >= 2 THEN B64UrlTab ELSE B64StdTab
        strict == PrefixLen(u, tab, 0) = Len(u)
        mixed == \A i \in 1..Len(u) : B64StdTab[u[i]] # 255 \/ B64UrlTab[u[i]] # 255
        digits == Map(LAMBDA c : IF tab[c] # 255 THEN tab[c] ELSE Min2(B64StdTab[c], B64UrlTab[c]), u)
        v == B64Ungroup(digits)
        shape == IF flags % 2 = 0 THEN Len(t) % 4 = 0 ELSE Len(u) % 4 # 1
        exact == strict /\ shape /\ Base64(v, flags) = t
        \* other alphabet's two last characters, padding where none is due or non-zero pad bits: may be refused
        lenient == mixed /\ shape /\ (flags >= 2 \/ strict) /\ (Len(t) % 4 = 0 \/ ~padded)
    IN IF exact THEN {v} ELSE IF lenient THEN {v, <<>>} ELSE {<<>>}

(* ---- checksums over groups of five bits ---- *)
XorSeq(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
RECURSIVE XorGens(_, _, _, _)
XorGens(c, top, gens, i) == IF i > Len(gens) THEN c
    ELSE XorGens(IF Bit(top, i - 1) = 1 THEN XorSeq(c, gens[i]) ELSE c, top, gens, i + 1)
PolyStep(c, v, gens) == XorGens(Append(Tail(c), v), c[1], gens, 1)
RECURSIVE PolyFrom(_, _, _, _)
PolyFrom(c, vs, i, gens) == IF i > Len(vs) THEN c ELSE PolyFrom(PolyStep(c, vs[i], gens), vs, i + 1, gens)
PolyMod(vs, gens) == PolyFrom(Zeros(Len(gens[1]) - 1) \o <<1>>, vs, 1, gens)

(* ---- Bech32, Bech32m (BIP173, BIP350) ---- *)
BechGens == <<<<29, 22, 20, 21, 29, 18>>, <<19, 5, 1, 3, 19, 13>>, <<15, 10, 2, 6, 15, 26>>,
              <<30, 20, 4, 12, 30, 29>>, <<21, 1, 8, 24, 21, 19>>>>
BechChars == Text("qpzry9x8gf2tvdw0s3jn54khce6mua7l")
BechTab == Table(BechChars)
BechConst(ver) == IF ver = 0 THEN <<0, 0, 0, 0, 0, 1>> ELSE <<21, 28, 16, 12, 5, 3>>
HrpExpand(h) == Map(LAMBDA c : c \div 32, h) \o <<0>> \o Map(LAMBDA c : c % 32, h)
BechEnc(hrp, data, const) ==
    LET chk == XorSeq(PolyMod(HrpExpand(hrp) \o data \o Zeros(6), BechGens), const)
    IN hrp \o <<49>> \o Map(LAMBDA d : BechChars[d + 1], data \o chk)
BitsOf(b, w) == Cat(Map(LAMBDA x : [k \in 1..w |-> Bit(x, w - k)], b))
RECURSIVE BitVal(_)
BitVal(s) == IF s = <<>> THEN 0 ELSE s[Len(s)] + 2 * BitVal(SubSeq(s, 1, Len(s) - 1))
(* regroup bits into w-bit numbers, dropping an incomplete last group *)
Regroup(bits, w) == [i \in 1..(Len(bits) \div w) |-> BitVal(SubSeq(bits, w * (i - 1) + 1, w * i))]
To5(b) == LET bits == BitsOf(b, 8) IN Regroup(bits \o Zeros((5 - (Len(bits) % 5)) % 5), 5)
SegwitAddr(hrp, ver, prog) == BechEnc(hrp, <<ver>> \o To5(prog), BechConst(ver))
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
(* [ok, hrp, ver, prog] *)
NoAddr == [ok |-> FALSE, hrp |-> <<>>, ver |-> 0, prog |-> <<>>]
SegwitAddrDec(t) ==
    LET up == \E i \in 1..Len(t) : t[i] \in 65..90
        low == \E i \in 1..Len(t) : t[i] \in 97..122
        s == Map(Lower, t)
        ones == {i \in 1..Len(s) : s[i] = 49}
        sep == IF ones = {} THEN 0 ELSE CHOOSE i \in ones : \A j \in ones : j <= i
        hrp == SubSeq(s, 1, sep - 1)
        d == IF sep = 0 THEN <<>> ELSE Map(LAMBDA c : BechTab[c], SubSeq(s, sep + 1, Len(s)))
        n == Len(d) - 6
        data == SubSeq(d, 1, n)
        bits == BitsOf(SubSeq(data, 2, n), 5)
        prog == Regroup(bits, 8)
        rest == SubSeq(bits, 8 * Len(prog) + 1, Len(bits))
    IN IF (up /\ low) \/ sep < 2 \/ n < 1 \/ Len(t) > 90 THEN NoAddr
       ELSE IF \E i \in 1..Len(d) : d[i] = 255 THEN NoAddr
       ELSE IF data[1] > 16 \/ PolyMod(HrpExpand(hrp) \o d, BechGens) # BechConst(data[1]) THEN NoAddr
       ELSE IF Len(rest) > 4 \/ ~AllZero(rest) \/ Len(prog) < 2 \/ Len(prog) > 40
               \/ (data[1] = 0 /\ Len(prog) \notin {20, 32}) THEN NoAddr
       ELSE [ok |-> TRUE, hrp |-> hrp, ver |-> data[1], prog |-> prog]

(* ---- descriptor checksum ---- *)
DescGens == <<<<30, 23, 15, 14, 10, 6, 12, 9>>, <<21, 7, 30, 28, 20, 12, 24, 18>>, <<3, 14, 21, 17, 1, 24, 25, 13>>,
              <<6, 28, 3, 11, 2, 25, 27, 26>>, <<12, 17, 6, 22, 4, 27, 31, 29>>>>
DescChars == Text("0123456789()[],'/*abcdefgh@:$") \o <<37>> \o Text("{}IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~ijklmnopqrstuvwxyzABCDEFGH`#") \o <<34, 92, 32>>
DescTab == Table(DescChars)
RECURSIVE DescSyms(_, _, _)      \* symbols; cls, n: pending class digits
DescSyms(t, cls, n) ==
    IF t = <<>> THEN IF n > 0 THEN <<cls>> ELSE <<>>
    ELSE LET p == DescTab[t[1]]
             c2 == 3 * cls + p \div 32
         IN <<p % 32>> \o (IF n = 2 THEN <<c2>> \o DescSyms(Tail(t), 0, 0) ELSE DescSyms(Tail(t), c2, n + 1))
DescOk(t) == \A i \in 1..Len(t) : DescTab[t[i]] # 255
DescSum(t) == Map(LAMBDA d : BechChars[d + 1],
                  XorSeq(PolyMod(DescSyms(t, 0, 0) \o Zeros(8), DescGens), Zeros(7) \o <<1>>))

----------------------------------------------------------------------------
(* networks *)
Net(n) == CASE n = "main" -> [name |-> n, p2pkh |-> 0, p2sh |-> 5, hrp |-> Text("bc"), wif |-> 128]
            [] n = "reg" -> [name |-> n, p2pkh |-> 111, p2sh |-> 196, hrp |-> Text("bcrt"), wif |-> 239]
            [] OTHER -> [name |-> n, p2pkh |-> 111, p2sh |-> 196, hrp |-> Text("tb"), wif |-> 239]   \* test, sig
NetNames == {"main", "test", "reg", "sig"}
LegacyAddr(sec, n) == Base58Check(<<Net(n).p2pkh>> \o Hash160(sec))
ShAddr(script, n) == Base58Check(<<Net(n).p2sh>> \o Hash160(script))
WpkhAddr(sec, n) == SegwitAddr(Net(n).hrp, 0, Hash160(sec))
NestedAddr(sec, n) == ShAddr(<<0, 20>> \o Hash160(sec), n)
(* the address of an output script; <<>> for scripts without one *)
ScriptAddr(s, n) ==
    IF Len(s) = 25 /\ SubSeq(s, 1, 3) = <<118, 169, 20>> /\ SubSeq(s, 24, 25) = <<136, 172>> THEN Base58Check(<<Net(n).p2pkh>> \o Slice(s, 3, 20))
    ELSE IF Len(s) = 23 /\ SubSeq(s, 1, 2) = <<169, 20>> /\ s[23] = 135 THEN Base58Check(<<Net(n).p2sh>> \o Slice(s, 2, 20))
    ELSE IF (Len(s) = 22 /\ SubSeq(s, 1, 2) = <<0, 20>>) \/ (Len(s) = 34 /\ SubSeq(s, 1, 2) = <<0, 32>>) THEN SegwitAddr(Net(n).hrp, 0, From(s, 2))
    ELSE <<>>
(* the output script an address stands for; <<>> if it is no address *)
AddrScript(t) ==
    LET w == SegwitAddrDec(t)
        b == UnBase58Check(t)
    IN IF w.ok /\ w.hrp \in {Net(n).hrp : n \in NetNames}
         THEN <<IF w.ver = 0 THEN 0 ELSE 80 + w.ver, Len(w.prog)>> \o w.prog
       ELSE IF w.ok \/ ~b.ok \/ Len(b.v) # 21 THEN <<>>
       ELSE IF b.v[1] \in {Net(n).p2pkh : n \in NetNames} THEN <<118, 169, 20>> \o Tail(b.v) \o <<136, 172>>
       ELSE IF b.v[1] \in {Net(n).p2sh : n \in NetNames} THEN <<169, 20>> \o Tail(b.v) \o <<135>>
       ELSE <<>>
(* WIF *)
Wif(d, c, n) == Base58Check(<<Net(n).wif>> \o d \o (IF c THEN <<1>> ELSE <<>>))
InRange(d) == d # SZero /\ IsScalar(d)
(* [ok, d, c, net] *)
WifDec(t) == LET b == UnBase58Check(t)
                 d == Slice(b.v, 1, WS)
                 no == [ok |-> FALSE, d |-> SZero, c |-> TRUE, net |-> "main"]
             IN IF ~b.ok \/ Len(b.v) \notin {WS + 1, WS + 2} THEN no
                ELSE IF b.v[1] \notin {128, 239} \/ (Len(b.v) = WS + 2 /\ b.v[WS + 2] # 1) \/ ~InRange(d) THEN no
                ELSE [ok |-> TRUE, d |-> d, c |-> Len(b.v) = WS + 2, net |-> IF b.v[1] = 128 THEN "main" ELSE "test"]
=============================================================================
