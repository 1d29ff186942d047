------------------------------ MODULE MC_Text ------------------------------
(* The text encodings, over every short byte string and every short text     *)
(* from small alphabets: decoding undoes encoding, and what is accepted is   *)
(* what would have been written.  The radix conversions are done twice, by   *)
(* long division here and by big integers in the Java override, and must     *)
(* agree.  Exported strings are replayed into the library (C15).             *)
EXTENDS TextCodec, Toy, Prims
CONSTANTS What, Alphabet, MaxLen0
VARIABLE x
Init == x = <<>>
Next == Len(x) < MaxLen0 /\ \E c \in Alphabet : x' = Append(x, c)
Spec == Init /\ [][Next]_x
Bases == {43, 58}
Cardinality0(S) == IF S = {} THEN 0 ELSE IF \E v \in S : S = {v} THEN 1 ELSE IF \E v, w \in S : S = {v, w} THEN 2 ELSE 3
LowerHex(c) == IF c \in 65..70 THEN c + 32 ELSE c
In(t, tab) == \A i \in 1..Len(t) : tab[t[i]] # 255
Bytes0 == What = "bytes" =>
    /\ UnBase58(Base58(x)) = x /\ UnBase43(Base43(x)) = x
    /\ In(Base58(x), B58Tab) /\ In(Base43(x), B43Tab)
    /\ HexDecode(HexText(x)) = x /\ Len(HexText(x)) = 2 * Len(x) /\ BinDecode(BinText(x)) = x
    /\ \A fl \in 0..3 : UnBase64(Base64(x, fl), fl) = {x}
    /\ Len(Base64(x, 0)) = 4 * ((Len(x) + 2) \div 3) /\ (Len(x) % 3 = 0 => Base64(x, 0) = Base64(x, 1))
    /\ UnBase58Check(Base58Check(x)) = [ok |-> TRUE, v |-> x]
    /\ \A b \in Bases : RealBigDigits(x, b) = PureDigits(x, b)
(* order of length: longer data never has a shorter text *)
Longer == What = "bytes" /\ x # <<>> => LET y == SubSeq(x, 1, Len(x) - 1) IN Len(Base58(x)) > Len(Base58(y)) /\ Len(Base43(x)) > Len(Base43(y))
Chars == What = "chars" =>
    /\ (In(x, B58Tab) => Base58(UnBase58(x)) = x)
    /\ (In(x, B43Tab) => Base43(UnBase43(x)) = x)
    /\ \A fl \in 0..3 : LET u == UnBase64(x, fl) IN
          /\ Cardinality0(u) <= 2
          /\ (x # <<>> /\ u # {<<>>} /\ <<>> \notin u => \A v \in u : Base64(v, fl) = x)
          /\ \A v \in u : Len(v) <= 3 * ((Len(x) + 3) \div 4)
    /\ (Len(x) % 2 = 0 /\ (\A i \in 1..Len(x) : HexVal(x[i]) < 16) => Len(HexDecode(x)) = Len(x) \div 2 /\ HexText(HexDecode(x)) = Map(LowerHex, x))
    /\ (Len(x) % 8 = 0 /\ BinOk(x) => BinText(BinDecode(x)) = x)
    /\ \A b \in Bases : LET d == Map(LAMBDA c : c % b, x) IN PureBytes(d, b) = RealBigBytes(d, b)
Export == PrintT("HIST " \o ToString(<<What, ToHexStr(x)>>))
=============================================================================
