------------------------------- MODULE Bytes -------------------------------
(* Byte strings, fixed-width integers and CompactSize ("varint") numbers.    *)
(* Wide integers stay byte strings throughout: TLC's integers are 32 bits.   *)
EXTENDS Naturals, Sequences, SequencesExt, TLC

Byte == 0..255
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Cat(ss) == FlattenSeq(ss)
Zeros(n) == [i \in 1..n |-> 0]
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
(* n bytes from zero-based offset off (must be in range) *)
Slice(b, off, n) == SubSeq(b, off + 1, off + n)
From(b, off) == SubSeq(b, off + 1, Len(b))
Take(b, n) == SubSeq(b, 1, Min2(n, Len(b)))
(* what a reader sees in a window [off, off+n) of b *)
Window(b, off, n) == IF off >= Len(b) THEN <<>> ELSE SubSeq(b, off + 1, Min2(off + n, Len(b)))

Pow2(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912, 1073741824>>[k + 1]
Pow256(k) == <<1, 256, 65536, 16777216>>[k + 1]

(* little-endian bytes of a small natural, width w *)
RECURSIVE LE(_, _)
LE(n, w) == IF w = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, w - 1)
BE(n, w) == Rev(LE(n, w))
RECURSIVE UnLE(_)
UnLE(b) == IF b = <<>> THEN 0 ELSE b[1] + 256 * UnLE(Tail(b))

(* unsigned comparison of equal-width big-endian strings *)
RECURSIVE LexLess(_, _)
LexLess(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF a[1] # b[1] THEN a[1] < b[1]
    ELSE LexLess(Tail(a), Tail(b))

(* unsigned little-endian addition / subtraction modulo 256^width *)
RECURSIVE AddLEc(_, _, _)
AddLEc(a, b, c) == IF a = <<>> THEN <<>>
                   ELSE LET s == a[1] + b[1] + c IN <<s % 256>> \o AddLEc(Tail(a), Tail(b), s \div 256)
AddLE(a, b) == AddLEc(a, b, 0)
NotB(a) == [i \in 1..Len(a) |-> 255 - a[i]]
SubLE(a, b) == AddLEc(a, NotB(b), 1)
RECURSIVE SumLE(_, _)
SumLE(ss, w) == IF ss = <<>> THEN Zeros(w) ELSE AddLE(Head(ss), SumLE(Tail(ss), w))

AllZero(b) == \A i \in 1..Len(b) : b[i] = 0

----------------------------------------------------------------------------
(* CompactSize.  n is a natural below 2^31. *)
VarLen(n) == IF n < 253 THEN 1 ELSE IF n <= 65535 THEN 3 ELSE 5
Var(n) == IF n < 253 THEN <<n>>
          ELSE IF n <= 65535 THEN <<253>> \o LE(n, 2)
          ELSE <<254>> \o LE(n, 4)
(* <length> <bytes> *)
(* CompactSize of an eight-byte number *)
Var8(v) == IF AllZero(SubSeq(v, 2, 8)) /\ v[1] < 253 THEN <<v[1]>>
           ELSE IF AllZero(SubSeq(v, 3, 8)) THEN <<253>> \o Take(v, 2)
           ELSE IF AllZero(SubSeq(v, 5, 8)) THEN <<254>> \o Take(v, 4) ELSE <<255>> \o v
VarBytes(b) == Var(Len(b)) \o b

(* Decoding results.  st: 0 done, 1 incomplete, 2 malformed, 3 refusable     *)
(* (complete but beyond every supported size: the reader may reject it or    *)
(* keep waiting for the data); n: offset after what was decoded; v: value.   *)
Done(n, v) == [st |-> 0, n |-> n, v |-> v]
Inc        == [st |-> 1, n |-> 0, v |-> <<>>]
Bad        == [st |-> 2, n |-> 0, v |-> <<>>]
Big        == [st |-> 3, n |-> 0, v |-> <<>>]

MaxLen == 16777215   \* 2^24 - 1

VarDec(b, off) ==
    IF off >= Len(b) THEN Inc
    ELSE LET c == b[off + 1]
             w == IF c < 253 THEN 0 ELSE IF c = 253 THEN 2 ELSE IF c = 254 THEN 4 ELSE 8
         IN IF w = 0 THEN Done(off + 1, c)
            ELSE IF off + 1 + w > Len(b) THEN IF w = 8 THEN Big ELSE Inc   \* no 8-byte length is both minimal and supported
            ELSE LET body == Slice(b, off + 1, w)
                     hi == IF w = 2 THEN <<>> ELSE SubSeq(body, 4, w)
                 IN IF ~AllZero(hi) THEN Big
                    ELSE LET n == UnLE(SubSeq(body, 1, Min2(w, 3)))
                         IN IF VarLen(n) # w + 1 THEN Bad ELSE Done(off + 1 + w, n)

(* <len> <bytes> : value is the bytes *)
VarBytesDec(b, off) ==
    LET r == VarDec(b, off)
    IN IF r.st # 0 THEN r
       ELSE IF r.n + r.v > Len(b) THEN Inc
       ELSE Done(r.n + r.v, Slice(b, r.n, r.v))

(* fixed width *)
FixDec(b, off, w) == IF off + w > Len(b) THEN Inc ELSE Done(off + w, Slice(b, off, w))
=============================================================================
