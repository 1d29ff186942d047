------------------------------- MODULE Prims -------------------------------
(* Primitives that the specification leaves abstract.                        *)
(*                                                                           *)
(* The Real* operators and the text/number conversions below are given by    *)
(* java/UbtcOverrides.java when TLC validates recorded executions (the Java  *)
(* class is independent of the code under test: java.security.MessageDigest, *)
(* an own RIPEMD-160 and BigInteger arithmetic).  Exhaustive model-checking  *)
(* configurations never use the Real* operators: they substitute small toy   *)
(* algebras (module Toy) for the constants of module Crypto.                 *)
EXTENDS Naturals, Sequences
LOCAL Overridden == CHOOSE x : FALSE

Hex(s)      == Overridden   \* "0aff" -> <<10, 255>>
ToHexStr(b) == Overridden   \* <<10, 255>> -> "0aff"
Ascii(s)    == Overridden   \* "ab" -> <<97, 98>>
AsciiStr(b) == Overridden

RealSha256(b)        == Overridden
RealSha512(b)        == Overridden
RealRipemd160(b)     == Overridden
RealHmacSha256(k, d) == Overridden
RealHmacSha512(k, d) == Overridden
RealPbkdf2Sha512(pw, salt, iter, dkLen) == Overridden

(* scalars modulo the group order, as 32-byte big-endian strings *)
RealSAdd(a, b) == Overridden
RealSMul(a, b) == Overridden
RealSNeg(a)    == Overridden
RealSInv(a)    == Overridden
RealSRed(a)    == Overridden
(* points: <<>> is the point at infinity, otherwise x || y (64 bytes) *)
RealPG         == Overridden
RealPAdd(p, q) == Overridden
RealPNeg(p)    == Overridden
RealPMul(k, p) == Overridden
RealPOn(p)     == Overridden
RealPLift(x, odd) == Overridden
RealOrder == Hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
RealHalfOrder == Hex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0")
(* big-number radix conversion *)
RealBigDigits(bytes, base)  == Overridden
RealBigBytes(digits, base)  == Overridden
=============================================================================
