------------------------------- MODULE Crypto -------------------------------
(* Hashing, secp256k1 keys and signatures.  Everything here is written over  *)
(* an abstract algebra: the constant operators are bound to real primitives  *)
(* when recorded executions are validated and to a tiny group when the       *)
(* constructions themselves are model checked exhaustively (module Toy).     *)
EXTENDS Bytes
CONSTANTS
    Sha256(_), Sha512(_), Ripemd160(_), HmacSha256(_, _), HmacSha512(_, _),
    Pbkdf2(_, _, _, _),
    (* scalars: big-endian strings of width WS, reduced modulo the order *)
    WS, Order, HalfOrder,
    SAdd(_, _), SMul(_, _), SNeg(_), SInv(_), SRed(_),
    (* points: <<>> for infinity, x || y otherwise *)
    PG, PAdd(_, _), PNeg(_), PMul(_, _), POn(_), PLift(_, _),
    Text(_)          \* a string literal as its character codes

Hash160(b) == Ripemd160(Sha256(b))
DSha(b) == Sha256(Sha256(b))
Tagged(tag, b) == LET t == Sha256(tag) IN Sha256(t \o t \o b)

SZero == Zeros(WS)
IsScalar(s) == LexLess(s, Order)              \* s < n
SSub(a, b) == SAdd(a, SNeg(b))
SDiv(a, b) == SMul(a, SInv(b))
High(s) == LexLess(HalfOrder, s)

PX(P) == SubSeq(P, 1, WS)
PY(P) == SubSeq(P, WS + 1, 2 * WS)
Even(P) == P[2 * WS] % 2 = 0
PSub(P, Q) == PAdd(P, PNeg(Q))
PubPoint(d) == PMul(d, PG)

(* SEC1 *)
SecC(P) == <<IF Even(P) THEN 2 ELSE 3>> \o PX(P)
SecU(P) == <<4>> \o P
Sec(P, compressed) == IF compressed THEN SecC(P) ELSE SecU(P)
(* decoder: value is [pt, c] *)
SecDec(b, off) ==
    IF off >= Len(b) THEN Inc
    ELSE LET c == b[off + 1] IN
      IF c \notin {2, 3, 4} THEN Bad
      ELSE IF c = 4
        THEN IF off + 1 + 2 * WS > Len(b) THEN Inc
             ELSE LET P == Slice(b, off + 1, 2 * WS)
                  IN IF POn(P) THEN Done(off + 1 + 2 * WS, [pt |-> P, c |-> FALSE]) ELSE Bad
        ELSE IF off + 1 + WS > Len(b) THEN Inc
             ELSE LET P == PLift(Slice(b, off + 1, WS), c = 3)
                  IN IF P = <<>> THEN Bad ELSE Done(off + 1 + WS, [pt |-> P, c |-> TRUE])
SecParse(b) == LET r == SecDec(b, 0) IN IF r.st = 0 /\ r.n = Len(b) THEN r.v ELSE [pt |-> <<>>, c |-> TRUE]

----------------------------------------------------------------------------
(* ECDSA.  A signature is r || s. *)
SigR(g) == SubSeq(g, 1, WS)
SigS(g) == SubSeq(g, WS + 1, 2 * WS)
(* one signing attempt with nonce k: <<>> if k must be skipped *)
EcdsaTry(d, z, k) ==
    LET R == PMul(k, PG)
        r == SRed(PX(R))
        s == SMul(SInv(k), SAdd(SRed(z), SMul(r, d)))
    IN IF R = <<>> \/ r = SZero \/ s = SZero THEN <<>>
       ELSE [sig |-> r \o (IF High(s) THEN SNeg(s) ELSE s),
             rec |-> (IF Even(R) = High(s) THEN 1 ELSE 0) + (IF LexLess(PX(R), Order) THEN 0 ELSE 2)]
EcdsaVerify(P, g, z) ==
    LET r == SigR(g)
        s == SigS(g)
        w == SInv(s)
        R == PAdd(PMul(SMul(SRed(z), w), PG), PMul(SMul(r, w), P))
    IN /\ r # SZero /\ s # SZero /\ IsScalar(r) /\ IsScalar(s)
       /\ R # <<>>
       /\ SRed(PX(R)) = r

(* RFC 6979 with SHA-256 (32-byte scalars only) *)
Ones32 == [i \in 1..32 |-> 1]
Rfc6979Init(d, z) ==
    LET k1 == HmacSha256(Zeros(32), Ones32 \o <<0>> \o d \o z)
        v1 == HmacSha256(k1, Ones32)
        k2 == HmacSha256(k1, v1 \o <<1>> \o d \o z)
    IN [K |-> k2, V |-> HmacSha256(k2, v1)]
RECURSIVE EcdsaLoop(_, _, _, _)
EcdsaLoop(d, z, st, fuel) ==
    LET v == HmacSha256(st.K, st.V)
        try == IF v = SZero \/ ~IsScalar(v) THEN <<>> ELSE EcdsaTry(d, z, v)
        nk == HmacSha256(st.K, v \o <<0>>)
    IN IF try # <<>> \/ fuel = 0 THEN try
       ELSE EcdsaLoop(d, z, [K |-> nk, V |-> HmacSha256(nk, v)], fuel - 1)
EcdsaSign(d, z) == EcdsaLoop(d, z, Rfc6979Init(d, z), 100)

----------------------------------------------------------------------------
(* strict DER, with minimal-length positive integers *)
RECURSIVE Strip(_)
Strip(b) == IF b # <<>> /\ b[1] = 0 THEN Strip(Tail(b)) ELSE b
DerInt(x) == LET m == Strip(x) IN IF m = <<>> \/ m[1] >= 128 THEN <<0>> \o m ELSE m
Der(g) == LET r == DerInt(SigR(g))
              s == DerInt(SigS(g))
          IN <<48, Len(r) + Len(s) + 4, 2, Len(r)>> \o r \o <<2, Len(s)>> \o s
PadLeft(b, w) == Zeros(w - Len(b)) \o b
(* one INTEGER at off: value padded to WS bytes *)
DerIntDec(b, off) ==
    IF off >= Len(b) THEN Inc
    ELSE IF b[off + 1] # 2 THEN Bad
    ELSE IF off + 1 >= Len(b) THEN Inc
    ELSE LET n == b[off + 2] IN
      IF n = 0 \/ n > WS + 1 THEN Bad
      ELSE IF n = WS + 1 /\ off + 2 < Len(b) /\ b[off + 3] # 0 THEN Bad
      ELSE IF off + 2 + n > Len(b) THEN Inc
      ELSE LET body == Slice(b, off + 2, n) IN
        IF body # DerInt(body) THEN Bad
        ELSE Done(off + 2 + n, PadLeft(Strip(body), WS))
DerDec(b, off) ==
    IF off >= Len(b) THEN Inc
    ELSE IF b[off + 1] # 48 THEN Bad
    ELSE IF off + 1 >= Len(b) THEN Inc
    ELSE IF b[off + 2] > 2 * WS + 6 THEN Bad
    ELSE LET r == DerIntDec(b, off + 2) IN IF r.st # 0 THEN r ELSE
         LET s == DerIntDec(b, r.n) IN IF s.st # 0 THEN s ELSE
         IF s.n - (off + 2) # b[off + 2] THEN Bad ELSE Done(s.n, r.v \o s.v)

----------------------------------------------------------------------------
(* BIP340.  Public keys are x-only; a signature is R.x || s. *)
TagChallenge == Text("BIP0340/challenge")
Challenge(rx, px, m) == SRed(Tagged(TagChallenge, rx \o px \o m))
SchnorrVerify(px, m, g) ==
    LET P == PLift(px, FALSE)
        rx == SubSeq(g, 1, WS)
        s == SigS(g)
        e == Challenge(rx, px, m)
        R == PSub(PMul(s, PG), PMul(e, P))
    IN /\ P # <<>>
       /\ IsScalar(s)
       /\ R # <<>>
       /\ Even(R)
       /\ PX(R) = rx
(* signing with a given nonce k (any non-zero k): the result always verifies *)
SchnorrWith(d0, m, k0) ==
    LET P == PMul(d0, PG)
        d == IF Even(P) THEN d0 ELSE SNeg(d0)
        R == PMul(k0, PG)
        k == IF Even(R) THEN k0 ELSE SNeg(k0)
        e == Challenge(PX(R), PX(P), m)
    IN PX(R) \o SAdd(k, SMul(e, d))

Ecdh(d, P, hashed) == LET S == PMul(d, P) IN IF hashed THEN Sha256(S) ELSE PX(S)
=============================================================================
