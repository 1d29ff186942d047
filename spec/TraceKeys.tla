----------------------------- MODULE TraceKeys -----------------------------
(* Calls on scalars, points, keys, signatures, HD keys and mnemonics.        *)
EXTENDS TraceBase
T(e, f) == Hex(e[f])                         \* a text, recorded as the hex of its characters
ChkT(what, exp, got) == IF ToHexStr(exp) = got THEN TRUE
    ELSE PrintT(<<"MISMATCH", l, what, "spec", AsciiStr(exp), "impl", AsciiStr(Hex(got))>>) /\ FALSE
(* conjunction that reports, first, the leftmost difference *)
NoPoint == [pt |-> <<>>, c |-> TRUE]
U32BE(le) == Zeros(28) \o Rev(Hex(le))

(* ---- scalars: arguments may be any 32 bytes, results are reduced ---- *)
ScResult(e) ==
    LET a == SRed(Hex(e.a))
        b == SRed(Hex(e.b))
        u == U32BE(e.u)
    IN CASE e.f \in {"add", "addeq"} -> SAdd(a, b)
         [] e.f \in {"sub", "subeq"} -> SSub(a, b)
         [] e.f \in {"mul", "muleq"} -> SMul(a, b)
         [] e.f \in {"div", "diveq"} -> SDiv(a, b)
         [] e.f = "neg" -> SNeg(a)
         [] e.f \in {"addu", "addueq"} -> SAdd(a, u)
         [] e.f \in {"subu", "subueq"} -> SSub(a, u)
         [] e.f = "u" -> u
         [] e.f = "uadd" -> SAdd(u, a)
         [] e.f = "usub" -> SSub(u, a)
         [] e.f \in {"mulu", "umul"} -> SMul(a, u)
         [] e.f = "divu" -> SDiv(a, u)
         [] e.f = "udiv" -> SDiv(u, a)
Cmp(e, x, y) == /\ Chk("<", Flag(LexLess(x, y)), e.lt) /\ Chk(">", Flag(LexLess(y, x)), e.gt)
                /\ Chk("<=", Flag(~LexLess(y, x)), e.le) /\ Chk(">=", Flag(~LexLess(x, y)), e.ge)
ScOp(e) == IF e.f = "cmp" THEN Cmp(e, Hex(e.a), Hex(e.b)) /\ Chk("==", Flag(e.a = e.b), e.eq) /\ Chk("!=", Flag(e.a # e.b), e.ne)
           ELSE IF e.f \in {"div", "diveq"} /\ SRed(Hex(e.b)) = SZero THEN TRUE
           ELSE IF (e.f = "divu" /\ AllZero(Hex(e.u))) \/ (e.f = "udiv" /\ SRed(Hex(e.a)) = SZero) THEN TRUE
           ELSE LET r == ScResult(e) IN ChkB("scalar", r, e.r) /\ Chk("valid", Flag(r # SZero), e.v)
(* ---- points ---- *)
PtResult(e) ==
    LET a == Hex(e.a)
        b == Hex(e.b)
        k == SRed(Hex(e.k))
    IN CASE e.f \in {"add", "addeq"} -> PAdd(a, b)
         [] e.f \in {"sub", "subeq"} -> PSub(a, b)
         [] e.f = "neg" -> PNeg(a)
         [] e.f \in {"mul", "rmul"} -> PMul(k, a)
         [] e.f = "div" -> PMul(SInv(k), a)
         [] e.f = "gmul" -> PMul(k, PG)
PtOp(e) == CASE e.f = "cmp" -> LET a == Hex(e.a)
                                   b == Hex(e.b)
                               IN Chk("==", Flag(a = b), e.eq) /\ (a = <<>> \/ b = <<>> \/ Cmp(e, Sec(a, e.au = 0), Sec(b, e.bu = 0)))   \* points are ordered as they are written
             [] e.f = "valid" -> LET a == Hex(e.a) IN Chk("valid", Flag(a # <<>> /\ POn(a)), e.v)
                                    /\ (a = <<>> \/ Chk("even", Flag(Even(a)), e.even))
             [] e.f = "div" /\ SRed(Hex(e.k)) = SZero -> TRUE
             [] OTHER -> ChkB("point", PtResult(e), e.r)
PubKey(e) == LET P == PubPoint(Hex(e.key)) IN
    /\ ChkB("public key", P, e.pt) /\ ChkB("SEC form", Sec(P, e.unc = 0), e.sec) /\ ChkB("x", PX(P), e.x)
    /\ Chk("even", Flag(Even(P)), e.even) /\ ChkB("public key after setSecret", P, e.pt2) /\ ChkB("public key of a scalar", P, e.pt3)
    /\ ChkB("even lift of x", PLift(PX(P), FALSE), e.lift)
SecOp(e) == LET b == Hex(e.data)
                r == SecDec(b, 0)
            IN IF r.st = 0 THEN Chk("SEC accepted", <<r.n, 0, 1, Flag(r.v.c)>>, <<e.n, e.st, e.v, e.c>>)
                                /\ ChkB("SEC point", r.v.pt, e.pt) /\ ChkB("SEC form kept", Take(b, r.n), e.out)
               ELSE Chk("SEC refused", 0, e.v) /\ (b = <<>> \/ ChkIn("SEC status", IF r.st = 1 THEN {1} ELSE {2}, e.st))

(* ---- signatures ---- *)
SignOp(e) ==
    LET d == Hex(e.key)
        z == Hex(e.h)
        P == PubPoint(d)
        g == EcdsaSign(d, z)
        s == Hex(e.sig)
        exact == IsScalar(z)       \* digests of n or more: RFC6979 reduces them first, implementations differ
    IN /\ (~exact \/ (ChkB("signature", g.sig, e.sig) /\ Chk("recovery index", g.rec, e.rec)))
       /\ Chk("signature is valid", TRUE, EcdsaVerify(P, s, z)) /\ Chk("low s", FALSE, High(SigS(s)))
       /\ ChkB("DER", Der(s), e.der) /\ Chk("DER length", Len(Der(s)), e.len)
       /\ Chk("deterministic", 1, e.same) /\ Chk("verifies", 1, e.ver) /\ Chk("DER round trip", 1, e.rt)
VerifyOp(e) == LET p == SecParse(Hex(e.sec)) IN
    AllZero(SRed(Hex(e.h))) \/   \* a digest that is zero modulo the group order is unspecified
    Chk("verify", Flag(p.pt # <<>> /\ EcdsaVerify(p.pt, Hex(e.sig), Hex(e.h))), e.r)
SigDer(e) == LET d == Der(Val(e.o)) IN ChkB("DER into a buffer", IF e.cap < Len(d) THEN <<>> ELSE d, e.out)
(* BIP340 leaves the nonce to the signer; two signatures may only share one if key (up to sign) and message are the same *)
HistId == 0 - 1
Hist == IF HistId \in DOMAIN objs THEN objs[HistId] ELSE <<>>
SsignOp(e) ==
    LET P == PubPoint(Hex(e.key))
        m == Hex(e.h)
        g == Hex(e.sig)
        rx == Take(g, 32)
        fresh == \A i \in 1..Len(Hist) : Hist[i].rx = rx => (Hist[i].px = PX(P) /\ Hist[i].m = m)
    IN Res(Chk("Schnorr signature is valid", TRUE, SchnorrVerify(PX(P), m, g)) /\ Chk("deterministic", 1, e.same) /\ Chk("verifies", 1, e.ver)
           /\ Chk("nonce not shared with another key or message", TRUE, fresh),
           Put(HistId, Append(Hist, [rx |-> rx, px |-> PX(P), m |-> m])))
SverifyOp(e) == LET px == IF Has(e, "x") THEN Hex(e.x) ELSE LET p == SecParse(Hex(e.sec)) IN IF p.pt = <<>> THEN <<>> ELSE PX(p.pt)
                IN Chk("Schnorr verify", Flag(px # <<>> /\ SchnorrVerify(px, Hex(e.h), Hex(e.sig))), e.r)
EcdhOp(e) == LET s == Ecdh(Hex(e.a), PubPoint(Hex(e.b)), e.hash = 1) IN ChkB("shared secret of a", s, e.z1) /\ ChkB("shared secret of b", s, e.z2)

(* ---- WIF, addresses ---- *)
NetClass(n) == IF n = "main" THEN "main" ELSE "test"
WifOp(e) == LET d == Hex(e.key)
                w == Wif(d, e.unc = 0, e.net)
            IN /\ ChkT("WIF", w, e.wif) /\ ChkT("WIF in a buffer", w, e.wif2) /\ Chk("WIF length", Len(w), e.n)
               /\ ChkB("secret read back", d, e.k) /\ Chk("compression read back", 1 - e.unc, e.c) /\ Chk("network read back", NetClass(e.net), e.qnet)
               /\ ChkB("public key read back", PubPoint(d), e.pt)
               /\ ChkT("key as text", w, e.ts) /\ ChkT("key converted to text", w, e.conv) /\ ChkT("key as text in a buffer", w, e.tbuf)
FromWif(e) == LET w == WifDec(Hex(e.data)) IN
    IF w.ok THEN /\ Chk("WIF accepted", <<1, 1, 1, 1, 1, 1>>, <<e.r, e.v, e.v2, e.r3, e.v3, e.v4>>) /\ ChkB("secret", w.d, e.k) /\ ChkB("secret", w.d, e.k2) /\ ChkB("secret", w.d, e.k3) /\ ChkB("secret", w.d, e.k4)
                 /\ Chk("compressed", Flag(w.c), e.c) /\ Chk("network", w.net, e.qnet) /\ ChkB("public key", PubPoint(w.d), e.pt)
    ELSE /\ Chk("WIF refused", <<0, 0, 0, 0, 0, 0>>, <<e.r, e.v, e.v2, e.r3, e.v3, e.v4>>) /\ ChkB("no secret", SZero, e.k) /\ ChkB("no secret", SZero, e.k2) /\ ChkB("no secret", SZero, e.k3) /\ ChkB("no secret", SZero, e.k4)
Addrs(e) == LET s == Sec(PubPoint(Hex(e.key)), e.unc = 0)
                leg == LegacyAddr(s, e.net)
                seg == WpkhAddr(s, e.net)
                nest == NestedAddr(s, e.net)
            IN /\ ChkT("legacy address", leg, e.leg) /\ ChkT("legacy address of the secret", leg, e.kleg) /\ ChkT("legacy address in a buffer", leg, e.bleg)
               /\ ChkT("address", leg, e.adr) /\ ChkT("address of the secret", leg, e.kadr)
               /\ (e.unc = 1 \/ ( /\ ChkT("segwit address", seg, e.seg) /\ ChkT("segwit address of the secret", seg, e.kseg)
                                  /\ ChkT("segwit address in a buffer", seg, e.bseg) /\ ChkT("nested address", nest, e.nest)
                                  /\ ChkT("nested address of the secret", nest, e.knest) /\ ChkT("nested address in a buffer", nest, e.bnest)))
FromAddr(e) == LET s == AddrScript(Hex(e.data)) IN Res(ChkB("script of the address", s, e.script), Put(e.o, Obj("script", s)))
ToAddr(e) == LET o == objs[e.o]
                 a == ScriptAddr(o.v, e.net)
             IN ~o.ok \/ ( /\ Chk("address length", Len(a), e.n) /\ ChkT("address", a, e.a) /\ ChkT("address text", a, e.as)
                           /\ (~Has(e, "cap") \/ ChkIn("address in a small buffer", IF e.cap < Len(a) THEN {<<0, "">>}
                                                      ELSE IF e.cap > Len(a) + 60 THEN {<<Len(a), ToHexStr(a)>>}
                                                      ELSE {<<0, "">>, <<Len(a), ToHexStr(a)>>}, <<e.m, e.b>>)))

(* ---- HD keys; v.ok tells a usable key ---- *)
HdObj(k, v) == IF v.ok THEN Obj(k, v) ELSE [Wild(k) EXCEPT !.v = v]
HdKnown(i) == objs[i].ok \/ objs[i].v = NoPrv
HdHead(e, v) == /\ ChkB("chain code", v.cc, e.cc) /\ Chk("depth", v.depth, e.depth) /\ ChkB("parent fingerprint", v.fp, e.fp)
                /\ ChkB("child number", v.child, e.child) /\ Chk("script type", v.type, e.type) /\ Chk("network", v.net, e.net)
PrvSame(e, v) == ChkB("secret", v.d, e.key) /\ ChkB("public key", SecC(PubPoint(v.d)), e.pub) /\ HdHead(e, v)
PubSame(e, v) == ChkB("public key", SecC(v.pt), e.pub) /\ HdHead(e, v)
(* the recorded event also carries inputs under some of these names, so results come in a record *)
HdPrvRes(e, k, v) == Res(Chk("usable key", Flag(v.ok), e.v) /\ (~v.ok \/ PrvSame(e.f, v)), Put(e.o, HdObj("hdprv", v)))
HdPubRes(e, v) == Res(Chk("usable key", Flag(v.ok), e.v) /\ (~v.ok \/ PubSame(e.f, v)), Put(e.o, HdObj("hdpub", v)))
OnPrv(e, F(_)) == LET k == Val(e.p) IN
    IF ~HdKnown(e.p) THEN Res(TRUE, Put(e.o, Wild("hdprv"))) ELSE HdPrvRes(e, k, IF k.ok THEN F(k) ELSE NoPrv)
OnPub(e, F(_)) == LET k == Val(e.p) IN
    IF ~HdKnown(e.p) THEN Res(TRUE, Put(e.o, Wild("hdpub"))) ELSE HdPubRes(e, IF k.ok THEN F(k) ELSE NoPrv)
PathOf(t) == PathDec(t)
AlongPrv(k, t) == LET p == PathDec(t) IN IF p.ok THEN DerivePriv(k, p.p) ELSE NoPrv
AlongPub(k, t) == LET p == PathDec(t) IN IF p.ok THEN DerivePub(k, p.p) ELSE NoPrv
HdText(e) ==
    LET o == objs[e.o]
        k == o.v
        P == PubPoint(k.d)
        xprv == Base58Check(XPrv(k))
        xpub == Base58Check(XPub(Neuter(k)))
    IN ~o.ok \/ ( /\ ChkT("xprv", xprv, e.xprv) /\ ChkT("xprv in a buffer", xprv, e.xprv2) /\ Chk("xprv length", Len(xprv), e.n)
                  /\ ChkT("text", xprv, e.ts) /\ ChkT("xpub", xpub, e.xpub) /\ ChkB("bytes", XPrv(k), e.ser)
                  /\ ChkB("fingerprint", Fingerprint(P), e.f) /\ ChkT("fingerprint text", Ascii(ToHexStr(Fingerprint(P))), e.fs)
                  /\ ChkT("address", KeyAddr(k.type, k.net, SecC(P)), e.addr))
HpText(e) ==
    LET o == objs[e.o]
        k == o.v
        xpub == Base58Check(XPub(k))
    IN ~o.ok \/ ( /\ ChkT("xpub", xpub, e.xpub) /\ ChkT("xpub in a buffer", xpub, e.xpub2) /\ Chk("xpub length", Len(xpub), e.n)
                  /\ ChkT("text", xpub, e.ts) /\ ChkB("bytes", XPub(k), e.ser)
                  /\ ChkB("fingerprint", Fingerprint(k.pt), e.f) /\ ChkT("fingerprint text", Ascii(ToHexStr(Fingerprint(k.pt))), e.fs)
                  /\ ChkT("address", KeyAddr(k.type, k.net, SecC(k.pt)), e.addr))
MnSeedKey(e) == Master(SentenceSeed(Hex(e.m), Hex(e.pass)), e.net)

(* ---- mnemonics ---- *)
MnGen(e) ==
    LET d == Hex(e.data)
        gen(n) == Sentence(Take(Sha256(d), (4 * n) \div 3))
        is(t) == Chk("mnemonic given", 0, e.null) /\ ChkT("mnemonic", t, e.m)
        none == Chk("no mnemonic", 1, e.null)
    IN CASE e.f = "entropy" -> IF Len(d) \in EntropySizes THEN is(Sentence(d)) ELSE none
         [] e.f \in {"gen", "genstr"} -> IF e.words \in WordCounts THEN is(gen(e.words)) ELSE none
         [] e.f \in {"gen24", "genstr24"} -> is(gen(24))
         [] e.f = "rand" -> IF e.words \in WordCounts
                THEN Chk("random mnemonic is a valid one of that length", (4 * e.words) \div 3, Len(SentenceEntropy(Hex(e.m))))
                ELSE none
MnCheck(e) == LET ent == SentenceEntropy(Hex(e.m)) IN
    /\ Chk("mnemonic valid", Flag(ent # <<>>), e.r)
    /\ ChkB("entropy", IF ent = <<>> \/ e.cap < Len(ent) THEN <<>> ELSE ent, e.ent) /\ Chk("entropy length", Len(Hex(e.ent)), e.n)

DoKeys(e) ==
    CASE e.op = "pub_new" -> Res(TRUE, Put(e.o, Obj("pub", SecParse(Hex(e.sec)))))
      [] e.op = "prv_new" -> Res(TRUE, Put(e.o, Obj("prv", Hex(e.key))))
      [] e.op = "sig_new" -> Res(TRUE, Put(e.o, Obj("sig", Hex(e.rs))))
      [] e.op = "sig_frombin" -> Res(TRUE, Put(e.o, Obj("sig", Take(Hex(e.data), 64))))
      [] e.op = "sig_bin" -> Pure(~objs[e.o].ok \/ ChkB("r, s", Take(Val(e.o), e.len), ToHexStr(Take(Hex(e.out), 64))))
      [] e.op = "sig_der" -> Pure(~objs[e.o].ok \/ SigDer(e))
      [] e.op = "sc_op" -> Pure(ScOp(e))
      [] e.op = "pt_op" -> Pure(PtOp(e))
      [] e.op = "pubkey" -> Pure(PubKey(e))
      [] e.op = "sec" -> Pure(SecOp(e))
      [] e.op = "sign" -> Pure(SignOp(e))
      [] e.op = "verify" -> Pure(VerifyOp(e))
      [] e.op = "ssign" -> SsignOp(e)
      [] e.op = "sverify" -> Pure(SverifyOp(e))
      [] e.op = "ecdh" -> Pure(EcdhOp(e))
      [] e.op = "wif" -> Pure(WifOp(e))
      [] e.op = "fromwif" -> Pure(FromWif(e))
      [] e.op = "addrs" -> Pure(Addrs(e))
      [] e.op = "s_addr" -> FromAddr(e)
      [] e.op = "s_toaddr" -> Pure(ToAddr(e))
(* reading a text reports whether it was accepted *)
StrRes(e, r, pub) == [r EXCEPT !.ok = @ /\ (~Has(e, "r") \/ Chk("accepted", Flag(XFromText(Hex(e.data), pub).ok), e.r))]
DoHd(e) ==
    CASE e.op = "hd_seed" -> HdPrvRes(e, NoPrv, Master(Hex(e.seed), e.net))
      [] e.op = "hd_mnemonic" -> HdPrvRes(e, NoPrv, MnSeedKey(e))
      [] e.op = "hd_new" -> HdPrvRes(e, NoPrv, [ok |-> TRUE, d |-> Hex(e.key), cc |-> Hex(e.cc), depth |-> e.depth, fp |-> IF e.fp = "" THEN Zeros(4) ELSE Hex(e.fp),
                                                child |-> Hex(e.child), type |-> e.type, net |-> e.net])
      [] e.op = "hd_child" -> OnPrv(e, LAMBDA k : CkdPriv(k, IF e.h > 0 THEN Hard(Hex(e.i)) ELSE Hex(e.i)))
      [] e.op = "hd_path" -> OnPrv(e, LAMBDA k : AlongPrv(k, Hex(e.path)))
      [] e.op = "hd_idx" -> OnPrv(e, LAMBDA k : DerivePriv(k, Indexes(Hex(e.idx))))
      [] e.op = "hd_xpub" -> LET k == Val(e.p) IN
            IF ~objs[e.p].ok THEN Res(TRUE, Put(e.o, Wild("hdpub"))) ELSE HdPubRes(e, Neuter(k))
      [] e.op = "hp_child" -> OnPub(e, LAMBDA k : CkdPub(k, Hex(e.i)))
      [] e.op = "hp_path" -> OnPub(e, LAMBDA k : AlongPub(k, Hex(e.path)))
      [] e.op = "hp_idx" -> OnPub(e, LAMBDA k : DerivePub(k, Indexes(Hex(e.idx))))
      [] e.op = "hd_text" -> Pure(HdText(e))
      [] e.op = "hp_text" -> Pure(HpText(e))
      [] e.op = "hd_str" -> StrRes(e, HdPrvRes(e, NoPrv, XFromText(Hex(e.data), FALSE)), FALSE)
      [] e.op = "hp_str" -> StrRes(e, HdPubRes(e, XFromText(Hex(e.data), TRUE)), TRUE)
      [] e.op = "hp_verify" -> LET o == objs[e.o] IN
            Pure(~o.ok \/ Chk("verify with an HD key", Flag(EcdsaVerify(o.v.pt, Hex(e.sig), Hex(e.h))), e.r))
      [] e.op = "mn_gen" -> Pure(MnGen(e))
      [] e.op = "mn_check" -> Pure(MnCheck(e))
KeyOps == {"pub_new", "prv_new", "sig_new", "sig_frombin", "sig_bin", "sig_der", "sc_op", "pt_op", "pubkey", "sec", "sign", "verify", "ssign", "sverify",
           "ecdh", "wif", "fromwif", "addrs", "s_addr", "s_toaddr"}
HdOps == {"hd_seed", "hd_mnemonic", "hd_new", "hd_child", "hd_path", "hd_idx", "hd_xpub", "hp_child", "hp_path", "hp_idx", "hd_text", "hp_text",
          "hd_str", "hp_str", "hp_verify", "mn_gen", "mn_check"}
=============================================================================
