------------------------------ MODULE TraceApi ------------------------------
(* Further forms of the public API: constructors, texts written into buffers *)
(* of a given capacity, and the plain byte streams.                          *)
EXTENDS TraceKeys
(* text a written into a buffer of cap bytes by a call returning [n, t]: not *)
(* fitting gives 0; with little room to spare the call may also decline      *)
Fits(what, a, cap, g) ==
    IF cap < Len(a) THEN Chk(what, 0, g.n)
    ELSE IF cap < Len(a) + 8 /\ g.n = 0 THEN TRUE
    ELSE Chk(what, Len(a), g.n) /\ ChkT(what, a, g.t)
FitsHd(what, a, cap, g) ==        \* the documented buffer of an extended key is 112 bytes
    IF cap < Len(a) THEN Chk(what, 0, g.n)
    ELSE IF cap < 112 /\ g.n = 0 THEN TRUE
    ELSE Chk(what, Len(a), g.n) /\ ChkT(what, a, g.t)
PtCtor(e) ==
    LET b == Hex(e.data)
        raw == e.via \in {"xy", "kxy", "kpt"}
        r == SecDec(b, 0)
        ok == IF raw THEN POn(b) ELSE r.st = 0
        v == IF raw THEN [pt |-> b, c |-> e.c = 1] ELSE r.v
        s == Sec(v.pt, v.c)
        k == IF e.via \in {"xy", "sec", "hex"} THEN "point" ELSE "pub"
    IN Res(Chk("valid", <<Flag(ok), Flag(ok)>>, <<e.v, e.b>>)
           /\ (~ok \/ ( /\ ChkB("point", v.pt, e.pt) /\ Chk("compressed", Flag(v.c), e.cc) /\ ChkB("SEC in a buffer", Take(s, e.cap), e.sec)
                        /\ Chk("x size", IF e.cap < 32 THEN 0 ELSE 32, e.xn) /\ ChkB("x", IF e.cap < 32 THEN <<>> ELSE PX(v.pt), e.x)
                        /\ ChkB("x text", PX(v.pt), e.xs) /\ ChkB("SEC text", s, e.ss) /\ Chk("text length", 2 * Len(s), e.sl))),
           Put(e.o, IF ok THEN Obj(k, v) ELSE Wild(k)))
Made(e, k, r) == Res(Chk("status", r.st, e.st), Put(e.o, IF r.st = 0 THEN Obj(k, r.v) ELSE Wild(k)))
ScCtor(e) == LET r == FixDec(Hex(e.data), 0, 32) IN Made(e, "scalar", IF r.st # 0 THEN r ELSE IF AllZero(r.v) THEN Bad ELSE Done(32, SRed(r.v)))
SigCtor(e) == LET b == Hex(e.data) IN Made(e, "sig", DerDec(IF e.via = "der" THEN Take(b, b[2] + 2) ELSE b, 0))
SsigCtor(e) == LET r == FixDec(Hex(e.data), 0, 64) IN
    [Made(e, "ssig", r) EXCEPT !.ok = @ /\ (r.st # 0 \/ Chk("valid", Flag(~AllZero(r.v)), e.v))]
SigIndex(e) == LET b == Hex(e.data)
                   i == IF Len(b) > 64 THEN b[65] ELSE 0
               IN /\ ChkB("binary form", Take(b, 64) \o <<i>>, e.out) /\ Chk("index", <<i, i, i>>, <<e.idx, e.ci, e.di>>)
                  /\ Chk("valid", Flag(~AllZero(Take(b, 64))), e.v)
PrvAddr(e) == LET d == Hex(e.key)
                  s == Sec(PubPoint(d), e.unc = 0)
                  leg == LegacyAddr(s, e.net)
                  seg == WpkhAddr(s, e.net)
                  nest == NestedAddr(s, e.net)
              IN /\ Fits("legacy address", leg, e.cap, e.leg) /\ Fits("address", leg, e.cap, e.adr) /\ Fits("legacy address of the key", leg, e.cap, e.qleg)
                 /\ Fits("address of the key", leg, e.cap, e.qadr) /\ Fits("WIF", Wif(d, e.unc = 0, e.net), e.cap, e.wif)
                 /\ (e.unc = 1 \/ ( /\ Fits("nested address", nest, e.cap, e.nest) /\ Fits("nested address of the key", nest, e.cap, e.qnest)
                                    /\ (e.cap < 76 \/ (ChkT("segwit address", seg, e.seg) /\ ChkT("segwit address of the key", seg, e.qseg)))))
HdBuf(e) ==
    LET o == objs[e.o]
        k == o.v
        prv == o.k = "hdprv"
        P == IF prv THEN PubPoint(k.d) ELSE k.pt
        x == Base58Check(IF prv THEN XPrv(k) ELSE XPub(k))
    IN ~o.ok \/ ( /\ FitsHd("extended key", x, e.cap, e.x) /\ FitsHd("text", x, e.cap, e.ts)
                  /\ (~prv \/ FitsHd("extended public key", Base58Check(XPub(Neuter(k))), e.cap, e.xp))
                  /\ (e.cap < 76 \/ ChkT("address", KeyAddr(k.type, k.net, SecC(P)), e.adr)))
ToAddrOut(e) == LET s == AddrScript(Hex(e.data))
                    a == ScriptAddr(s, e.net)
                IN Res((Len(s) # 0 /\ s[1] > 80 /\ s[1] < 97) \/ (ChkT("address of the output", a, e.a) /\ ChkT("address of the output", a, e.buf.t)),
                       Put(e.o, Obj("txout", [amt |-> Hex(e.amt), script |-> s])))
(* ---- byte streams ---- *)
Nibble(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Unhex(_)
Unhex(t) == IF Len(t) < 2 THEN <<>>
    ELSE IF Nibble(t[1]) > 15 \/ Nibble(t[2]) > 15 THEN <<>> ELSE <<16 * Nibble(t[1]) + Nibble(t[2])>> \o Unhex(SubSeq(t, 3, Len(t)))
RECURSIVE ReadOk(_, _, _, _, _)
ReadOk(rs, b, at, last, exact) ==
    IF rs = <<>> THEN TRUE
    ELSE LET r == Head(rs)
             n == Min2(IF r.k = 0 THEN 1 ELSE r.k, Len(b) - at)
             nl == IF n = 0 THEN last ELSE b[at + n]
         IN /\ (IF exact THEN Chk("bytes to read", Len(b) - at, r.av) ELSE Chk("something to read", at < Len(b), r.av > 0)) /\ Chk("bytes read", n, r.n) /\ ChkB("bytes", Slice(b, at, n), r.d)
            /\ Chk("last byte", nl, r.last) /\ ReadOk(Tail(rs), b, at + n, nl, exact)
BsRead(e) == LET b == IF e.via = "null" THEN <<>> ELSE Hex(e.data)
                 t == e.via \in {"hex", "cstr"}
                 u == IF t THEN Unhex(b) ELSE b
             IN ReadOk(e.res, u, 0, 0 - 1, ~t \/ Len(u) = Len(b) \div 2)
RECURSIVE WriteOk(_, _)
WriteOk(rs, left) ==
    IF rs = <<>> THEN TRUE
    ELSE LET r == Head(rs)
             n == Min2(Len(Hex(r.p)), left)
         IN Chk("room", left, r.av) /\ Chk("bytes written", n, r.n) /\ WriteOk(Tail(rs), left - n)
BsWrite(e) == LET all == Cat([i \in 1..Len(e.res) |-> Hex(e.res[i].p)])
                  cap == IF e.via = "raw" THEN e.cap ELSE e.cap \div 2
                  got == Take(all, cap)
                  out == IF e.via = "raw" THEN got ELSE Ascii(ToHexStr(got))
              IN WriteOk(e.res, cap) /\ ChkB("bytes in the buffer", out, ToHexStr(Take(Hex(e.out), Len(out)))) /\ Chk("room left", cap - Len(got), e.left)
DoApi(e) ==
    CASE e.op = "pt_ctor" -> PtCtor(e)
      [] e.op = "sc_ctor" -> ScCtor(e)
      [] e.op = "sig_ctor" -> SigCtor(e)
      [] e.op = "ssig_ctor" -> SsigCtor(e)
      [] e.op = "sig_index" -> Pure(SigIndex(e))
      [] e.op = "prv_addr" -> Pure(PrvAddr(e))
      [] e.op = "hd_buf" -> Pure(HdBuf(e))
      [] e.op = "hp_new" -> HdPubRes(e, [ok |-> TRUE, pt |-> Hex(e.pt), cc |-> Hex(e.cc), depth |-> e.depth, fp |-> IF e.fp = "" THEN Zeros(4) ELSE Hex(e.fp),
                                         child |-> Hex(e.child), type |-> e.type, net |-> e.net])
      [] e.op = "hd_same" -> LET a == objs[e.o]
                                 b == objs[e.p]
                             IN Pure(~a.ok \/ ~b.ok \/ Chk("==, !=", <<Flag(a.v.d = b.v.d), Flag(a.v.d # b.v.d)>>, <<e.r, e.nr>>))
      [] e.op = "to_addr" -> ToAddrOut(e)
      [] e.op = "s_addrs" -> FromAddr(e)
      [] e.op = "bs_read" -> Pure(BsRead(e))
      [] e.op = "bs_write" -> Pure(BsWrite(e))
ApiOps == {"pt_ctor", "sc_ctor", "sig_ctor", "ssig_ctor", "sig_index", "prv_addr", "hd_buf", "hp_new", "hd_same", "to_addr", "s_addrs", "bs_read", "bs_write"}
=============================================================================
