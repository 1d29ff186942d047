---------------------------- MODULE TraceCodec -----------------------------
(* Calls on text encodings, integers, hash functions, descriptor checksums.  *)
EXTENDS TraceBase
Show(b) == ToHexStr(b)
Enc0(f, b, fl) == CASE f = "hex" -> HexText(b) [] f = "bin" -> BinText(b) [] f = "b58" -> Base58(b) [] f = "b58c" -> Base58Check(b)
                    [] f = "b43" -> Base43(b) [] f = "b64" -> Base64(b, fl)
EncOp(e) ==
    LET b == Hex(e.data)
        t == Enc0(e.f, b, Opt(e, "fl", 0))
        full == <<Len(t), Show(t)>>
        none == <<0, "">>
    IN /\ Chk("text", Show(t), e.txt)
       /\ (IF e.f \in {"b58", "b43"} THEN Chk("advertised length suffices", TRUE, e.L >= Len(t))
           ELSE e.f = "b58c" \/ Chk("advertised length", Len(t), e.L))
       /\ ChkIn("text in a buffer",
                IF e.cap < Len(t) THEN {none}
                ELSE IF e.f \in {"b58", "b43"} /\ e.cap < e.L THEN {none, full}
                ELSE IF e.f = "b58c" /\ e.cap < Len(t) + 16 THEN {none, full}
                ELSE {full}, <<e.n, e.out>>)
(* permitted results of decoding *)
Dec0(f, t, fl) == CASE f = "hex" -> {HexDecode(t)} [] f = "bin" -> {BinDecode(t)} [] f = "b58" -> {UnBase58(t)}
                    [] f = "b58c" -> {UnBase58Check(t).v} [] f = "b43" -> {UnBase43(t)} [] f = "b64" -> UnBase64(t, fl)
DecOp(e) ==
    LET t == Hex(e.data)
        vs == Dec0(e.f, t, Opt(e, "fl", 0))
        fit(v) == IF Len(v) <= e.cap THEN {<<Len(v), Show(v)>>}
                  ELSE {<<0, "">>} \cup (IF e.f = "hex" THEN {<<e.cap, Show(Take(v, e.cap))>>} ELSE {})
        ok == UNION {fit(v) : v \in vs}
    IN ChkIn("bytes", ok, <<e.n, e.out>>) /\ ChkIn("bytes of a string", ok, <<e.n2, e.out2>>)
B64Hex(e) == LET t == Hex(e.data)
                 fl == Opt(e, "fl", 0)
             IN IF e.f = "h2b" THEN Chk("hex to Base64", Show(Base64(HexDecode(t), fl)), e.r)
                ELSE ChkIn("Base64 to hex", {Show(HexText(v)) : v \in UnBase64(t, fl)}, e.r)
IntsOp(e) == LET v == Hex(e.v)       \* eight bytes, little-endian
                 le == IF e.w <= 8 THEN Take(v, e.w) ELSE v \o Zeros(e.w - 8)
             IN /\ ChkB("little-endian", le, e.le) /\ ChkB("big-endian", Rev(le), e.be)
                /\ (e.w > 8 \/ ( /\ ChkB("little-endian read back", le \o Zeros(8 - e.w), e.le_back)
                                 /\ ChkB("big-endian read back", le \o Zeros(8 - e.w), e.be_back)))
VarOp(e) == LET c == Var8(Hex(e.v)) IN
    /\ Chk("length", Len(c), e.L)
    /\ (IF e.cap >= Len(c) THEN Chk("varint", <<Len(c), Show(c)>>, <<e.n, e.out>>) ELSE Chk("varint does not fit", 0, e.n))
RVarOp(e) == LET b == Hex(e.data)
                 w == IF b = <<>> THEN 9 ELSE IF b[1] < 253 THEN 0 ELSE IF b[1] = 253 THEN 2 ELSE IF b[1] = 254 THEN 4 ELSE 8
             IN ChkB("number read", IF b = <<>> \/ Len(b) < 1 + w THEN Zeros(8) ELSE IF w = 0 THEN <<b[1]>> \o Zeros(7) ELSE Slice(b, 1, w) \o Zeros(8 - w), e.v)
(* ---- hashes: an object is its algorithm, key and everything written since it was started ---- *)
Digest(f, key, m) == CASE f = "sha256" -> Sha256(m) [] f = "sha512" -> Sha512(m) [] f = "rmd160" -> Ripemd160(m) [] f = "hash160" -> Hash160(m)
                       [] f = "dsha" -> DSha(m) [] f = "hmac256" -> HmacSha256(key, m) [] f = "hmac512" -> HmacSha512(key, m) [] f = "tagged" -> Tagged(key, m)
(* data, times over, and then tail; evaluated without building the message *)
LongDigest(f, key, data, times, tail) == Digest(f, key, Cat([i \in 1..times |-> data]) \o tail)
HRep(e) == ChkB("digest of a long message", LongDigest(e.f, Hex(e.key), Hex(e.data), e.times, Hex(e.tail)), e.h)
HObj(e) == [k |-> "hash", f |-> e.f, key |-> Hex(e.key), m |-> <<>>, live |-> TRUE]
HWrite(e) == LET b == IF e.op = "h_byte" THEN Take(Hex(e.data), 1) ELSE Hex(e.data)
             IN Res(Chk("bytes written", Len(b), e.r), Put(e.o, [objs[e.o] EXCEPT !.m = @ \o b]))
HEnd(e) == LET h == objs[e.o]
               d == Digest(h.f, h.key, h.m)
           IN Res(~h.live \/ (ChkB("digest", d, e.h) /\ Chk("digest length", Len(d), e.r)), Put(e.o, [h EXCEPT !.live = FALSE]))
DescOp(e) == LET t == Hex(e.data)
                 s == DescSum(t)
             IN IF DescOk(t) THEN Chk("checksum", Show(s), e.r)
                                  /\ (IF e.cap < 8 THEN Chk("checksum does not fit", <<0, "">>, <<e.n, e.out>>)
                                      ELSE IF e.cap = 8 THEN ChkIn("checksum in a buffer", {<<0, "">>, <<8, Show(s)>>}, <<e.n, e.out>>)
                                      ELSE Chk("checksum in a buffer", <<8, Show(s)>>, <<e.n, e.out>>))
                ELSE Chk("no checksum", "", e.r) /\ Chk("no checksum in a buffer", 0, e.n)
DoCodec(e) ==
    CASE e.op = "enc" -> Pure(EncOp(e))
      [] e.op = "dec" -> Pure(DecOp(e))
      [] e.op = "b64hex" -> Pure(B64Hex(e))
      [] e.op = "ints" -> Pure(IntsOp(e))
      [] e.op = "varint" -> Pure(VarOp(e))
      [] e.op = "rvarint" -> Pure(RVarOp(e))
      [] e.op = "hash" -> Pure(ChkB("digest", Digest(e.f, Hex(e.key), Hex(e.data)), e.h))
      [] e.op \in {"h_new", "h_begin"} -> Res(TRUE, Put(e.o, HObj(e)))
      [] e.op \in {"h_write", "h_byte"} -> HWrite(e)
      [] e.op = "h_end" -> HEnd(e)
      [] e.op = "hrep" -> Pure(HRep(e))
      [] e.op = "desc" -> Pure(DescOp(e))
CodecOps == {"enc", "dec", "b64hex", "ints", "varint", "rvarint", "hash", "h_new", "h_begin", "h_write", "h_byte", "h_end", "hrep", "desc"}
=============================================================================
