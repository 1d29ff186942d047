------------------------------- MODULE Trace -------------------------------
(* Validation of recorded executions of the library, one state per recorded  *)
(* API call.  An event carries the call's arguments and what it returned;    *)
(* Do(e) says whether the specification allows exactly that in the current   *)
(* state and what the state is afterwards.  A disallowed event rejects its   *)
(* scenario and validation goes on with the next scenario.                   *)
EXTENDS TraceKeys, TraceCodec, TracePsbt, TraceApi, TraceMem
TxIn0 == [hash |-> Zeros(WHash), idx |-> Zeros(4), script |-> <<>>, seq |-> Zeros(4), wit |-> <<>>]
TxOut0 == [amt |-> Zeros(8), script |-> <<>>]
Tx0 == [ver |-> LE(1, 4), ins |-> <<>>, outs |-> <<>>, lock |-> Zeros(4)]
Fresh(k) ==
    CASE k = "script"  -> Obj(k, <<>>)
      [] k = "witness" -> Obj(k, <<>>)
      [] k = "txin"    -> Obj(k, TxIn0)
      [] k = "txout"   -> Obj(k, TxOut0)
      [] k = "tx"      -> Obj(k, Tx0)
      [] OTHER -> Unknown(k)

(* scalars: zero is refused, other values are reduced *)
ScalarDec(b, off) == LET r == FixDec(b, off, 32) IN
    IF r.st # 0 THEN r ELSE IF AllZero(r.v) THEN Bad ELSE Done(r.n, SRed(r.v))
Dec(k, b) ==
    CASE k = "script"  -> ScriptDec(b, 0)
      [] k = "witness" -> WitDec(b, 0)
      [] k = "txin"    -> TxInDec(b, 0)
      [] k = "txout"   -> TxOutDec(b, 0)
      [] k = "tx"      -> TxDec(b, 0)
      [] k = "sig"     -> DerDec(b, 0)
      [] k = "ssig"    -> FixDec(b, 0, 64)
      [] k \in {"point", "pub"}  -> SecDec(b, 0)
      [] k \in {"scalar", "prv"} -> ScalarDec(b, 0)
      [] k = "hdprv" -> XPrvDec(b)
      [] k = "hdpub" -> XPubDec(b)
      [] k = "psbt" -> PsbtDec(b)
      [] k = "etx" -> ElDec(b)
Enc(k, v) ==
    CASE k = "script"  -> VarBytes(v)
      [] k = "witness" -> WitEnc(v)
      [] k = "txin"    -> TxInEnc(v)
      [] k = "txout"   -> TxOutEnc(v)
      [] k = "tx"      -> TxEnc(v)
      [] k = "sig"     -> Der(v)
      [] k \in {"ssig", "scalar", "prv"} -> v
      [] k = "hdprv" -> XPrv(v)
      [] k = "hdpub" -> XPub(v)
      [] k = "psbt" -> PsbtEnc(v)
      [] k = "etx" -> ElEnc(v)
      [] k \in {"point", "pub"} -> Sec(v.pt, v.c)

(* one call of parse with some bytes; more says that further, undecodable,   *)
(* text follows the bytes (invalid hex digits)                               *)
FeedWith(i, data, n, st, more) ==
    LET o == objs[i]
        base == IF o.st = 1 THEN o.buf ELSE <<>>
        all == base \o data
        r == Dec(o.k, all)
        failed == [o EXCEPT !.st = 2, !.buf = <<>>, !.ok = FALSE]
        waiting == [o EXCEPT !.st = 1, !.buf = all, !.ok = FALSE]
    IN IF o.st = 9 THEN Res(TRUE, objs)
       ELSE IF o.st = 2 THEN Res(Chk("failed object consumes nothing", <<2, 0>>, <<st, n>>), objs)
       ELSE IF data = <<>> /\ o.st = 0 THEN
            (* nothing fed to an idle object: it may stay idle or start waiting *)
            Res(ChkIn("idle, nothing fed", {<<0, 0>>, <<1, 0>>}, <<st, n>>)
                , Put(i, IF st = 1 THEN waiting ELSE o))
       ELSE CASE r.st = 0 ->
                   Res(Chk("parse done: status, consumed", <<0, r.n - Len(base)>>, <<st, n>>),
                       Put(i, [o EXCEPT !.st = 0, !.buf = <<>>, !.ok = TRUE, !.v = r.v]))
              [] r.st = 1 /\ ~more ->
                   Res(Chk("parse incomplete: status, consumed", <<1, Len(data)>>, <<st, n>>), Put(i, waiting))
              [] r.st = 1 /\ more ->
                   Res(ChkIn("undecodable text: status", {1, 2}, st), Put(i, IF st = 1 THEN Wild(o.k) ELSE failed))
              [] r.st = 2 ->
                   Res(Chk("parse failed: status", 2, st) /\ ChkIn("parse failed: consumed", 0..Len(data), n), Put(i, failed))
              [] r.st = 5 -> Res(TRUE, Put(i, Wild(o.k)))
              [] r.st = 3 ->
                   Res(ChkIn("oversized: status", {1, 2}, st), Put(i, IF st = 1 THEN waiting ELSE failed))
(* Base64 text of a PSBT: the whole text in one call, decoded first *)
Feed64(e) == LET t == Hex(e.data)
                 v == IF t = <<>> THEN {<<>>} ELSE UnBase64(t, 0)
                 d == CHOOSE x \in v : TRUE
                 o == objs[e.o]
                 base == IF o.st = 1 THEN o.buf ELSE <<>>
                 r == Dec(o.k, base \o d)
             IN IF o.st = 9 \/ Cardinality(v) > 1 THEN Res(TRUE, Put(e.o, Wild(o.k)))
                ELSE FeedWith(e.o, d, IF o.st = 2 THEN 0 ELSE IF r.st = 0 THEN r.n - Len(base) ELSE Len(d), e.st, FALSE)
Feed(e) == FeedWith(e.o, Hex(e.data), e.n, e.st, FALSE)

(* hex text: pairs up to the first one with a non-hex character; an odd last *)
(* character is left unread                                                  *)
HexDigit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE HexPrefix(_)
HexPrefix(t) == IF Len(t) < 2 THEN <<>>
    ELSE LET a == HexDigit(t[1])
             b == HexDigit(t[2])
         IN IF a > 15 \/ b > 15 THEN <<>> ELSE <<16 * a + b>> \o HexPrefix(SubSeq(t, 3, Len(t)))
FeedText(e) == LET t == Hex(e.data)
                   p == HexPrefix(t)
               IN FeedWith(e.o, p, e.n, e.st, 2 * Len(p) < Len(t) - 1)

(* ---- observations of one object ---- *)
TxInSame(f, v) == ChkB("input hash", v.hash, f.hash) /\ ChkB("input index", v.idx, f.idx)
    /\ ChkB("input script", v.script, f.script) /\ ChkB("input sequence", v.seq, f.seq)
    /\ ChkB("input witness", WitEnc(v.wit), f.wit) /\ Chk("witness count", Len(v.wit), f.nw)
TxOutSame(f, v) == ChkB("output amount", v.amt, f.amt) /\ ChkB("output script", v.script, f.script)
TxSame(f, t) ==
    /\ ChkB("version", t.ver, f.ver) /\ ChkB("lock time", t.lock, f.lock)
    /\ Chk("number of inputs", Len(t.ins), Len(f.ins)) /\ Chk("number of outputs", Len(t.outs), Len(f.outs))
    /\ \A i \in 1..Len(t.ins) : TxInSame(f.ins[i], t.ins[i])
    /\ \A i \in 1..Len(t.outs) : TxOutSame(f.outs[i], t.outs[i])
    /\ Chk("segwit", Flag(IsSegwit(t)), f.segwit)
    /\ Chk("hash", ToHexStr(TxHash(t)), f.hash) /\ Chk("whash", ToHexStr(WTxHash(t)), f.whash)
    /\ Chk("txid", ToHexStr(TxId(t)), f.txid) /\ Chk("wtxid", ToHexStr(WTxId(t)), f.wtxid)
    /\ Chk("txid text", ToHexStr(TxId(t)), f.stxid) /\ Chk("wtxid text", ToHexStr(WTxId(t)), f.swtxid)
Fields(e, k, v) ==
    CASE k = "script" -> ChkB("script", v, e.script)
      [] k = "witness" -> Chk("witness count", Len(v), e.nw)
      [] k = "txin" -> TxInSame(e.f, v)
      [] k = "txout" -> TxOutSame(e.f, v)
      [] k = "tx" -> TxSame(e.f, v)
      [] k = "sig" -> ChkB("r, s", v, e.rs) /\ Chk("valid", Flag(~AllZero(v)), e.v)
      [] k = "ssig" -> TRUE
      [] k \in {"point", "pub"} -> ChkB("point", v.pt, e.pt) /\ Chk("valid", 1, e.v)
      [] k = "scalar" -> Chk("valid", Flag(~AllZero(v)), e.v)
      [] k = "prv" -> LET in == InRange(v) IN Chk("valid", Flag(in), e.v)
            /\ (~in \/ ChkIn("public key", {ToHexStr(Sec(PubPoint(v), TRUE)), ToHexStr(Sec(PubPoint(v), FALSE))}, e.pub))
      [] k = "hdprv" -> Chk("valid", 1, e.v) /\ PrvSame(e.f, v)
      [] k = "hdpub" -> Chk("valid", 1, e.v) /\ PubSame(e.f, v)
      [] k = "psbt" -> Chk("valid", 1, e.v) /\ PsbtSame(e.f, v)
      [] k = "etx" -> Chk("valid", 1, e.v) /\ ElSame(e.f, v)
Get(e) == LET o == objs[e.o] IN
    Pure(o.st = 9 \/ (Chk("status", o.st, e.st)
         /\ (~o.ok \/ (LET b == Enc(o.k, o.v) IN
                         Chk("length", Len(b), e.len) /\ ChkB("encoding", b, e.ser) /\ Fields(e, o.k, o.v)))))
Ser(e) == LET o == objs[e.o]
              cap == IF e.fmt = "hex" THEN e.len \div 2 ELSE e.len
              b == Enc(o.k, o.v)
              w == IF e.fmt = "str" /\ e.len = 0 THEN From(b, Min2(e.off, Len(b))) ELSE Window(b, e.off, cap)
          IN Pure(~o.ok \/ (ChkB("window", w, e.out) /\ Chk("window size", Len(w), e.n)))

----------------------------------------------------------------------------
(* scripts and witnesses; beyond 10000 bytes only safety is specified *)
MaxScript == 10000
Grow(i, b) == LET o == objs[i]
                  nv == o.v \o b
              IN IF ~o.ok \/ Len(nv) > MaxScript THEN Put(i, Unknown(o.k)) ELSE Put(i, [o EXCEPT !.v = nv])
GrowRes(e, b) == LET o == objs[e.o] IN
    Res(~o.ok \/ Len(o.v) + Len(b) > MaxScript \/ Chk("script size returned", Len(o.v) + Len(b), e.r), Grow(e.o, b))
RawWit(w) == Cat(Map(VarBytes, w))
GrowWit(e, item) == LET o == objs[e.o]
                        nv == Append(o.v, item)
                        n == Len(RawWit(nv))
    IN IF ~o.ok \/ n > MaxScript THEN Res(TRUE, Put(e.o, Unknown(o.k)))
       ELSE Res(Chk("witness size returned", n, e.r), Put(e.o, [o EXCEPT !.v = nv]))
KeySec(i) == Sec(objs[i].v.pt, objs[i].v.c)
KindScript(t, sec) ==
    CASE t \in {"pkh", "P2PKH", "scriptP2PKH"} -> Pkh(sec)
      [] t \in {"wpkh", "P2WPKH", "scriptP2WPKH"} -> Wpkh(sec)
      [] t \in {"P2SH_P2WPKH", "scriptP2SH_P2WPKH"} -> Sh(Wpkh(sec))
WrapScript(t, s) == IF t \in {"sh", "P2SH", "spkP2SH"} THEN Sh(s) ELSE Wsh(s)
RECURSIVE SplitKeys(_)   \* comma separated hex, as character codes
SplitKeys(t) == IF t = <<>> THEN <<>>
    ELSE LET c == {i \in 1..Len(t) : t[i] = 44}
             n == IF c = {} THEN Len(t) + 1 ELSE CHOOSE i \in c : \A j \in c : i <= j
         IN <<HexPrefix(SubSeq(t, 1, n - 1))>> \o SplitKeys(SubSeq(t, n + 1, Len(t)))

(* ---- transactions ---- *)
TxEdit(e, t) == Res(TRUE, Put(e.o, [objs[e.o] EXCEPT !.v = t]))
TxIns(e) == LET o == objs[e.o]
                t == [o.v EXCEPT !.ins = Append(@, Val(e.p))]
            IN Res(Chk("number of inputs returned", Len(t.ins), e.r), Put(e.o, [o EXCEPT !.v = t]))
TxOuts(e) == LET o == objs[e.o]
                 t == [o.v EXCEPT !.outs = Append(@, Val(e.p))]
             IN Res(Chk("number of outputs returned", Len(t.outs), e.r), Put(e.o, [o EXCEPT !.v = t]))
TxSighash(e) == LET t == Val(e.o) IN
    Pure(Chk("sighash", ToHexStr(IF e.alg = "legacy" THEN Legacy(t, e.i + 1, Hex(e.script))
                                 ELSE Bip143(t, e.i + 1, Hex(e.script), Hex(e.amt))), e.h))
TxSign(e) ==
    LET t == Val(e.o)
        d == Hex(e.key)
        i == e.i + 1
        sec == Sec(PubPoint(d), Opt(e, "unc", 0) = 0)
        code == Hex(e.script)
        h == CASE e.m = "legacy" -> Legacy(t, i, code)
               [] e.m = "legacy_pkh" -> Legacy(t, i, Pkh(sec))
               [] e.m \in {"segwit_wpkh", "segwit_nested_wpkh"} -> Bip143(t, i, Pkh(sec), Hex(e.amt))
               [] OTHER -> Bip143(t, i, code, Hex(e.amt))
        g == EcdsaSign(d, h)
        pushes == PushData(DerAll(g.sig)) \o PushData(sec)
        t1 == CASE e.m = "legacy_pkh" -> WithScript(t, i, pushes)
                [] e.m = "legacy" -> WithScript(t, i, IF TypeOf(code) = "P2PKH" THEN pushes ELSE pushes \o PushData(code))
                [] e.m = "segwit_wpkh" -> WithScript(WithWit(t, i, <<DerAll(g.sig), sec>>), i, <<>>)
                [] e.m = "segwit_nested_wpkh" ->
                     WithScript(WithWit(t, i, <<DerAll(g.sig), sec>>), i, PushData(Wpkh(sec)))
                [] e.m = "segwit_wsh" -> WithScript(WithWit(t, i, <<DerAll(g.sig), sec, code>>), i, <<>>)
                [] e.m = "segwit_nested_wsh" ->
                     WithScript(WithWit(t, i, <<DerAll(g.sig), sec, code>>), i, PushData(Wsh(code)))
    IN Res(Chk("input signature", ToHexStr(g.sig), e.sig), Put(e.o, [objs[e.o] EXCEPT !.v = t1]))

----------------------------------------------------------------------------
CopyOf(o) == IF o.st = 0 THEN o ELSE Wild(o.k)
DoCore(e) ==
    CASE e.op = "new" -> Res(TRUE, Put(e.o, Fresh(e.k)))
      [] e.op = "feed" -> Feed(e)
      [] e.op = "feedtext" -> FeedText(e)
      [] e.op = "reset" -> Res(Chk("status after reset", 0, e.st), Put(e.o, Unknown(objs[e.o].k)))
      [] e.op = "get" -> Get(e)
      [] e.op = "ser" -> Ser(e)
      [] e.op = "txt" -> LET o == objs[e.o] IN Pure(~o.ok \/ LET t == Ascii(ToHexStr(Enc(o.k, o.v))) IN Chk("text length", Len(t), e.sl)
            /\ ChkB("text in a buffer", t, e.out) /\ ChkB("converted to text", t, e.conv) /\ ChkB("text", t, e.ts) /\ ChkB("serialized text", t, e.ser))
      [] e.op = "str" -> LET o == objs[e.o] IN Pure(~o.ok \/ Chk("text", Ascii(ToHexStr(Enc(o.k, o.v))), Hex(e.out)))
      [] e.op = "fromstr" -> FeedText(e)
      [] e.op \in {"copy", "assign"} -> Res(TRUE, Put(e.o, IF e.op = "assign" /\ e.o = e.p THEN objs[e.o] ELSE CopyOf(objs[e.p])))
      [] e.op = "use" -> Pure(TRUE)
      [] e.op = "end" -> Res(Chk("bytes still allocated after destroying every object", 0, e.held), objs)
      [] e.op = "del" -> Res(TRUE, [i \in DOMAIN objs \ {e.o} |-> objs[i]])
      [] e.op = "eq" -> LET a == objs[e.o]
                            b == objs[e.p]
                        same == IF a.k \in {"point", "pub"} THEN a.v.pt = b.v.pt ELSE a.v = b.v
                        IN Pure(~a.ok \/ ~b.ok \/ (Chk("==", Flag(same), e.r) /\ Chk("!=", Flag(~same), e.nr)))
DoScript(e) ==
    CASE e.op = "s_code" -> GrowRes(e, <<e.code>>)
      [] e.op = "s_data" -> GrowRes(e, Hex(e.data))
      [] e.op = "s_pub" -> GrowRes(e, PushData(KeySec(e.p)))
      [] e.op = "s_sig" -> GrowRes(e, PushData(Der(Val(e.p)) \o <<e.t>>))
      [] e.op = "s_script" -> GrowRes(e, PushData(Val(e.p)))
      [] e.op = "s_type" -> Pure(~objs[e.o].ok \/ (Chk("script type", TypeOf(Val(e.o)), e.type) /\ Chk("non-empty", Flag(Val(e.o) # <<>>), e.b)))
      [] e.op = "s_clear" -> Res(TRUE, Put(e.o, [objs[e.o] EXCEPT !.v = <<>>]))
      [] e.op = "s_from" -> Res(TRUE, Put(e.o, Obj("script", Hex(e.data))))
      [] e.op = "s_kind" -> LET s == KindScript(e.t, KeySec(e.p)) IN Res(Chk("script", ToHexStr(s), e.script), Put(e.o, Obj("script", s)))
      [] e.op = "s_wrap" -> LET s == WrapScript(e.t, Val(e.p)) IN Res(Chk("script", ToHexStr(s), e.script), Put(e.o, Obj("script", s)))
      [] e.op = "s_multi" ->
            LET ks == SplitKeys(Ascii(e.keys))
                s == IF e.sorted = 1 THEN SortedMulti(e.m, ks) ELSE Multi(e.m, ks)
            IN Res(Chk("multisig script", ToHexStr(s), e.script) /\ Chk("keys given are left alone", 1, e.kept), Put(e.o, Obj("script", s)))
      [] e.op = "w_data" -> GrowWit(e, Hex(e.data))
      [] e.op = "w_pub" -> GrowWit(e, KeySec(e.p))
      [] e.op = "w_sig" -> GrowWit(e, Der(Val(e.p)) \o <<e.t>>)
      [] e.op = "w_script" -> GrowWit(e, Val(e.p))
      [] e.op = "w_sigpub" -> Res(TRUE, Put(e.o, Obj("witness", <<DerAll(Val(e.p)), KeySec(e.q)>>)))
      [] e.op = "w_clear" -> Res(TRUE, Put(e.o, [objs[e.o] EXCEPT !.v = <<>>]))
      [] e.op = "w_from" -> LET r == WitDec(Hex(e.data), 0) IN Res(TRUE, Put(e.o, IF r.st = 0 THEN Obj("witness", r.v) ELSE Wild("witness")))
DoTx(e) ==
    CASE e.op = "ti_new" -> Res(TRUE, Put(e.o, Obj("txin", [hash |-> Rev(Hex(e.id)), idx |-> Hex(e.idx), seq |-> Hex(e.seq), wit |-> <<>>,
                                     script |-> IF e.ctor \in {"bytes_script", "hex_script"} THEN Hex(e.script) ELSE <<>>])))
      [] e.op = "ti_wit" -> Res(TRUE, Put(e.o, [objs[e.o] EXCEPT !.v.wit = Val(e.p)]))
      [] e.op = "to_new" -> Res(TRUE, Put(e.o, Obj("txout", [amt |-> Hex(e.amt), script |-> Hex(e.script)])))
      [] e.op = "tx_in" -> TxIns(e)
      [] e.op = "tx_out" -> TxOuts(e)
      [] e.op = "tx_set" -> TxEdit(e, [Val(e.o) EXCEPT !.ver = Hex(e.ver), !.lock = Hex(e.lock)])
      [] e.op = "tx_wit" -> TxEdit(e, WithWit(Val(e.o), e.i + 1, Val(e.p)))
      [] e.op = "tx_ssig" -> TxEdit(e, WithScript(Val(e.o), e.i + 1, Val(e.p)))
      [] e.op = "tx_iset" -> TxEdit(e, LET v == Hex(e.v) IN CASE e.f = "hash" -> [Val(e.o) EXCEPT !.ins[e.i + 1].hash = v]
                                           [] e.f = "idx" -> [Val(e.o) EXCEPT !.ins[e.i + 1].idx = v] [] e.f = "seq" -> [Val(e.o) EXCEPT !.ins[e.i + 1].seq = v])
      [] e.op = "tx_oset" -> TxEdit(e, IF e.f = "amt" THEN [Val(e.o) EXCEPT !.outs[e.i + 1].amt = Hex(e.v)] ELSE [Val(e.o) EXCEPT !.outs[e.i + 1].script = Hex(e.v)])
      [] e.op = "tx_swap" -> TxEdit(e, LET u == Val(e.o) IN IF e.f = "in" THEN [u EXCEPT !.ins = [@ EXCEPT ![e.i + 1] = u.ins[e.j + 1], ![e.j + 1] = u.ins[e.i + 1]]]
                                                              ELSE [u EXCEPT !.outs = [@ EXCEPT ![e.i + 1] = u.outs[e.j + 1], ![e.j + 1] = u.outs[e.i + 1]]])
      [] e.op = "tx_hashes" -> LET t == Val(e.o) IN
            Pure(Chk("hashPrevouts", ToHexStr(HashPrevouts(t)), e.hp) /\ Chk("hashSequence", ToHexStr(HashSequence(t)), e.hs)
                 /\ Chk("hashOutputs", ToHexStr(HashOutputs(t)), e.ho))
      [] e.op = "tx_sighash" -> TxSighash(e)
      [] e.op = "tx_sign" -> TxSign(e)
CoreOps == {"new", "feed", "feedtext", "reset", "get", "ser", "str", "fromstr", "copy", "assign", "del", "eq", "use", "end", "txt"}
ScriptOps == {"s_code", "s_data", "s_pub", "s_sig", "s_script", "s_clear", "s_type", "s_from", "s_kind", "s_wrap", "s_multi",
              "w_data", "w_pub", "w_sig", "w_script", "w_sigpub", "w_clear", "w_from"}
TxOps == {"ti_new", "ti_wit", "to_new", "tx_in", "tx_out", "tx_set", "tx_wit", "tx_ssig", "tx_iset", "tx_oset", "tx_swap", "tx_hashes", "tx_sighash", "tx_sign"}
(* what building on, or asking, an object that has no complete value does is not specified *)
Makes == {"s_from", "s_kind", "s_wrap", "s_multi", "w_sigpub", "w_from", "ti_new", "to_new"}
Asks == {"s_type", "tx_hashes", "tx_sighash"}
Vague(i) == i \in DOMAIN objs /\ (objs[i].st # 0 \/ ~objs[i].ok)
VagueUse(e) == \/ e.op \notin Makes /\ Vague(e.o)
               \/ "p" \in DOMAIN e /\ Vague(e.p)
               \/ "q" \in DOMAIN e /\ Vague(e.q)
Do(e) == IF e.op \in CoreOps THEN DoCore(e)
         ELSE IF e.op \in ScriptOps \cup TxOps /\ VagueUse(e) THEN
              Res(TRUE, IF e.op \in Asks THEN objs ELSE Put(e.o, Wild(IF e.o \in DOMAIN objs THEN objs[e.o].k ELSE "any")))
         ELSE IF e.op \in ScriptOps THEN DoScript(e)
         ELSE IF e.op \in TxOps THEN DoTx(e)
         ELSE IF e.op \in KeyOps THEN DoKeys(e)
         ELSE IF e.op \in HdOps THEN DoHd(e)
         ELSE IF e.op \in PsbtOps THEN DoPsbt(e)
         ELSE IF e.op \in ApiOps THEN DoApi(e)
         ELSE IF e.op \in MemOps THEN DoMem(e)
         ELSE IF e.op = "ps_feed64" THEN Feed64(e)
         ELSE IF e.op \in CodecOps THEN DoCodec(e)
         ELSE Res(PrintT(<<"MISMATCH", l, "no action of the specification explains", e>>) /\ FALSE, objs)

Empty == [i \in {} |-> 0]
RECURSIVE NextBegin(_)
NextBegin(n) == IF n > Len(TraceLog) \/ TraceLog[n].op = "begin" THEN n ELSE NextBegin(n + 1)
Init == l = 1 /\ objs = Empty /\ rej = 0
Step == LET e == TraceLog[l]
        IN IF e.op = "begin" THEN l' = l + 1 /\ objs' = Empty /\ UNCHANGED rej
           ELSE \E r \in {Do(e)} :
                IF r.ok THEN l' = l + 1 /\ objs' = r.objs /\ UNCHANGED rej
                ELSE /\ PrintT(<<"REJECT", e.s, l, e.op>>)
                     /\ l' = NextBegin(l + 1) /\ objs' = Empty /\ rej' = rej + 1
Next == \/ l <= Len(TraceLog) /\ Step
        \/ l = Len(TraceLog) + 1 /\ PrintT(<<"TRACE-END", l - 1, rej>>) /\ l' = l + 1 /\ UNCHANGED <<objs, rej>>
Spec == Init /\ [][Next]_vars
=============================================================================
