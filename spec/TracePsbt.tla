----------------------------- MODULE TracePsbt -----------------------------
(* Calls on PSBTs and Electrum transactions.                                 *)
EXTENDS TraceBase, Psbt
DersSame(fs, vs) == /\ Chk("number of derivations", Len(vs), Len(fs))
    /\ \A j \in 1..Len(vs) : /\ ChkB("derivation key", Sec(vs[j].pub.pt, vs[j].pub.c), fs[j].pub) /\ ChkB("fingerprint", vs[j].fp, fs[j].fp)
                             /\ ChkB("derivation path", Cat(vs[j].path), fs[j].path)
SigsSame(fs, vs) == /\ Chk("number of partial signatures", Len(vs), Len(fs))
    /\ \A j \in 1..Len(vs) : /\ ChkB("signature key", Sec(vs[j].pub.pt, vs[j].pub.c), fs[j].pub) /\ ChkB("partial signature", vs[j].rs, fs[j].rs)
PsbtSame(f, v) ==
    /\ ChkB("unsigned transaction", TxEncBase(v.tx), f.tx) /\ Chk("inputs", Len(v.ins), Len(f.ins)) /\ Chk("outputs", Len(v.outs), Len(f.outs))
    /\ \A i \in 1..Len(v.ins) : LET a == v.ins[i]
                                    b == f.ins[i]
         IN /\ ChkB("spent amount", a.utxo.amt, b.amt) /\ ChkB("spent script", a.utxo.script, b.script) /\ ChkB("redeem script", a.redeem, b.redeem)
            /\ ChkB("witness script", a.wscript, b.wscript) /\ DersSame(b.ders, a.ders) /\ SigsSame(b.sigs, a.sigs)
    /\ \A i \in 1..Len(v.outs) : LET a == v.outs[i]
                                     b == f.outs[i]
         IN ChkB("output redeem script", a.redeem, b.redeem) /\ ChkB("output witness script", a.wscript, b.wscript) /\ DersSame(b.ders, a.ders)
    /\ (LET fee == PsbtFee(v) IN ~fee.exact \/ ChkB("fee", fee.v, f.fee))
ElSame(f, v) ==
    /\ ChkB("transaction", TxEnc(v.tx), f.tx) /\ Chk("inputs", Len(v.hd), Len(f.ins))
    /\ \A i \in 1..Len(v.hd) : LET b == f.ins[i]
                               IN ChkB("extended key", XPub(v.hd[i]), b.hd) /\ ChkB("derivation", Cat(v.der[i]), b.der) /\ ChkB("amount", v.amt[i], b.amt)
                                  /\ Chk("key type", v.hd[i].type, b.type)
    /\ (LET fee == ElFee(v) IN ~fee.exact \/ ChkB("fee", fee.v, f.fee))

PsSign(e) == LET o == objs[e.o]
                 k == objs[e.p]
             IN IF ~o.ok \/ ~k.ok \/ ~Signable(o.v, k.v) THEN Res(TRUE, Put(e.o, Wild("psbt")))
                ELSE LET r == PsbtSign(o.v, k.v) IN Res(r.n > 255 \/ Chk("signatures made", r.n, e.r), Put(e.o, [o EXCEPT !.v = r.p]))
PsMine(e) == LET o == objs[e.o]
                 k == objs[e.p]
             IN ~o.ok \/ ~k.ok \/ Chk("output is mine", Flag(IsMine(o.v, e.i, k.v, k.k = "hdpub")), e.r)
PsAdd(e) == LET o == objs[e.o]
                r == Add(o.v, e.i, Hex(e.key), Hex(e.val))
            IN IF ~o.ok THEN Res(TRUE, objs)
               ELSE CASE r.act = "skip" -> Res(Chk("record ignored", 0, e.r), objs)
                      [] r.act = "set" -> Res(Chk("record taken", 1, e.r), Put(e.o, [o EXCEPT !.v = r.v]))
                      [] r.act = "bad" -> Res(Chk("record refused", TRUE, e.r < 0), Put(e.o, Wild("psbt")))
                      [] r.act = "open" -> Res(TRUE, Put(e.o, Wild("psbt")))
PsB64(e) == LET o == objs[e.o] IN ~o.ok \/ Chk("Base64", ToHexStr(Base64(PsbtEnc(o.v), 0)), e.out)
ElSign(e) == LET o == objs[e.o]
                 k == objs[e.p]
             IN IF ~o.ok \/ ~k.ok THEN Res(TRUE, Put(e.o, Wild("etx")))
                ELSE Res(Chk("inputs signed", ElCount(o.v, k.v), e.r),
                         Put(e.o, IF ElSignable(o.v, k.v) THEN [o EXCEPT !.v = ElSignFrom(o.v, 1, k.v)] ELSE Wild("etx")))
PsAgain(e) == LET o == objs[e.p] IN
              IF ~o.ok THEN Res(TRUE, Put(e.o, Wild("psbt")))
              ELSE LET b == PsbtEnc(o.v)
                       r == PsbtDec(b)
                   IN IF r.st # 0 THEN Res(TRUE, Put(e.o, Wild("psbt")))
                      ELSE Res(e.fmt # "raw" \/ Chk("bytes of its own form read", Len(b), e.n), Put(e.o, Obj("psbt", r.v)))
DoPsbt(e) ==
    CASE e.op = "ps_sign" -> PsSign(e)
      [] e.op = "ps_mine" -> Pure(PsMine(e))
      [] e.op = "ps_add" -> PsAdd(e)
      [] e.op = "ps_b64" -> Pure(PsB64(e))
      [] e.op = "ps_again" -> PsAgain(e)
      [] e.op = "el_sign" -> ElSign(e)
PsbtOps == {"ps_again", "ps_sign", "ps_mine", "ps_add", "ps_b64", "el_sign"}
=============================================================================
