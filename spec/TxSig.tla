------------------------------- MODULE TxSig -------------------------------
(* Transaction identifiers, signature hashes (SIGHASH_ALL) and input signing *)
EXTENDS TxCodec, ScriptTpl

TxHash(t)  == DSha(TxEncBase(t))
WTxHash(t) == DSha(TxEnc(t))          \* equals TxHash(t) without witnesses (BIP141)
TxId(t)    == Rev(TxHash(t))
WTxId(t)   == Rev(WTxHash(t))

SigHashAll == 1
Legacy(t, i, code) ==
    DSha(TxEncBase([t EXCEPT !.ins = [k \in 1..Len(t.ins) |->
            [t.ins[k] EXCEPT !.script = IF k = i THEN code ELSE <<>>]]])
         \o LE(SigHashAll, 4))
HashPrevouts(t) == DSha(Cat([k \in 1..Len(t.ins) |-> t.ins[k].hash \o t.ins[k].idx]))
HashSequence(t) == DSha(Cat([k \in 1..Len(t.ins) |-> t.ins[k].seq]))
HashOutputs(t)  == DSha(Cat(Map(TxOutEnc, t.outs)))
Bip143(t, i, code, amt) ==
    DSha(t.ver \o HashPrevouts(t) \o HashSequence(t) \o t.ins[i].hash \o t.ins[i].idx
         \o VarBytes(code) \o amt \o t.ins[i].seq \o HashOutputs(t) \o t.lock \o LE(SigHashAll, 4))

DerAll(g) == Der(g) \o <<SigHashAll>>
(* installing a signature *)
WithScript(t, i, s) == [t EXCEPT !.ins[i].script = s]
WithWit(t, i, w) == [t EXCEPT !.ins[i].wit = w]
=============================================================================
