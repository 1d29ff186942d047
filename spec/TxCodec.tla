------------------------------ MODULE TxCodec ------------------------------
(* The Bitcoin transaction format: scripts, witnesses, inputs, outputs and   *)
(* transactions (BIP141/BIP144), as total functions between byte strings and *)
(* abstract values.                                                          *)
(*   input  [hash, idx, script, seq, wit]    wit is a sequence of strings    *)
(*   output [amt, script]                                                    *)
(*   tx     [ver, ins, outs, lock]                                           *)
(* Field widths are constants so that an exhaustive configuration can shrink *)
(* them; recorded executions use the real ones (32, 4, 8).                   *)
EXTENDS Bytes
CONSTANTS WHash, WInt, WAmt
(* largest count of inputs/outputs/witness elements the library reads *)
MaxCount == 252

WitEnc(w) == Var(Len(w)) \o Cat(Map(VarBytes, w))
TxInEnc(i) == i.hash \o i.idx \o VarBytes(i.script) \o i.seq
TxOutEnc(o) == o.amt \o VarBytes(o.script)
IsSegwit(t) == \E k \in 1..Len(t.ins) : t.ins[k].wit # <<>>
Wits(t) == Cat([k \in 1..Len(t.ins) |-> WitEnc(t.ins[k].wit)])
Body(t) == Var(Len(t.ins)) \o Cat(Map(TxInEnc, t.ins)) \o Var(Len(t.outs)) \o Cat(Map(TxOutEnc, t.outs))
TxEncBase(t) == t.ver \o Body(t) \o t.lock
TxEncWit(t)  == t.ver \o <<0, 1>> \o Body(t) \o Wits(t) \o t.lock
TxEnc(t) == IF IsSegwit(t) THEN TxEncWit(t) ELSE TxEncBase(t)

----------------------------------------------------------------------------
ScriptDec(b, off) == VarBytesDec(b, off)

(* k more items with decoder D, collected into acc *)
RECURSIVE Many(_, _, _, _, _)
Many(D(_, _), b, off, k, acc) ==
    IF k = 0 THEN Done(off, acc)
    ELSE LET r == D(b, off) IN IF r.st # 0 THEN r ELSE Many(D, b, r.n, k - 1, Append(acc, r.v))

(* counts: one byte, at most 252 *)
CountDec(b, off) == IF off >= Len(b) THEN Inc
                    ELSE IF b[off + 1] > MaxCount THEN Bad
                    ELSE Done(off + 1, b[off + 1])
WitDec(b, off) ==
    LET c == CountDec(b, off)
    IN IF c.st # 0 THEN c ELSE Many(VarBytesDec, b, c.n, c.v, <<>>)
TxInDec(b, off) ==
    IF off + WHash + WInt > Len(b) THEN Inc
    ELSE LET s == VarBytesDec(b, off + WHash + WInt)
         IN IF s.st # 0 THEN s
            ELSE IF s.n + WInt > Len(b) THEN Inc
            ELSE Done(s.n + WInt, [hash |-> Slice(b, off, WHash), idx |-> Slice(b, off + WHash, WInt),
                                   script |-> s.v, seq |-> Slice(b, s.n, WInt), wit |-> <<>>])
TxOutDec(b, off) ==
    IF off + WAmt > Len(b) THEN Inc
    ELSE LET s == VarBytesDec(b, off + WAmt)
         IN IF s.st # 0 THEN s ELSE Done(s.n, [amt |-> Slice(b, off, WAmt), script |-> s.v])

TxTail(b, off, segwit, ver) ==
    LET nin == CountDec(b, off) IN IF nin.st # 0 THEN nin ELSE
    LET ins == Many(TxInDec, b, nin.n, nin.v, <<>>) IN IF ins.st # 0 THEN ins ELSE
    LET nout == CountDec(b, ins.n) IN IF nout.st # 0 THEN nout ELSE
    LET outs == Many(TxOutDec, b, nout.n, nout.v, <<>>) IN IF outs.st # 0 THEN outs ELSE
    LET wits == IF segwit THEN Many(WitDec, b, outs.n, nin.v, <<>>) ELSE Done(outs.n, [k \in 1..nin.v |-> <<>>])
    IN IF wits.st # 0 THEN wits
       ELSE IF wits.n + WInt > Len(b) THEN Inc
       ELSE Done(wits.n + WInt,
                 [ver |-> ver, ins |-> [k \in 1..nin.v |-> [ins.v[k] EXCEPT !.wit = wits.v[k]]],
                  outs |-> outs.v, lock |-> Slice(b, wits.n, WInt)])
TxDec(b, off) ==
    LET v == FixDec(b, off, WInt)
    IN IF v.st # 0 THEN v
       ELSE IF v.n >= Len(b) THEN Inc
       ELSE IF b[v.n + 1] # 0 THEN TxTail(b, v.n, FALSE, v.v)
       ELSE IF v.n + 1 >= Len(b) THEN Inc
       ELSE IF b[v.n + 2] # 1 THEN Bad
       ELSE TxTail(b, v.n + 2, TRUE, v.v)

(* values that the wire format can carry (BIP144 forbids the rest): at least *)
(* one input, otherwise the marker byte is ambiguous                         *)
Canonical(t) == Len(t.ins) \in 1..MaxCount /\ Len(t.outs) <= MaxCount
=============================================================================
