----------------------------- MODULE MC_Stream -----------------------------
(* The byte-at-a-time reader.  The wire format is described once more, as a  *)
(* machine that keeps a list of what is still expected and consumes one byte *)
(* per step - the way an embedded reader has to work.  TLC explores every    *)
(* byte string over a small alphabet (with short field widths) and checks    *)
(* that the machine agrees with the decoders of TxCodec at every byte, so    *)
(* that where the input is cut cannot matter, that decoders never change     *)
(* their mind, and that decoding is the inverse of encoding.                 *)
EXTENDS TxCodec
CONSTANTS Alphabet, MaxBytes, Kinds, Done0
VARIABLES k, b, m
vars == <<k, b, m>>
(* Machine: [todo, out, st, n].  todo is a stack of items still expected:     *)
(*   <<"fix", w>>       w more bytes                                         *)
(*   <<"len">>          a CompactSize, then so many bytes                    *)
(*   <<"lenx", w, acc>> w more bytes of a CompactSize                        *)
(*   <<"cnt", what>>    a count, then so many times what                     *)
(*   <<"mark">>         count of inputs, or the segwit marker                *)
(* out collects the fields in order of arrival, cur the field being read     *)
In == <<<<"fix", WHash + WInt>>, <<"len">>, <<"fix", WInt>>>>
Out == <<<<"fix", WAmt>>, <<"len">>>>
Wit == <<<<"cnt", "item">>>>
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Start(kind) == CASE kind = "script" -> <<<<"len">>>>
                 [] kind = "witness" -> Wit
                 [] kind = "txin" -> In
                 [] kind = "txout" -> Out
                 [] kind = "tx" -> <<<<"fix", WInt>>, <<"mark">>, <<"cnt", "out">>, <<"end">>, <<"fix", WInt>>>>
What(w) == CASE w = "item" -> <<<<"len">>>> [] w = "out" -> Out [] w = "in" -> In
Fresh(kind) == [todo |-> Start(kind), st |-> 1, n |-> 0, seg |-> FALSE, nin |-> 0, out |-> <<>>, cur |-> <<>>]
(* skip items that need no byte; "end" is where the witnesses of a segwit transaction go *)
RECURSIVE Settle(_)
Settle(s) ==
    IF s.st # 1 THEN s
    ELSE IF s.todo = <<>> THEN [s EXCEPT !.st = 0]
    ELSE LET h == Head(s.todo)
             t == Tail(s.todo)
         IN IF h[1] = "fix" /\ h[2] = 0 THEN Settle([s EXCEPT !.todo = t, !.out = Append(@, s.cur), !.cur = <<>>])
            ELSE IF h[1] = "end" THEN Settle([s EXCEPT !.todo = (IF s.seg THEN Rep(Wit, s.nin) ELSE <<>>) \o t])
            ELSE s
Count(s, c, what, rest) == IF c > MaxCount THEN [s EXCEPT !.st = 2] ELSE [s EXCEPT !.todo = Rep(What(what), c) \o rest, !.out = Append(@, <<c>>)]
Lens(c) == IF c = 253 THEN 2 ELSE IF c = 254 THEN 4 ELSE 8
(* one byte *)
Step1(s0, c) ==
    LET s == [s0 EXCEPT !.n = @ + 1]
        h == Head(s.todo)
        t == Tail(s.todo)
    IN CASE h[1] = "fix" -> [s EXCEPT !.todo = <<<<"fix", h[2] - 1>>>> \o t, !.cur = Append(@, c)]
         [] h[1] = "len" -> IF c < 253 THEN [s EXCEPT !.todo = <<<<"fix", c>>>> \o t] ELSE [s EXCEPT !.todo = <<<<"lenx", Lens(c), <<>>>>>> \o t]
         [] h[1] = "lenx" ->
              LET acc == Append(h[3], c)
                  w == Len(acc)
                  hi == SubSeq(acc, 4, w)
              IN IF h[2] > 1 THEN [s EXCEPT !.todo = <<<<"lenx", h[2] - 1, acc>>>> \o t]
                 ELSE IF ~AllZero(hi) THEN [s EXCEPT !.st = 3]
                 ELSE LET n == UnLE(SubSeq(acc, 1, Min2(3, w)))
                      IN IF VarLen(n) # w + 1 THEN [s EXCEPT !.st = 2] ELSE [s EXCEPT !.todo = <<<<"fix", n>>>> \o t]
         [] h[1] = "cnt" -> Count(s, c, h[2], t)
         [] h[1] = "mark" -> IF c = 0 /\ ~s.seg THEN [s EXCEPT !.todo = <<<<"flag">>>> \o t] ELSE LET r == Count(s, c, "in", t) IN [r EXCEPT !.nin = c]
         [] h[1] = "flag" -> IF c = 1 THEN [s EXCEPT !.seg = TRUE, !.todo = <<<<"mark">>>> \o t] ELSE [s EXCEPT !.st = 2]
Feed1(s, c) == IF s.st # 1 THEN s ELSE Settle(Step1(s, c))

Init == k \in Kinds /\ b = <<>> /\ m = Settle(Fresh(k))
Next == /\ Len(b) < MaxBytes
        /\ m.st # 2
        /\ (m.st = 0 => Len(b) < m.n + Done0)      \* a few more bytes after the end
        /\ \E c \in Alphabet : b' = Append(b, c) /\ m' = Feed1(m, c) /\ UNCHANGED k
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Dec(kk, bb) == CASE kk = "script" -> ScriptDec(bb, 0) [] kk = "witness" -> WitDec(bb, 0) [] kk = "txin" -> TxInDec(bb, 0)
               [] kk = "txout" -> TxOutDec(bb, 0) [] kk = "tx" -> TxDec(bb, 0)
Enc(kk, v) == CASE kk = "script" -> VarBytes(v) [] kk = "witness" -> WitEnc(v) [] kk = "txin" -> TxInEnc(v)
                [] kk = "txout" -> TxOutEnc(v) [] kk = "tx" -> TxEnc(v)
D == Dec(k, b)
(* the machine and the decoder agree; 8-byte lengths are decided one way or the other before they are complete *)
Agree == \/ D.st = m.st /\ (D.st = 0 => D.n = m.n)
         \/ D.st = 3 /\ m.st = 1
(* a decoder never changes its mind when more bytes come *)
Prev == Dec(k, SubSeq(b, 1, Len(b) - 1))
Stable == b = <<>> \/ ((Prev.st = 0 => D = Prev) /\ (Prev.st = 2 => D.st = 2) /\ (D.st = 1 => Prev.st = 1))
(* what was decoded encodes to the bytes it came from; a transaction marked   *)
(* as carrying witnesses although none of its inputs has one is the exception *)
Marked == (k = "tx") /\ b[WInt + 1] = 0
RoundTrip == D.st # 0 \/ (Enc(k, D.v) = SubSeq(b, 1, D.n)) \/ (Marked /\ ~IsSegwit(D.v) /\ TxEncWit(D.v) = SubSeq(b, 1, D.n))
(* and decoding what was encoded gives it back, whatever follows *)
Again == (D.st = 0 /\ (k # "tx" \/ Canonical(D.v))) => \A tail \in {<<>>, <<0>>, <<255>>} : LET r == Dec(k, Enc(k, D.v) \o tail) IN r.st = 0 /\ r.v = D.v /\ r.n = Len(Enc(k, D.v))
(* reading a window of an encoding piece by piece gives the encoding *)
RECURSIVE Tiles(_, _, _)
Tiles(e, off, w) == IF off >= Len(e) THEN <<>> ELSE Window(e, off, w) \o Tiles(e, off + w, w)
Windows == D.st = 0 => LET e == Enc(k, D.v) IN \A w \in 1..3 : Tiles(e, 0, w) = e
=============================================================================
