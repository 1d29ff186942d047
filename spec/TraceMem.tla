------------------------------ MODULE TraceMem ------------------------------
(* Storage of secrets.  A cell is a key object in storage that can be looked *)
(* at: [k, st, buf, ok, v, ever].  v = <<secret, chain code>> if the object  *)
(* is complete (ok); ever: all secrets given to it in its life (a part of a  *)
(* serialized key counts).  What must hold:                                  *)
(*  - storage of a destroyed object holds nothing of any of them,            *)
(*  - storage of a complete object holds nothing of those it was given       *)
(*    before,                                                                *)
(*  - heap memory given back by a call holds nothing of the secrets of the   *)
(*    object it worked on.                                                   *)
(* "Nothing of" a secret: none of its pieces of W bytes; where the storage   *)
(* held all of it, not a single byte.                                        *)
EXTENDS TraceBase
W == 6
Telling(p) == Cardinality({p[i] : i \in 1..Len(p)}) >= W - 1      \* not a constant or such
Pieces(s) == {p \in {SubSeq(s, i, i + W - 1) : i \in 1..(Len(s) - W + 1)} : Telling(p)}
PiecesOf(ss) == UNION {Pieces(s) : s \in ss}
Windows(d) == {SubSeq(d, i, i + W - 1) : i \in 1..(Len(d) - W + 1)}
Found(ps, d) == Windows(d) \cap (ps \cup {Rev(p) : p \in ps})
ChkGone(what, ps, d) == LET f == Found(ps, d) IN
    IF f = {} THEN TRUE ELSE PrintT(<<"MISMATCH", l, what, "holds", ToHexStr(CHOOSE p \in f : TRUE)>>) /\ FALSE
(* after: the storage that was before; where it held s, every byte of s is gone *)
Places(s, d) == {i \in 0..(Len(d) - Len(s)) : SubSeq(d, i + 1, i + Len(s)) = s}
Erased(s, before, after) == \A i \in Places(s, before) :
    LET a == Slice(after, i, Len(s)) IN
    \/ \A j \in 1..Len(s) : a[j] = a[1]
    \/ \A j \in 1..Len(s) : a[j] # s[j]
    \/ PrintT(<<"MISMATCH", l, "erased", ToHexStr(s), "left", ToHexStr(a)>>) /\ FALSE
----------------------------------------------------------------------------
MemCell(k, st, buf, ok, v, ever) == [k |-> k, st |-> st, buf |-> buf, ok |-> ok, v |-> v, ever |-> ever]
Secs(v) == {s \in {v[1], v[2]} : s # <<>>}
(* the secret fields in the first bytes of a serialized key *)
PartSecs(k, b) == IF k # "hdprv" THEN {Take(b, 32)} ELSE {Slice(b, 13, Min2(32, Len(b) - 13)) : x \in {1} \cap {IF Len(b) > 13 THEN 1 ELSE 0}} \cup {Slice(b, 46, Min2(32, Len(b) - 46)) : x \in {1} \cap {IF Len(b) > 46 THEN 1 ELSE 0}}
TextSecs(k, t) == LET b == UnBase58(t) IN IF k = "hdprv" THEN PartSecs(k, b) ELSE IF Len(b) < 10 THEN {} ELSE {Slice(b, 1, Min2(32, Len(b) - 1))}
FeedDec(k, b) == IF k = "hdprv" THEN LET r == XPrvDec(b) IN [st |-> r.st, n |-> IF r.st = 0 THEN r.n ELSE 0, v |-> IF r.st = 0 THEN <<r.v.d, r.v.cc>> ELSE <<>>]
    ELSE IF Len(b) < 32 THEN [st |-> 1, n |-> 0, v |-> <<>>]
    ELSE LET d == Take(b, 32) IN IF AllZero(d) THEN [st |-> 2, n |-> 0, v |-> <<>>] ELSE [st |-> 0, n |-> 32, v |-> <<SRed(d), <<>>>>]
(* observed secrets count as given, too *)
Seen(e) == {s \in {Hex(e.sec), Hex(e.cc)} : Len(s) = 32}
Freed(e, ss) == LET ps == PiecesOf(ss) IN \A i \in 1..Len(e.freed) : ChkGone("memory given back", ps, Hex(e.freed[i]))
Holds(e, c) == ~c.ok \/ (ChkB("secret", c.v[1], e.sec) /\ ChkB("chain code", c.v[2], e.cc))
Become(e, k, st, buf, ok, v, given, ever) ==
    LET n == ever \cup given \cup Seen(e) \cup (IF ok THEN Secs(v) ELSE {})
        c == MemCell(k, st, buf, ok, v, n)
    IN Res(Holds(e, c) /\ Freed(e, n), Put(e.o, c))
Zero2(k) == <<Zeros(32), IF k = "hdprv" THEN Zeros(32) ELSE <<>>>>
WsNew(e) ==
    LET d == Hex(e.data)
        B(v) == Become(e, e.k, 0, <<>>, TRUE, v, {}, {})
        no(g) == Become(e, e.k, 9, <<>>, FALSE, <<>>, g, {})
    IN CASE e.how = "empty" -> B(Zero2(e.k))
         [] e.how \in {"bytes", "hex"} /\ e.k = "scalar" ->
              LET r == FeedDec("scalar", d) IN IF r.st = 0 THEN B(r.v) ELSE Become(e, e.k, r.st, IF r.st = 1 THEN d ELSE <<>>, FALSE, <<>>, PartSecs(e.k, d), {})
         [] e.how = "bytes" /\ e.k = "prv" -> B(<<d, <<>>>>)
         [] e.how = "bytes" /\ e.k = "hdprv" -> B(<<d, Hex(e.cc0)>>)
         [] e.how = "seed" -> LET m == Master(d, "main") IN B(<<m.d, m.cc>>)
         [] e.how = "text" /\ e.k = "prv" -> LET r == WifDec(d) IN IF r.ok THEN B(<<r.d, <<>>>>) ELSE no(TextSecs(e.k, d))
         [] e.how = "text" /\ e.k = "hdprv" -> LET r == XFromText(d, FALSE) IN IF r.ok THEN B(<<r.d, r.cc>>) ELSE no(TextSecs(e.k, d))
WsCopy(e) == LET s == objs[e.p] IN Become(e, s.k, s.st, s.buf, s.ok, s.v, s.ever, {})
WsAssign(e) == LET s == objs[e.p] IN Become(e, s.k, s.st, s.buf, s.ok, s.v, s.ever, objs[e.o].ever)
WsKid(e) == LET s == objs[e.p]
                r == CkdPriv([d |-> s.v[1], cc |-> s.v[2], depth |-> 5, type |-> "UNKNOWN", net |-> "main"], IF e.hard = 1 THEN HIdx(e.i) ELSE LE(e.i, 4))
            IN Become(e, "hdprv", 0, <<>>, s.ok, IF s.ok THEN <<r.d, r.cc>> ELSE <<>>, s.ever, {})
WsSum(e) == LET a == objs[e.p]
                b == objs[e.q]
                ok == a.ok /\ b.ok
            IN Become(e, "scalar", 0, <<>>, ok, IF ok THEN <<SAdd(a.v[1], b.v[1]), <<>>>> ELSE <<>>, a.ever \cup b.ever, {})
WsKey(e) == LET a == objs[e.p] IN Become(e, "prv", 0, <<>>, a.ok, a.v, a.ever, {})
WsSet(e) == LET c == objs[e.o] IN Become(e, c.k, IF c.st = 0 THEN 0 ELSE 9, <<>>, c.ok, <<Hex(e.data), IF c.ok THEN c.v[2] ELSE <<>>>>, {Hex(e.data)}, c.ever)
WsFeed(e) ==
    LET c == objs[e.o]
        all == (IF c.st = 1 THEN c.buf ELSE <<>>) \o Hex(e.data)
        r == FeedDec(c.k, all)
        g == PartSecs(c.k, all)
    IN IF c.st \notin {0, 1} \/ all = <<>> THEN Become(e, c.k, IF c.st = 0 THEN 9 ELSE c.st, <<>>, FALSE, <<>>, g, c.ever)
       ELSE IF r.st = 0 THEN Become(e, c.k, 0, <<>>, TRUE, r.v, g, c.ever)
       ELSE Become(e, c.k, IF r.st = 1 THEN 1 ELSE 9, IF r.st = 1 THEN all ELSE <<>>, FALSE, <<>>, g, c.ever)
WsText(e) ==
    LET c == objs[e.o]
        t == Hex(e.data)
        g == TextSecs(c.k, t)
        r == IF c.k = "prv" THEN WifDec(t) ELSE XFromText(t, FALSE)
        clear == c.st = 0
    IN IF r.ok /\ (clear \/ c.k = "hdprv") THEN Become(e, c.k, 0, <<>>, TRUE, IF c.k = "prv" THEN <<r.d, <<>>>> ELSE <<r.d, r.cc>>, g, c.ever)
       ELSE Become(e, c.k, 9, <<>>, FALSE, <<>>, g, c.ever)
WsUse(e) == LET c == objs[e.o] IN Pure(Holds(e, c) /\ Freed(e, c.ever))
WsMem(e) == LET c == objs[e.o] IN
    Pure(~c.ok \/ (Holds(e, c) /\ ChkGone("storage of a complete key", PiecesOf(c.ever) \ PiecesOf(Secs(c.v)), Hex(e.live))))
WsDel(e) ==
    LET c == objs[e.o]
        before == Hex(e.live)
        after == Hex(e.mem)
        whole == (IF c.ok THEN Secs(c.v) ELSE {}) \cup (IF c.st = 1 THEN {s \in PartSecs(c.k, c.buf) : Len(s) >= W} ELSE {})
    IN Res(ChkGone("storage of a destroyed key", PiecesOf(c.ever), after) /\ Freed(e, c.ever)
           /\ \A s \in whole : ~Telling(Take(s, W)) \/ Erased(s, before, after),
           [i \in DOMAIN objs \ {e.o} |-> objs[i]])
MemOps == {"ws_new", "ws_copy", "ws_assign", "ws_kid", "ws_sum", "ws_key", "ws_set", "ws_feed", "ws_text", "ws_use", "ws_mem", "ws_del"}
DoMem(e) ==
    CASE e.op = "ws_new" -> WsNew(e)
      [] e.op = "ws_copy" -> WsCopy(e)
      [] e.op = "ws_assign" -> WsAssign(e)
      [] e.op = "ws_kid" -> WsKid(e)
      [] e.op = "ws_sum" -> WsSum(e)
      [] e.op = "ws_key" -> WsKey(e)
      [] e.op = "ws_set" -> WsSet(e)
      [] e.op = "ws_feed" -> WsFeed(e)
      [] e.op = "ws_text" -> WsText(e)
      [] e.op = "ws_use" -> WsUse(e)
      [] e.op = "ws_mem" -> WsMem(e)
      [] e.op = "ws_del" -> WsDel(e)
=============================================================================
