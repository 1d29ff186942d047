------------------------------ MODULE MC_Build ------------------------------
(* Building scripts.  One machine appends opcodes and data items of every    *)
(* length class (the push opcode changes at 75/76, 255/256 and 65535/65536   *)
(* bytes) and carries the list of what was appended; the other makes m-of-n  *)
(* scripts from keys in any order.  A script reader - written here from the  *)
(* meaning of the push opcodes, not from the builder - must get back exactly *)
(* what was put in, with the shortest push for each item; a multisig script  *)
(* must not depend on the order of keys when sorted and must name all of     *)
(* them otherwise; no script is an instance of two standard templates.       *)
(* Histories are replayed into Script and Witness objects (C17).             *)
EXTENDS TxCodec, ScriptTpl, Toy, FiniteSets
CONSTANTS What, MaxItems, Lens, Codes, Keys, MaxKeys
VARIABLES items, s, m, hist
vars == <<items, s, m, hist>>
Fill(n, k) == [j \in 1..n |-> k]
H20(b) == Fill(20, (Len(b) % 200) + 1)
H32(b) == Fill(32, (Len(b) % 200) + 1)
(* an item: <<"op", code>> or <<"data", bytes>> *)
Op(c) == What = "script" /\ Len(hist) < MaxItems /\ items' = Append(items, IF c = 0 THEN <<"data", <<>>>> ELSE <<"op", c>>)
         /\ s' = s \o <<c>> /\ hist' = Append(hist, <<"code", c>>) /\ UNCHANGED m
Data(n) == LET d == Fill(n, Len(items) + 1) IN
           /\ What = "script" /\ Len(hist) < MaxItems /\ items' = Append(items, <<"data", d>>)
           /\ s' = s \o PushData(d) /\ hist' = Append(hist, <<"data", n>>) /\ UNCHANGED m
Clear == What = "script" /\ items # <<>> /\ items' = <<>> /\ s' = <<>> /\ hist' = Append(hist, <<"clear">>) /\ Len(hist) < MaxItems /\ UNCHANGED m
(* m-of-n: keys are short strings that stand for serialized keys; 1 and 11 stand for the two forms of one point *)
Key(k) == What = "multi" /\ Len(items) < MaxKeys /\ items' = Append(items, k) /\ hist' = Append(hist, k) /\ UNCHANGED <<s, m>>
(* spending conditions by template: hashed bytes and what they are wrapped in *)
Template(d, w) == What = "tpl" /\ items = <<>> /\ items' = <<d, w>> /\ hist' = <<d, w>> /\ UNCHANGED m
    /\ s' = CASE w = "pkh" -> Pkh(Fill(d, 1)) [] w = "wpkh" -> Wpkh(Fill(d, 1)) [] w = "sh" -> Sh(Fill(d, 1)) [] w = "wsh" -> Wsh(Fill(d, 1))
               [] w = "shwpkh" -> Sh(Wpkh(Fill(d, 1))) [] w = "shwsh" -> Sh(Wsh(Fill(d, 1)))
Spoil(p, c) == What = "tpl" /\ items # <<>> /\ Len(hist) = 2 /\ p <= Len(s) /\ s[p] # c /\ s' = [s EXCEPT ![p] = c]
               /\ hist' = hist \o <<p, c>> /\ UNCHANGED <<items, m>>
Init == items = <<>> /\ s = <<>> /\ hist = <<>> /\ m \in (IF What = "multi" THEN 0..(MaxKeys + 1) ELSE {0})
Next == \/ \E c \in Codes : Op(c)
        \/ \E n \in Lens : Data(n)
        \/ Clear
        \/ \E k \in Keys : Key(k)
        \/ \E d \in {33, 65}, w \in {"pkh", "wpkh", "sh", "wsh", "shwpkh", "shwsh"} : Template(d, w)
        \/ \E p \in {1, 2, 3, 4, 22, 23, 24, 25, 34}, c \in {0, 20, 32, 81, 118, 135, 136, 169, 172} : Spoil(p, c)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
(* reading a script: list of items, or "bad" at the end *)
Rd(b, n, k) == IF Len(b) < n + k THEN <<<<"bad">>>> ELSE <<<<"data", SubSeq(b, n + 1, n + k)>>, SubSeq(b, n + k + 1, Len(b))>>
RECURSIVE Read(_)
Read(b) ==
    IF b = <<>> THEN <<>>
    ELSE LET c == b[1]
             r == IF c <= 75 THEN Rd(b, 1, c)
                  ELSE IF c = 76 /\ Len(b) >= 2 THEN Rd(b, 2, b[2])
                  ELSE IF c = 77 /\ Len(b) >= 3 THEN Rd(b, 3, b[2] + 256 * b[3])
                  ELSE IF c = 78 /\ Len(b) >= 5 THEN Rd(b, 5, b[2] + 256 * b[3] + 65536 * b[4])
                  ELSE IF c \in 76..78 THEN <<<<"bad">>>>
                  ELSE <<<<"op", c>>, Tail(b)>>
         IN IF r[1] = <<"bad">> THEN <<r[1]>> ELSE <<r[1]>> \o Read(r[2])
ReadsBack == What = "script" => Read(s) = items
(* no push of the same data is shorter *)
Overhead(n) == IF n <= 75 THEN 1 ELSE IF n <= 255 THEN 2 ELSE IF n <= 65535 THEN 3 ELSE 5
RECURSIVE Size(_)
Size(it) == IF it = <<>> THEN 0 ELSE (IF it[1][1] = "op" THEN 1 ELSE Overhead(Len(it[1][2])) + Len(it[1][2])) + Size(Tail(it))
Shortest == What = "script" => Len(s) = Size(items)
(* as witness elements: the same items framed by their lengths *)
AsWitness == What = "script" => LET w == [k \in 1..Len(items) |-> items[k][2]]
                                    all == \A k \in 1..Len(items) : items[k][1] = "data"
                                IN all => LET r == WitDec(WitEnc(w) \o <<1>>, 0) IN r.st = 0 /\ r.v = w /\ r.n = Len(WitEnc(w))
(* multisig *)
KeyBytes(k) == CASE k = 11 -> <<4, 1>> [] k = 12 -> <<4, 2>> [] OTHER -> <<2 + (k % 2), k>>
Ks == Map(KeyBytes, items)
Bag(q) == [k \in {q[j] : j \in 1..Len(q)} |-> Cardinality({j \in 1..Len(q) : q[j] = k})]
NamesAll == What = "multi" => LET a == Multi(m, Ks)
                                  b == SortedMulti(m, Ks)
                                  n == Len(Ks)
                                  ok == m >= 1 /\ m <= n /\ n <= 16
                                  ra == Read(a)
                                  rb == Read(b)
                                  mid(q) == [j \in 1..n |-> q[j + 1][2]]
    IN IF ~ok THEN a = <<>> /\ b = <<>>
       ELSE /\ Len(ra) = n + 3 /\ Len(rb) = n + 3
            /\ ra[1] = <<"op", 80 + m>> /\ ra[n + 2] = <<"op", 80 + n>> /\ ra[n + 3] = <<"op", 174>>
            /\ rb[1] = ra[1] /\ rb[n + 2] = ra[n + 2] /\ rb[n + 3] = ra[n + 3]
            /\ mid(ra) = Ks /\ Bag(mid(rb)) = Bag(Ks)
            /\ \A j \in 1..(n - 1) : ~LexLess(mid(rb)[j + 1], mid(rb)[j])
AnyOrder == What = "multi" /\ Len(Ks) >= 2 => SortedMulti(m, <<Ks[2], Ks[1]>> \o SubSeq(Ks, 3, Len(Ks))) = SortedMulti(m, Ks)
                                           /\ SortedMulti(m, Tail(Ks) \o <<Ks[1]>>) = SortedMulti(m, Ks)
(* templates *)
IsPkh(b) == Len(b) = 25 /\ SubSeq(b, 1, 3) = <<118, 169, 20>> /\ SubSeq(b, 24, 25) = <<136, 172>>
IsSh(b) == Len(b) = 23 /\ SubSeq(b, 1, 2) = <<169, 20>> /\ b[23] = 135
IsWpkh(b) == Len(b) = 22 /\ SubSeq(b, 1, 2) = <<0, 20>>
IsWsh(b) == Len(b) = 34 /\ SubSeq(b, 1, 2) = <<0, 32>>
Types(b) == (IF IsPkh(b) THEN {"P2PKH"} ELSE {}) \cup (IF IsSh(b) THEN {"P2SH"} ELSE {}) \cup (IF IsWpkh(b) THEN {"P2WPKH"} ELSE {}) \cup (IF IsWsh(b) THEN {"P2WSH"} ELSE {})
OneType == Types(s) = IF TypeOf(s) = "UNKNOWN" THEN {} ELSE {TypeOf(s)}
Named == What = "tpl" /\ Len(hist) = 2 => TypeOf(s) = (CASE hist[2] = "pkh" -> "P2PKH" [] hist[2] = "wpkh" -> "P2WPKH" [] hist[2] = "wsh" -> "P2WSH" [] OTHER -> "P2SH")
Export == hist = <<>> \/ PrintT("HIST " \o ToString(<<What, m, hist>>))
=============================================================================
