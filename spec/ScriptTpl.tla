----------------------------- MODULE ScriptTpl -----------------------------
(* Script templates, minimal pushes and script classification.               *)
EXTENDS Crypto

(* minimal push of a data item (BIP62 without the small-integer forms)       *)
PushData(b) == LET n == Len(b) IN
    IF n <= 75 THEN <<n>> \o b
    ELSE IF n <= 255 THEN <<76, n>> \o b
    ELSE IF n <= 65535 THEN <<77>> \o LE(n, 2) \o b
    ELSE <<78>> \o LE(n, 4) \o b

P2PKHof(h) == <<118, 169, 20>> \o h \o <<136, 172>>
P2SHof(h)  == <<169, 20>> \o h \o <<135>>
WitProg(ver, prog) == <<IF ver = 0 THEN 0 ELSE 80 + ver, Len(prog)>> \o prog
Pkh(sec)  == P2PKHof(Hash160(sec))
Wpkh(sec) == WitProg(0, Hash160(sec))
Sh(s)     == P2SHof(Hash160(s))
Wsh(s)    == WitProg(0, Sha256(s))

(* m-of-n; empty if the threshold or the number of keys is out of range *)
Multi(m, secs) == LET n == Len(secs) IN
    IF m = 0 \/ m > n \/ n = 0 \/ n > 16 THEN <<>>
    ELSE <<80 + m>> \o Cat(Map(PushData, secs)) \o <<80 + n, 174>>
SortSecs(secs) == SortSeq(secs, LexLess)
SortedMulti(m, secs) == Multi(m, SortSecs(secs))

(* the type names of the library's enumeration *)
TypeOf(s) ==
    IF Len(s) = 25 /\ s = P2PKHof(Slice(s, 3, 20)) THEN "P2PKH"
    ELSE IF Len(s) = 23 /\ s = P2SHof(Slice(s, 2, 20)) THEN "P2SH"
    ELSE IF Len(s) = 22 /\ s = WitProg(0, Slice(s, 2, 20)) THEN "P2WPKH"
    ELSE IF Len(s) = 34 /\ s = WitProg(0, Slice(s, 2, 32)) THEN "P2WSH"
    ELSE "UNKNOWN"
=============================================================================
