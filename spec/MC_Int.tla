------------------------------- MODULE MC_Int -------------------------------
(* Integers as bytes: fixed width in both orders, multi-byte sums, and the   *)
(* CompactSize, over every byte string from a small alphabet (C24, and the   *)
(* arithmetic on amounts that C05 to C08 rest on).                           *)
EXTENDS Bytes, Prims
CONSTANTS Alphabet, MaxBytes
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxBytes /\ \E c \in Alphabet : b' = Append(b, c)
Spec == Init /\ [][Next]_b
ASSUME \A n \in 0..70000 : LET r == VarDec(Var(n), 0) IN Len(Var(n)) = VarLen(n) /\ r.st = 0 /\ r.v = n /\ r.n = VarLen(n)
ASSUME \A n \in {16777214, 16777215} : VarDec(Var(n), 0) = Done(5, n)
(* what is read is what would have been written, and nothing else is read *)
Minimal == LET r == VarDec(b, 0) IN
    /\ (r.st = 0 => Var(r.v) = Take(b, r.n))
    /\ (r.st = 1 => b = <<>> \/ (b[1] \in {253, 254} /\ Len(b) < 5))
Prefix == b # <<>> /\ VarDec(SubSeq(b, 1, Len(b) - 1), 0).st = 0 => VarDec(b, 0) = VarDec(SubSeq(b, 1, Len(b) - 1), 0)
Small == Len(b) <= 3
Fixed == Small => /\ UnLE(b) < Pow256(Len(b)) /\ LE(UnLE(b), Len(b)) = b /\ Rev(Rev(b)) = b /\ BE(UnLE(b), Len(b)) = Rev(b)
                  /\ Var8(b \o Zeros(8 - Len(b))) = Var(UnLE(b))
(* sums modulo 256^w *)
Halves == Len(b) \in {2, 4} =>
    LET w == Len(b) \div 2
        p == Take(b, w)
        q == From(b, w)
    IN /\ AddLE(p, q) = LE((UnLE(p) + UnLE(q)) % Pow256(w), w) /\ AddLE(p, q) = AddLE(q, p)
       /\ SubLE(AddLE(p, q), q) = p /\ LexLess(Rev(p), Rev(q)) = (UnLE(p) < UnLE(q))
       /\ SumLE(<<p, q, p>>, w) = AddLE(p, AddLE(q, p))
Export == PrintT("HIST " \o ToString(<<ToHexStr(b)>>))
=============================================================================
