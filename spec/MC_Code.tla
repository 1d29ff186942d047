------------------------------ MODULE MC_Code ------------------------------
(* The checksums of Bech32 addresses and of descriptors are linear codes.    *)
(* Walking from the end of the text to its front, TLC computes what an error *)
(* of value v in the symbol at distance pos does to the checksum (its        *)
(* syndrome) and checks that no combination of up to three errors cancels:   *)
(* such texts are never taken for valid ones.  Because the code is linear    *)
(* and a step of PolyStep is invertible, combinations whose last error is at *)
(* the end cover all.  Exported errors are replayed (C16, C22).              *)
EXTENDS TextCodec, Toy, Prims, FiniteSets
CONSTANTS What, MaxPos
VARIABLES pos, syn, seen
vars == <<pos, syn, seen>>
Gens == IF What = "bech" THEN BechGens ELSE DescGens
Deg == Len(Gens[1])
Vals == 1..31
At0(v) == Zeros(Deg - 1) \o <<v>>
Sum(a, b) == XorSeq(a, b)
Init == pos = 0 /\ syn = [v \in Vals |-> At0(v)] /\ seen = {}
Next == /\ pos < MaxPos /\ pos' = pos + 1
        /\ syn' = [v \in Vals |-> PolyStep(syn[v], 0, Gens)]
        /\ seen' = IF pos = 0 THEN {} ELSE seen \cup {syn[v] : v \in Vals}     \* between the first and this one
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Additive == \A v \in {1, 2, 7, 19, 31}, w \in {1, 4, 30} : v # w => syn[v ^^ w] = Sum(syn[v], syn[w])
One == \A v \in Vals : ~AllZero(syn[v])
Two == pos = 0 \/ \A v \in Vals, w \in Vals : syn[v] # At0(w)
Three == pos = 0 \/ \A v \in Vals, w \in Vals : Sum(syn[v], At0(w)) \notin seen
(* the checksum of a text with an error is the checksum of the text, changed by the syndrome *)
Sample == Map(LAMBDA c : c % 32, Text("uBitcoin is a C++ library"))
Linear == pos < Len(Sample) => \A v \in {1, 5, 31} :
    LET i == Len(Sample) - pos IN PolyMod([Sample EXCEPT ![i] = @ ^^ v], Gens) = Sum(PolyMod(Sample, Gens), syn[v])
Export == \A v \in Vals : PrintT("HIST " \o ToString(<<What, pos, v>>))
=============================================================================
