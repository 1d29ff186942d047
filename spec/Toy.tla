-------------------------------- MODULE Toy --------------------------------
(* A miniature of the algebra behind module Crypto: the curve y^2 = x^3 + 7  *)
(* over F_43, a cyclic group of 31 points - the shape of secp256k1 with      *)
(* one-byte numbers - and a toy hash.  Bound to the constants of Crypto it   *)
(* lets TLC check the constructions themselves for every key, nonce, message *)
(* and index.                                                                *)
EXTENDS Naturals, Sequences, SequencesExt, TLC
LOCAL Pr == 43
LOCAL Or == 31
ToyWS == 1
ToyOrder == <<Or>>
ToyHalf == <<15>>
LOCAL N(s) == s[1]
(* Tables are written out: TLC would recompute defined ones at every use.  *)
(* The assumptions below say that they are what they should be.             *)
FInv == <<1, 22, 29, 11, 26, 36, 37, 27, 24, 13, 4, 18, 10, 40, 23, 35, 38, 12, 34, 28, 41, 2, 15, 9, 31, 5, 8, 20, 3, 33, 25, 39, 30, 19, 16, 6, 7, 17, 32, 14, 21, 42>>
SInvTab == <<1, 16, 21, 8, 25, 26, 9, 4, 7, 28, 17, 13, 12, 20, 29, 2, 11, 19, 18, 14, 3, 24, 27, 22, 5, 6, 23, 10, 15, 30>>
ASSUME \A a \in 1..(Pr - 1) : (a * FInv[a]) % Pr = 1
ASSUME \A a \in 1..(Or - 1) : (a * SInvTab[a]) % Or = 1
(* the multiples 0, 1, .. 30 of the generator *)
Mult == <<<<>>, <<2, 12>>, <<7, 7>>, <<35, 21>>, <<21, 18>>, <<12, 12>>, <<29, 31>>, <<25, 18>>, <<32, 40>>, <<20, 40>>, <<42, 7>>, <<40, 25>>, <<37, 36>>, <<13, 21>>, <<34, 40>>, <<38, 21>>, <<38, 22>>, <<34, 3>>, <<13, 22>>, <<37, 7>>, <<40, 18>>, <<42, 36>>, <<20, 3>>, <<32, 3>>, <<25, 25>>, <<29, 12>>, <<12, 31>>, <<21, 25>>, <<35, 22>>, <<7, 36>>, <<2, 31>>>>
(* their logarithms, by x coordinate and parity of y *)
LogTab == <<0, 0, 0, 0, 1, 30, 0, 0, 0, 0, 0, 0, 0, 0, 29, 2, 0, 0, 0, 0, 0, 0, 0, 0, 5, 26, 18, 13, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 9, 22, 4, 27, 0, 0, 0, 0, 0, 0, 7, 24, 0, 0, 0, 0, 0, 0, 25, 6, 0, 0, 0, 0, 8, 23, 0, 0, 14, 17, 28, 3, 0, 0, 12, 19, 16, 15, 0, 0, 20, 11, 0, 0, 21, 10>>
ToySRed(a) == <<N(a) % Or>>
ToySAdd(a, b) == <<((N(a) + N(b)) % Or)>>
ToySMul(a, b) == <<((N(a) * N(b)) % Or)>>
ToySNeg(a) == <<((Or - (N(a) % Or)) % Or)>>
ToySInv(a) == IF N(a) % Or = 0 THEN <<0>> ELSE <<SInvTab[N(a) % Or]>>
ToyPOn(P) == Len(P) = 2 /\ P[1] < Pr /\ P[2] < Pr /\ ((P[2] * P[2]) % Pr) = ((P[1] * P[1] * P[1] + 7) % Pr)
ToyGroup == {Mult[i] : i \in 1..Or}
ToyPoints == ToyGroup \ {<<>>}
ASSUME ToyPoints = {P \in {<<x, y>> : x \in 0..(Pr - 1), y \in 0..(Pr - 1)} : ToyPOn(P)}
ToyPNeg(P) == IF P = <<>> THEN <<>> ELSE <<P[1], ((Pr - P[2]) % Pr)>>
LOCAL Chord(P, Q, s) == LET x == (s * s + 2 * Pr - P[1] - Q[1]) % Pr
                        IN <<x, ((s * (P[1] + Pr - x) + Pr - P[2]) % Pr)>>
LOCAL Add0(P, Q) ==
    IF P = <<>> THEN Q ELSE IF Q = <<>> THEN P
    ELSE IF P[1] = Q[1] /\ ((P[2] + Q[2]) % Pr) = 0 THEN <<>>
    ELSE IF P = Q THEN Chord(P, P, (3 * P[1] * P[1] * FInv[(2 * P[2]) % Pr]) % Pr)
    ELSE Chord(P, Q, ((Q[2] + Pr - P[2]) * FInv[(Q[1] + Pr - P[1]) % Pr]) % Pr)
ToyG == <<2, 12>>
LOCAL Log(P) == IF P = <<>> THEN 0 ELSE LogTab[2 * P[1] + (P[2] % 2) + 1]
(* chord addition is addition of logarithms: the tables below are exact *)
ASSUME \A i, j \in 0..(Or - 1) : Add0(Mult[i + 1], Mult[j + 1]) = Mult[((i + j) % Or) + 1]
ASSUME \A i \in 0..(Or - 1) : Log(Mult[i + 1]) = i
ToyPAdd(P, Q) == Mult[((Log(P) + Log(Q)) % Or) + 1]
ToyPMul(k, P) == Mult[((N(k) * Log(P)) % Or) + 1]
ToyPLift(x, odd) == IF N(x) >= Pr THEN <<>> ELSE Mult[LogTab[2 * N(x) + (IF odd THEN 1 ELSE 0) + 1] + 1]
(* hashes: some function of all bytes *)
RECURSIVE ToyMix(_, _)
ToyMix(b, h) == IF b = <<>> THEN h ELSE ToyMix(Tail(b), (h * 37 + b[1] + 11) % 251)
ToySha256(b) == <<ToyMix(b, 7)>>
ToySha512(b) == <<ToyMix(b, 7), ToyMix(b, 91)>>
ToyRipemd(b) == <<ToyMix(b, 1), ToyMix(b, 2), ToyMix(b, 3), ToyMix(b, 4)>>
ToyHmac256(k, b) == <<ToyMix(b, ToyMix(k, 3))>>
ToyHmac512(k, b) == <<ToyMix(b, ToyMix(k, 5)), ToyMix(k, ToyMix(b, 9))>>
ToyPbkdf2(p, s, i, n) == <<ToyMix(p \o s, i % 251)>>
ToyText(s) == <<1, 2, 3>>       \* only used for fixed strings
=============================================================================
