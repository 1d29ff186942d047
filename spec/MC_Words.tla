------------------------------ MODULE MC_Words -----------------------------
(* Mnemonic sentences: a sentence is chosen by its length, a pattern for all *)
(* words but the last, and the last word.  TLC checks that a sentence is     *)
(* valid exactly when its last bits are the checksum of the rest, so that    *)
(* one in 2^(words/3) last words fits, and that valid sentences and          *)
(* entropies correspond one to one.  Exported sentences are replayed (C11).  *)
EXTENDS HD, Toy, Prims
CONSTANTS Counts, Patterns, Lasts, Junk
VARIABLES n, p, w, spoil
vars == <<n, p, w, spoil>>
(* the word list: 2048 words in order, told apart by four letters *)
ASSUME Len(WordList) = 2048
ASSUME LET T == [i \in 1..2048 |-> Text(WordList[i])] IN
       \A i \in 1..2047 : LexLess(T[i], T[i + 1]) /\ LexLess(Take(T[i], 4), Take(T[i + 1], 4)) /\ Len(T[i]) \in 3..8
Init == n \in Counts /\ p \in Patterns /\ w = 0 - 1 /\ spoil = "no"
Next == w < 0 /\ w' \in Lasts /\ spoil' \in {"no"} \cup (IF w' % 64 = 3 THEN Junk ELSE {}) /\ UNCHANGED <<n, p>>
Spec == Init /\ [][Next]_vars
Idx == [i \in 1..n |-> IF i = n THEN w ELSE (p * i * i + 17 * i * p) % 2048]
Bits == BitsOf(Idx, 11)
Cs == n \div 3
Ent == Regroup(SubSeq(Bits, 1, 11 * n - Cs), 8)
Fits == SubSeq(Bits, 11 * n - Cs + 1, 11 * n) = SubSeq(BitsOf(Sha256(Ent), 8), 1, Cs)
Spell(ix) == Tail(Cat(Map(LAMBDA i : <<32>> \o Text(WordList[i + 1]), ix)))
Good == Spell(Idx)
Made == CASE spoil = "no" -> Good
          [] spoil = "upper" -> [Good EXCEPT ![1] = @ - 32]
          [] spoil = "double space" -> LET k == CHOOSE k \in 1..Len(Good) : Good[k] = 32 IN SubSeq(Good, 1, k) \o From(Good, k - 1)
          [] spoil = "space after" -> Append(Good, 32)
          [] spoil = "space before" -> <<32>> \o Good
          [] spoil = "word missing" -> Spell(Tail(Idx))
          [] spoil = "word more" -> Spell(Idx \o <<w>>)
          [] spoil = "letter" -> [Good EXCEPT ![3] = 122]
          [] spoil = "prefix" -> SubSeq(Good, 1, Len(Good) - 1)
          [] spoil = "tab" -> LET k == CHOOSE k \in 1..Len(Good) : Good[k] = 32 IN [Good EXCEPT ![k] = 9]
----------------------------------------------------------------------------
Typed == w >= 0
Valid == Typed /\ spoil = "no" => LET e == SentenceEntropy(Made) IN
    /\ (e # <<>>) = Fits
    /\ (Fits => e = Ent /\ Sentence(e) = Made /\ Len(e) \in EntropySizes /\ 3 * Len(e) = 4 * n)
(* of the words that share all entropy bits, one fits: the checksum decides *)
One == Typed /\ spoil = "no" /\ w % 256 = 0 => LET fits(c) == c = BitVal(SubSeq(BitsOf(Sha256(Ent), 8), 1, Cs)) IN
    \A c \in 0..(Pow2(Cs) - 1) : (SentenceEntropy(Spell([Idx EXCEPT ![n] = w + c])) # <<>>) = fits(c)
Spoilt == Typed /\ spoil \notin {"no", "letter", "prefix", "word missing", "word more"} => SentenceEntropy(Made) = <<>>
Export == ~Typed \/ PrintT("HIST " \o ToString(<<ToHexStr(Made)>>))
=============================================================================
