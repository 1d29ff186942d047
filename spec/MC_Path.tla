------------------------------ MODULE MC_Path ------------------------------
(* Derivation paths as text, read character by character by a small machine. *)
(* TLC builds every text from a set of tokens and checks that PathDec, which *)
(* splits the text as a whole, agrees with the machine at every moment, and  *)
(* that what it accepts can be written down again.  The texts are exported   *)
(* and derived with by the library (C09).                                    *)
EXTENDS HD, Toy, Prims
CONSTANT MaxTokens
VARIABLES t, n
Tokens == {Text("m"), Text("/"), Text("0"), Text("1"), Text("44"), Text("2147483647"), Text("2147483648"), Text("9999999999"), Text("h"), Text("'"), Text("x")}
Init == t = <<>> /\ n = 0
Next == n < MaxTokens /\ n' = n + 1 /\ \E w \in Tokens : t' = t \o w
Spec == Init /\ [][Next]_<<t, n>>
(* the machine: where it is, digits of the number being read, indexes so far *)
Start == [at |-> "start", ds |-> <<>>, p |-> <<>>]
Dead == [at |-> "dead", ds |-> <<>>, p |-> <<>>]
RECURSIVE Bare(_)
Bare(ds) == IF ds # <<>> /\ ds[1] = 48 THEN Bare(Tail(ds)) ELSE ds
Limit == Text("2147483648")
Small(ds) == LET s == Bare(ds) IN Len(s) < 10 \/ (Len(s) = 10 /\ LexLess(s, Limit))
Flush(s, hard) == IF ~Small(s.ds) THEN Dead ELSE [at |-> "end", ds |-> <<>>, p |-> Append(s.p, [ds |-> Bare(s.ds), hard |-> hard])]
Step(s, c) ==
    CASE s.at = "start" -> IF c = 109 THEN [s EXCEPT !.at = "m"] ELSE IF IsDigit(c) THEN [s EXCEPT !.at = "num", !.ds = <<c>>] ELSE Dead
      [] s.at = "m" -> IF c = 47 THEN [s EXCEPT !.at = "sep"] ELSE Dead
      [] s.at = "sep" -> IF IsDigit(c) THEN [s EXCEPT !.at = "num", !.ds = <<c>>] ELSE Dead
      [] s.at = "num" -> IF IsDigit(c) THEN [s EXCEPT !.ds = Append(@, c)]
                         ELSE IF c \in {104, 39} THEN Flush(s, TRUE)
                         ELSE IF c = 47 THEN LET f == Flush(s, FALSE) IN IF f.at = "dead" THEN Dead ELSE [f EXCEPT !.at = "sep"] ELSE Dead
      [] s.at = "end" -> IF c = 47 THEN [s EXCEPT !.at = "sep"] ELSE Dead
      [] s.at = "dead" -> Dead
RECURSIVE Read(_, _)
Read(s, x) == IF x = <<>> THEN s ELSE Read(Step(s, x[1]), Tail(x))
Stop(s) == IF s.at = "num" THEN Flush(s, FALSE) ELSE s      \* a trailing separator, "m" and nothing at all are paths
Value(i) == LET v == Take(DecToLE(i.ds, Zeros(5)), 4) IN IF i.hard THEN Hard(v) ELSE v
Agree == LET s == Stop(Read(Start, t))
             r == PathDec(t)
         IN /\ r.ok = (s.at # "dead")
            /\ (r.ok => r.p = [i \in 1..Len(s.p) |-> Value(s.p[i])])
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<47>> \o Join(Tail(ws))
Step1(i) == (IF i.ds = <<>> THEN <<48>> ELSE i.ds) \o (IF i.hard THEN <<104>> ELSE <<>>)
Again == LET s == Stop(Read(Start, t)) IN s.at # "dead" => PathDec(Text("m/") \o Join([i \in 1..Len(s.p) |-> Step1(s.p[i])])) = PathDec(t)
Export == PrintT("HIST " \o ToString(<<ToHexStr(t)>>))
=============================================================================
