------------------------------ MODULE MC_Rlgr ------------------------------
(* The three views of the entropy code agree: for every sequence over a small *)
(* alphabet, what Encode emits is accepted, decodes to the sequence, and no   *)
(* byte string of the same length that differs in one bit is accepted.        *)
(* The sequences are explored as a state machine that appends a coefficient.  *)
EXTENDS RfxRlgr

CONSTANTS Alphabet, MaxLen, Starts
VARIABLES mode, s
Init == mode \in {1, 3} /\ s \in Starts
Next == (\E p \in Starts : Len(p) <= Len(s) /\ Len(s) < Len(p) + MaxLen /\ SubSeq(s, 1, Len(p)) = p) /\ \E c \in Alphabet : s' = Append(s, c) /\ UNCHANGED mode
Spec == Init /\ [][Next]_<<mode, s>>

Code == Encode(mode, s)
Flip(b, i) == [b EXCEPT ![(i \div 8) + 1] = LET w == Pow2(7 - (i % 8)) IN IF (@ \div w) % 2 = 1 THEN @ - w ELSE @ + w]
Accepted == \E b \in {Code} : Accept(mode, s, b)
Lossless == \E b \in {Code} : LET d == Decode(mode, b, Len(s)) IN d.coefs = s /\ (Len(s) > 0 => ~d.bad)
Unique == \E b \in {Code} : \A i \in 0..(8 * Len(b) - 1) : ~Accept(mode, s, Flip(b, i))

(* starting points that drive the adaptive parameters to their ends *)
Runs(n) == [i \in 1..n |-> 0]
Some == {<<>>, Runs(40), [i \in 1..12 |-> 100], Runs(300), <<-3000>>, [i \in 1..6 |-> 1000] \o Runs(9)}
Few == {<<>>}
A6 == {-1000, -1, 0, 1, 2, 900}
A5 == {-7, -1, 0, 1, 13}
A4 == {-3, 0, 1, 700}
A9 == {-600, -70, -2, -1, 0, 1, 3, 255, 511}

=============================================================================
