----------------------------- MODULE MC_Picture -----------------------------
(* Full-size pictures through the whole chain: transform, quantisation,        *)
(* differencing, entropy code, and back.  One plane; a progressive encoder and *)
(* its client with their history; plain or difference chosen freely.           *)
EXTENDS RfxClient
CONSTANTS Kinds, Levels, Tables, Depth, Mistake
VARIABLES ref, held, sent, ok
vars == <<ref, held, sent, ok>>
Z == [i \in 1..4096 |-> 0]

X(i) == (i - 1) % 64
Y(i) == (i - 1) \div 64
(* a picture: a kind and two levels *)
Sample(k, a, b, i) ==
  CASE k = "flat" -> a
    [] k = "checker" -> IF (X(i) + Y(i)) % 2 = 0 THEN a ELSE b
    [] k = "columns" -> IF X(i) % 2 = 0 THEN a ELSE b
    [] k = "rows" -> IF Y(i) % 2 = 0 THEN a ELSE b
    [] k = "edge" -> IF X(i) < 31 THEN a ELSE b
    [] k = "ramp" -> Clamp(a + ((b - a) * X(i)) \div 63, 0, 255)
    [] k = "dot" -> IF X(i) = 63 /\ Y(i) = 63 THEN b ELSE a
    [] k = "dot0" -> IF X(i) = 0 /\ Y(i) = 0 THEN b ELSE a
    [] k = "last" -> IF X(i) >= 62 THEN b ELSE a
    [] k = "blocks" -> IF ((X(i) \div 5) + (Y(i) \div 7)) % 2 = 0 THEN a ELSE b
    [] OTHER -> (X(i) * 37 + Y(i) * 59 + X(i) * Y(i) * a + b) % 256
Pic(k, a, b) == TLCEval([i \in 1..4096 |-> Sample(k, a, b, i)])
Minus(x, y) == TLCEval([i \in 1..4096 |-> Wrap16(x[i] - y[i])])
Plus(x, y) == TLCEval([i \in 1..4096 |-> Wrap16(x[i] + y[i])])

Init == ref = Z /\ held = Z /\ sent = 0 /\ ok = <<>>
(* classic chain: no history *)
ClassicOf(mode, s, q) ==
  LET code == TLCEval(Encode(mode, DiffTail(Classic(s, q), IF "no_tail" \in Mistake THEN 1 ELSE 64)))
  IN  ClientError(mode, code, q, s)
Send(k, a, b, q, diff) ==
  /\ sent < Depth
  /\ \E s \in {Pic(k, a, b)} :
     \E raw \in {ExtrapRaw(s)} :
     \E c \in {ExtrapQuant(raw, q)} :
     \E data \in {IF diff THEN Minus(c, ref) ELSE c} :
     \E code \in {Encode(1, DiffTail(data, 81))} :
     \E got \in {Decode(1, code, 4096)} :
       /\ ref' = c
       /\ held' = IF diff /\ "no_add" \notin Mistake THEN Plus(held, UnDiffTail(got.coefs, 81)) ELSE UnDiffTail(got.coefs, 81)
       /\ sent' = sent + 1
       /\ ok' = <<ClientErrorPro(code, IF diff THEN held ELSE Z, q, s, raw, TRUE), IF sent = 0 THEN ClassicOf(1, s, q) ELSE "",
                  IF sent = 0 THEN ClassicOf(3, s, q) ELSE "", k, a, b, q>>
Next == \E k \in Kinds, a \in Levels, b \in Levels, q \in Tables, diff \in BOOLEAN :
          /\ sent = 0 => ~diff
          /\ k = "flat" => b = a
          /\ Send(k, a, b, q, diff)
Spec == Init /\ [][Next]_vars
View == <<sent, ok, ref = held>>
(* C11 *)
Faithful == ok # <<>> => ok[1] = "" /\ ok[2] = "" /\ ok[3] = ""
(* C13 *)
InStep == ref = held

MCTables == {<<102, 102, 119, 136, 152>>, <<102, 102, 102, 102, 102>>, <<119, 187, 153, 102, 170>>}
MCOne == {<<102, 102, 119, 136, 152>>}
MCTwo == {<<102, 102, 119, 136, 152>>, <<102, 102, 102, 102, 102>>}
MCAll == {"flat", "checker", "columns", "rows", "edge", "ramp", "dot", "dot0", "last", "blocks", "hash"}
=============================================================================
