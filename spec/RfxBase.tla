------------------------------ MODULE RfxBase ------------------------------
(* Arithmetic and byte-string helpers shared by all modules.               *)
(* TLC integers are 32-bit: 32-bit wire words are handled as two halves.    *)
EXTENDS Integers, Sequences, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
        8388608, 16777216>>
Pow2(n) == P2[n + 1]

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a < b THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v

(* two's complement 16-bit value of an integer *)
Wrap16(v) == LET u == v % 65536 IN IF u >= 32768 THEN u - 65536 ELSE u
Wrap16Seq(s) == [i \in DOMAIN s |-> Wrap16(s[i])]

(* little-endian readers; b is a sequence of bytes, p a zero-based offset *)
U8(b, p)  == b[p + 1]
U16(b, p) == b[p + 1] + 256 * b[p + 2]
(* value of a 32-bit word that must be below 2^31; -1 when it is not *)
U32(b, p) == IF b[p + 4] >= 128 THEN -1
             ELSE b[p + 1] + 256 * b[p + 2] + 65536 * b[p + 3] + 16777216 * b[p + 4]
Fits(b, p, n) == p >= 0 /\ p + n <= Len(b)
Zeros(n) == [i \in 1..n |-> 0]
=============================================================================
