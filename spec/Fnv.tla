--------------------------------- MODULE Fnv ---------------------------------
(***************************************************************************)
(* FNV-1a over sequences of bytes.  Words are sequences of 16-bit limbs,   *)
(* most significant first, because TLC's integers have 32 bits.            *)
(* The primes are 2^24 + 16r193 and 2^40 + 16r1B3.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

L == 65536
P32 == 403      \* 16r193
P64 == 435      \* 16r1B3
Basis32 == <<33052, 40389>>                      \* 811c 9dc5
Basis64 == <<52210, 40164, 33826, 8997>>         \* cbf2 9ce4 8422 2325

Step32(h, b) ==
    LET lo == h[2] ^^ b
        p == lo * P32
    IN  <<(h[1] * P32 + p \div L + (lo % 256) * 256) % L, p % L>>

Step64(h, b) ==
    LET lo == h[4] ^^ b
        p0 == lo * P64
        p1 == h[3] * P64 + p0 \div L
        p2 == h[2] * P64 + p1 \div L + (lo % 256) * 256          \* 2^40 * h: two limbs and eight bits up
        p3 == h[1] * P64 + p2 \div L + lo \div 256 + (h[3] % 256) * 256
    IN  <<p3 % L, p2 % L, p1 % L, p0 % L>>

Hash32(bytes) == FoldLeft(Step32, Basis32, bytes)
Hash64(bytes) == FoldLeft(Step64, Basis64, bytes)
\* The 16-bit fold: upper half xor lower half.
Fold16(h) == h[1] ^^ h[2]
Id16(bytes) == Fold16(Hash32(bytes))
\* "If limit is zero or exceeds slice length, slice length is used instead."
Limited(bytes, limit) == IF limit <= 0 \/ limit > Len(bytes) THEN bytes ELSE SubSeq(bytes, 1, limit)

\* Published test vectors: "", "a", "foobar".
foobar == <<102, 111, 111, 98, 97, 114>>
ASSUME Hash32(<< >>) = Basis32 /\ Hash64(<< >>) = Basis64
ASSUME Hash32(<<97>>) = <<58380, 10540>>                          \* e40c 292c
ASSUME Hash32(foobar) = <<49052, 63848>>                          \* bf9c f968
ASSUME Hash64(<<97>>) = <<44899, 56396, 34305, 60556>>            \* af63 dc4c 8601 ec8c
ASSUME Hash64(foobar) = <<34196, 16753, 63289, 26600>>             \* 8594 4171 f739 67e8
=============================================================================
