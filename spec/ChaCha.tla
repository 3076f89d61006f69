------------------------------- MODULE ChaCha -------------------------------
(* The ChaCha block function with Rounds rounds.  A 32-bit word is a pair     *)
(* << high half, low half >>, so that TLC's integers suffice.                 *)
EXTENDS Naturals, Sequences, Bitwise
Rounds == 8
Plus(a, b) == LET l == a[2] + b[2]  c == a[1] + b[1] + l \div 65536 IN << c % 65536, l % 65536 >>
XorW(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
\* rotation to the left by n < 16
Rot(a, n) == LET p == 2 ^ n  q == 2 ^ (16 - n) IN << (a[1] % q) * p + a[2] \div q, (a[2] % q) * p + a[1] \div q >>
Rot16(a) == << a[2], a[1] >>
QR(s, a, b, c, d) ==
    LET a1 == Plus(s[a], s[b])  d1 == Rot16(XorW(s[d], a1))
        c1 == Plus(s[c], d1)    b1 == Rot(XorW(s[b], c1), 12)
        a2 == Plus(a1, b1)      d2 == Rot(XorW(d1, a2), 8)
        c2 == Plus(c1, d2)      b2 == Rot(XorW(b1, c2), 7)
    IN [s EXCEPT ![a] = a2, ![b] = b2, ![c] = c2, ![d] = d2]
Double(s0) ==
    LET s1 == QR(s0, 1, 5, 9, 13)   s2 == QR(s1, 2, 6, 10, 14)
        s3 == QR(s2, 3, 7, 11, 15)  s4 == QR(s3, 4, 8, 12, 16)
        s5 == QR(s4, 1, 6, 11, 16)  s6 == QR(s5, 2, 7, 12, 13)
        s7 == QR(s6, 3, 8, 9, 14)
    IN QR(s7, 4, 5, 10, 15)
RECURSIVE Doubles(_, _)
Doubles(s, n) == IF n = 0 THEN s ELSE Doubles(Double(s), n - 1)
\* little endian word of four bytes at index i
W(k, i) == << k[i + 2] + 256 * k[i + 3], k[i] + 256 * k[i + 1] >>
Sigma == << << 24944, 30821 >>, << 13088, 25710 >>, << 31074, 11570 >>, << 27424, 25972 >> >>
\* key: 32 bytes, iv: 8 bytes, ctr: number of the block, below 2^31
Start(key, iv, ctr) ==
    << Sigma[1], Sigma[2], Sigma[3], Sigma[4],
       W(key, 1), W(key, 5), W(key, 9), W(key, 13), W(key, 17), W(key, 21), W(key, 25), W(key, 29),
       << ctr \div 65536, ctr % 65536 >>, << 0, 0 >>, W(iv, 1), W(iv, 5) >>
Bytes(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>
RECURSIVE Out(_, _, _)
Out(s, t, i) == IF i > 16 THEN <<>> ELSE Bytes(Plus(s[i], t[i])) \o Out(s, t, i + 1)
Block(key, iv, ctr) == LET s == Start(key, iv, ctr) IN Out(s, Doubles(s, Rounds \div 2), 1)
\* a published test vector: all-zero key and nonce
Zero(n) == [i \in 1..n |-> 0]
ASSUME SubSeq(Block(Zero(32), Zero(8), 0), 1, 16) = << 62, 0, 239, 47, 137, 95, 64, 214, 127, 91, 184, 232, 31, 9, 165, 161 >>
=============================================================================
