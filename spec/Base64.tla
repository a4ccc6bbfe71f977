------------------------------- MODULE Base64 -----------------------------
(* RFC 4648 base64; text is a sequence of character codes.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Char64(n) == IF n < 26 THEN 65 + n ELSE IF n < 52 THEN 71 + n ELSE IF n < 62 THEN n - 4 ELSE IF n = 62 THEN 43 ELSE 47
InAlphabet(c) == c \in 65..90 \/ c \in 97..122 \/ c \in 48..57 \/ c = 43 \/ c = 47
Val64(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE 63
PADC == 61

RECURSIVE Enc64(_)
Enc64(bs) ==
  IF bs = <<>> THEN <<>>
  ELSE LET n == Len(bs)
           a == bs[1]
           b == IF n > 1 THEN bs[2] ELSE 0
           d == IF n > 2 THEN bs[3] ELSE 0
           q == <<Char64(a \div 4), Char64((a % 4) * 16 + b \div 16),
                  IF n > 1 THEN Char64((b % 16) * 4 + d \div 64) ELSE PADC,
                  IF n > 2 THEN Char64(d % 64) ELSE PADC>>
       IN q \o Enc64(SubSeq(bs, 4, n))

\* characters outside the alphabet (line ends, blanks) carry nothing
Sift(cs) == SelectSeq(cs, LAMBDA c : InAlphabet(c))
RECURSIVE Join(_)
Join(vs) == \* of 6-bit values; a group of 2 or 3 is the last one
  IF Len(vs) < 2 THEN <<>>
  ELSE LET w == IF Len(vs) >= 4 THEN 4 ELSE Len(vs)
           x == vs[1] * 4 + vs[2] \div 16
           y == IF w > 2 THEN <<(vs[2] % 16) * 16 + vs[3] \div 4>> ELSE <<>>
           u == IF w > 3 THEN <<(vs[3] % 4) * 64 + vs[4]>> ELSE <<>>
       IN <<x>> \o y \o u \o Join(SubSeq(vs, w + 1, Len(vs)))
Dec64(cs) == LET s == Sift(cs) IN Join([i \in 1..Len(s) |-> Val64(s[i])])
===========================================================================
