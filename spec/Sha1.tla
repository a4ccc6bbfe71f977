-------------------------------- MODULE Sha1 ------------------------------
(* FIPS 180-1.  A word is a pair of 16 bit halves: TLC has 32 bit integers.  *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE TLC
LOCAL INSTANCE Bitwise

HALF == 65536
X(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
N(a, b) == <<a[1] & b[1], a[2] & b[2]>>
U(a, b) == <<a[1] | b[1], a[2] | b[2]>>
C(a) == <<(HALF - 1) - a[1], (HALF - 1) - a[2]>>
Add2(a, b) == LET lo == a[2] + b[2] IN <<(a[1] + b[1] + (lo \div HALF)) % HALF, lo % HALF>>
\* rotate left by n, n < 16
Rot(a, n) == LET p == 2 ^ n q == 2 ^ (16 - n)
             IN <<((a[1] % q) * p) + (a[2] \div q), ((a[2] % q) * p) + (a[1] \div q)>>
Rot30(a) == LET s == <<a[2], a[1]>> IN Rot(s, 14)

K(t) == IF t < 20 THEN <<23170, 31129>> ELSE IF t < 40 THEN <<28377, 60321>>
        ELSE IF t < 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
F(t, b, c, d) == IF t < 20 THEN U(N(b, c), N(C(b), d))
                 ELSE IF t >= 40 /\ t < 60 THEN U(U(N(b, c), N(b, d)), N(c, d)) ELSE X(X(b, c), d)
H0 == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>

Padded(m) == LET z == (119 - (Len(m) % 64)) % 64 l == Len(m) * 8
             IN m \o <<128>> \o [i \in 1..z |-> 0] \o <<0, 0, 0, 0, 0, (l \div 65536) % 256, (l \div 256) % 256, l % 256>>
Word(m, i) == <<m[i] * 256 + m[i + 1], m[i + 2] * 256 + m[i + 3]>>
\* the message schedule of the block that starts behind octet p
RECURSIVE Sched(_, _)
Sched(w, t) == IF t > 80 THEN w
               ELSE Sched(Append(w, TLCEval(Rot(X(X(w[t - 3], w[t - 8]), X(w[t - 14], w[t - 16])), 1))), t + 1)
Round(w, s, t) ==
  LET tmp == Add2(Add2(Add2(Rot(s[1], 5), F(t, s[2], s[3], s[4])), s[5]), Add2(w[t + 1], K(t)))
  IN <<tmp, s[1], Rot30(s[2]), s[3], s[4]>>
Block(m, p, h) ==
  LET w == TLCEval(Sched([i \in 1..16 |-> Word(m, p + 4 * i - 3)], 17))
      s == FoldLeft(LAMBDA a, t : TLCEval(Round(w, a, t - 1)), h, [t \in 1..80 |-> t])
  IN [i \in 1..5 |-> Add2(h[i], s[i])]
SHA1(m) ==
  LET x == TLCEval(Padded(m))
      h == FoldLeft(LAMBDA a, b : TLCEval(Block(x, (b - 1) * 64, a)), H0, [b \in 1..(Len(x) \div 64) |-> b])
  IN [i \in 1..20 |-> LET w == h[((i - 1) \div 4) + 1] j == (i - 1) % 4
                      IN CASE j = 0 -> w[1] \div 256 [] j = 1 -> w[1] % 256 [] j = 2 -> w[2] \div 256 [] OTHER -> w[2] % 256]

\* FIPS 180-1, appendices A and B
ASSUME SHA1(<<97, 98, 99>>) = <<169, 153, 62, 54, 71, 6, 129, 106, 186, 62, 37, 113, 120, 80, 194, 108, 156, 208, 216, 157>>
ASSUME SHA1(<<97,98,99,100,98,99,100,101,99,100,101,102,100,101,102,103,101,102,103,104,102,103,104,105,103,104,105,106,104,105,106,107,
              105,106,107,108,106,107,108,109,107,108,109,110,108,109,110,111,109,110,111,112,110,111,112,113>>)
       = <<132, 152, 62, 68, 28, 59, 210, 110, 186, 174, 74, 161, 249, 81, 41, 229, 229, 70, 112, 241>>
===========================================================================
