----------------------------- MODULE SoqlRandom -----------------------------
(* Pure pseudo-random choices: a seed is a pair below 46337 (so that squares *)
(* fit 31 bits); D derives an independent seed, the others consume one.      *)
EXTENDS Naturals, Integers, Sequences
LOCAL M == 46337
LOCAL Mix(s, k) ==
  << (((s[1] * s[1]) % M) + s[2] * 31 + k * 7919 + 17) % M,
     (((s[2] * s[2]) % M) + s[1] * 97 + k * 3571 + 5741) % M >>
D(s, k) == Mix(Mix(s, k), k + 1)
Seed(n, k) == D(D(<< n % M, (n \div M) % M >>, k % M), (k \div M) + 3)
Below(s, n) == (s[1] * 40009 + s[2]) % n
Pct(s, k, p) == Below(D(s, k), 100) < p
Pick(s, k, seq) == seq[1 + Below(D(s, k), Len(seq))]
=============================================================================
