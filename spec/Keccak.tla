------------------------------- MODULE Keccak -------------------------------
(***************************************************************************)
(* Keccak-256 (the hash of Ethereum).  A lane is a 64-bit word given as    *)
(* four 16-bit chunks, least significant first; the state is a sequence of *)
(* 25 lanes, lane (x, y) at index x + 5 y + 1.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC
LOCAL EV(f) == TLCEval(f)

P2 == EV([n \in 1..17 |-> 2 ^ (n - 1)])          \* P2[n + 1] = 2^n
X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
X5(a, b, c, d, e) == X2(X2(X2(a, b), X2(c, d)), e)
\* a xor (not b and c)
Chi1(a, b, c) == a ^^ ((65535 - b) & c)
ChiL(a, b, c) == <<Chi1(a[1], b[1], c[1]), Chi1(a[2], b[2], c[2]), Chi1(a[3], b[3], c[3]), Chi1(a[4], b[4], c[4])>>
\* Rotation to the left by n < 64 bits.
Rot(a, n) ==
  LET s == n \div 16  b == n % 16
      C(i) == a[((i - 1 - s + 8) % 4) + 1]
      R(i) == IF b = 0 THEN C(i) ELSE ((C(i) * P2[b + 1]) % 65536) + (C(i - 1) \div P2[17 - b])
  IN <<R(1), R(2), R(3), R(4)>>

Offsets == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
RoundConstants == <<
  <<1, 0, 0, 0>>, <<32898, 0, 0, 0>>, <<32906, 0, 0, 32768>>, <<32768, 32768, 0, 32768>>, <<32907, 0, 0, 0>>,
  <<1, 32768, 0, 0>>, <<32897, 32768, 0, 32768>>, <<32777, 0, 0, 32768>>, <<138, 0, 0, 0>>, <<136, 0, 0, 0>>,
  <<32777, 32768, 0, 0>>, <<10, 32768, 0, 0>>, <<32907, 32768, 0, 0>>, <<139, 0, 0, 32768>>, <<32905, 0, 0, 32768>>,
  <<32771, 0, 0, 32768>>, <<32770, 0, 0, 32768>>, <<128, 0, 0, 32768>>, <<32778, 0, 0, 0>>, <<10, 32768, 0, 32768>>,
  <<32897, 32768, 0, 32768>>, <<32896, 0, 0, 32768>>, <<1, 32768, 0, 0>>, <<32776, 32768, 0, 32768>> >>

\* Where lane i of rho/pi output comes from: B[y, 2x+3y] = rot(A[x, y]).
PiSource == EV([j \in 1..25 |-> LET X == (j - 1) % 5  Y == (j - 1) \div 5
                                    \* X = y, Y = (2x + 3y) mod 5  =>  x = (X + 3 Y) mod 5
                                    x == (X + 3 * Y) % 5  y == X
                                IN x + 5 * y + 1])
Round(A, rc) ==
  LET C == EV([x \in 1..5 |-> X5(A[x], A[x + 5], A[x + 10], A[x + 15], A[x + 20])])
      D == EV([x \in 1..5 |-> X2(C[((x + 3) % 5) + 1], Rot(C[(x % 5) + 1], 1))])
      T == EV([i \in 1..25 |-> X2(A[i], D[((i - 1) % 5) + 1])])
      B == EV([j \in 1..25 |-> Rot(T[PiSource[j]], Offsets[PiSource[j]])])
      E1 == EV([i \in 1..25 |-> LET y == 5 * ((i - 1) \div 5)  x == (i - 1) % 5
                                IN ChiL(B[i], B[y + ((x + 1) % 5) + 1], B[y + ((x + 2) % 5) + 1])])
  IN EV([E1 EXCEPT ![1] = X2(E1[1], rc)])
Permute(A) == FoldLeft(Round, A, RoundConstants)

ZeroState == EV([i \in 1..25 |-> <<0, 0, 0, 0>>])
\* Block number n (from 0) of the padded message, as 17 lanes.
PadByte(m, i, total) == (IF i <= Len(m) THEN m[i] ELSE IF i = Len(m) + 1 THEN 1 ELSE 0) + (IF i = total THEN 128 ELSE 0)
Keccak256(m) ==
  LET blocks == Len(m) \div 136 + 1
      total == blocks * 136
      Lane(p) == EV([c \in 1..4 |-> PadByte(m, p + 2 * c - 1, total) + 256 * PadByte(m, p + 2 * c, total)])
      Absorb(A, n) == Permute(EV([i \in 1..25 |-> IF i <= 17 THEN X2(A[i], Lane((n - 1) * 136 + (i - 1) * 8)) ELSE A[i]]))
      S == FoldLeft(Absorb, ZeroState, EV([i \in 1..blocks |-> i]))
  IN EV([i \in 1..32 |-> LET l == S[((i - 1) \div 8) + 1]  b == (i - 1) % 8
                         IN IF b % 2 = 0 THEN l[(b \div 2) + 1] % 256 ELSE l[(b \div 2) + 1] \div 256])

ASSUME Keccak256(<< >>) = <<197, 210, 70, 1, 134, 247, 35, 60, 146, 126, 125, 178, 220, 199, 3, 192,
                            229, 0, 182, 83, 202, 130, 39, 59, 123, 250, 216, 4, 93, 133, 164, 112>>
=============================================================================
