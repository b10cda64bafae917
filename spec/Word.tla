-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* 256-bit EVM words and their arithmetic.                                 *)
(*                                                                         *)
(* A word is a tuple of 32 bytes, most significant byte first.  TLC's      *)
(* integers are 32-bit, so multiplication and division work on digit       *)
(* sequences of base 2^12 (least significant digit first): 22 digits cover *)
(* 264 bits, digit products are below 2^24 and sums of 22 of them below    *)
(* 2^29, so no intermediate value overflows.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

\* TLC evaluates function constructors lazily; E forces a plain tuple.
E(f) == TLCEval(f)

Byte == 0..255
Zero == E([i \in 1..32 |-> 0])
One  == E([i \in 1..32 |-> IF i = 32 THEN 1 ELSE 0])
MaxWord == E([i \in 1..32 |-> 255])

IsWord(w) == Len(w) = 32 /\ \A i \in 1..32 : w[i] \in 0..255

\* Trimmed big-endian byte sequence -> word.
Pad32(s) == IF Len(s) = 32 THEN s
            ELSE [i \in 1..32 |-> IF i <= 32 - Len(s) THEN 0 ELSE s[i - (32 - Len(s))]]

\* Natural number below 2^31 -> word.
FromNat(n) == [i \in 1..32 |-> CASE i = 32 -> n % 256
                                 [] i = 31 -> (n \div 256) % 256
                                 [] i = 30 -> (n \div 65536) % 256
                                 [] i = 29 -> (n \div 16777216) % 256
                                 [] OTHER -> 0]

\* Word -> natural number; Huge when it is 2^30 or more.
Huge == 1073741824
ToNat(w) == IF w[29] >= 64 \/ \E i \in 1..28 : w[i] # 0 THEN Huge
            ELSE w[29] * 16777216 + w[30] * 65536 + w[31] * 256 + w[32]

IsZero(w) == w = Zero
Neg256(w) == w[1] >= 128

FromBool(b) == IF b THEN One ELSE Zero

\* --- comparison ---------------------------------------------------------
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > 32 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE LtFrom(a, b, i + 1)
Lt(a, b) == LtFrom(a, b, 1)
Gt(a, b) == LtFrom(b, a, 1)
Le(a, b) == ~ Gt(a, b)
Slt(a, b) == IF Neg256(a) # Neg256(b) THEN Neg256(a) ELSE Lt(a, b)

\* --- bitwise ------------------------------------------------------------
WAnd(a, b) == E([i \in 1..32 |-> a[i] & b[i]])
WOr(a, b)  == E([i \in 1..32 |-> a[i] | b[i]])
WXor(a, b) == E([i \in 1..32 |-> a[i] ^^ b[i]])
WNot(a)    == E([i \in 1..32 |-> 255 - a[i]])

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8
             [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] OTHER -> 256

\* Shift amounts are naturals below 256.
ShlN(a, n) == LET s == n \div 8  b == n % 8
                  At(i) == IF i > 32 THEN 0 ELSE a[i]
              IN [i \in 1..32 |-> ((At(i + s) * Pow2(b)) % 256) + (At(i + s + 1) \div Pow2(8 - b))]
\* Logical right shift filling with the byte f (0 or 255).
ShrFill(a, n, f) == LET s == n \div 8  b == n % 8
                        At(i) == IF i < 1 THEN f ELSE a[i]
                    IN [i \in 1..32 |-> (At(i - s) \div Pow2(b)) + ((At(i - s - 1) * Pow2(8 - b)) % 256)]
Shl(sh, a) == LET n == ToNat(sh) IN IF n >= 256 THEN Zero ELSE ShlN(a, n)
Shr(sh, a) == LET n == ToNat(sh) IN IF n >= 256 THEN Zero ELSE ShrFill(a, n, 0)
Sar(sh, a) == LET n == ToNat(sh)
                  f == IF Neg256(a) THEN 255 ELSE 0
              IN IF n >= 256 THEN [i \in 1..32 |-> f] ELSE ShrFill(a, n, f)

ByteOf(i, a) == LET n == ToNat(i) IN IF n >= 32 THEN Zero ELSE FromNat(a[n + 1])

SignExtend(k, a) == LET n == ToNat(k) IN
                    IF n >= 31 THEN a
                    ELSE LET f == IF a[32 - n] >= 128 THEN 255 ELSE 0
                         IN [i \in 1..32 |-> IF i < 32 - n THEN f ELSE a[i]]

\* --- addition -----------------------------------------------------------
\* The 16 two-byte digits of a + b + cin, least significant first.
Digits16 == E([k \in 1..16 |-> 33 - 2 * k])   \* index of the high byte of digit k
AddC(a, b, cin) ==
  LET F(acc, p) == LET t == a[p] * 256 + a[p + 1] + b[p] * 256 + b[p + 1] + acc[1]
                   IN << t \div 65536, <<(t \div 256) % 256, t % 256>> \o acc[2] >>
  IN FoldLeft(F, <<cin, << >> >>, Digits16)
Add(a, b) == AddC(a, b, 0)[2]
AddOverflows(a, b) == AddC(a, b, 0)[1] = 1
Sub(a, b) == AddC(a, WNot(b), 1)[2]
NegW(a) == Sub(Zero, a)

\* --- digit sequences of base 4096, least significant first ----------------
Base == 4096
Idx(n) == E([i \in 1..n |-> i])
\* Byte number k (0 = least significant) of the word.
LeByte(a, k) == IF k >= 32 THEN 0 ELSE a[32 - k]
ToD(a) == E([i \in 1..22 |->
             LET g == (i - 1) \div 2  IN
             IF i % 2 = 1 THEN LeByte(a, 3 * g) + (LeByte(a, 3 * g + 1) % 16) * 256
             ELSE LeByte(a, 3 * g + 1) \div 16 + LeByte(a, 3 * g + 2) * 16])
DAt(d, i) == IF i > Len(d) THEN 0 ELSE d[i]
\* Digits -> word, modulo 2^256.
FromD(d) == E([j \in 1..32 |->
              LET k == 32 - j   g == k \div 3   r == k % 3
                  lo == DAt(d, 2 * g + 1)   hi == DAt(d, 2 * g + 2)
              IN CASE r = 0 -> lo % 256
                   [] r = 1 -> lo \div 256 + (hi % 16) * 16
                   [] OTHER -> hi \div 16])

\* Carry propagation over the (big) digit values V(1), ..., V(n).
Carry(V(_), n) ==
  FoldLeft(LAMBDA acc, k : LET t == V(k) + acc[1] IN << t \div Base, Append(acc[2], t % Base) >>,
           << 0, << >> >>, Idx(n))[2]

\* Sum of a[i] * b[k + 1 - i].
SumProd(a, b, k) ==
  LET lo == IF k > Len(b) THEN k - Len(b) + 1 ELSE 1
      hi == IF k < Len(a) THEN k ELSE Len(a)
  IN FoldLeft(LAMBDA acc, i : IF i < lo THEN acc ELSE acc + a[i] * b[k + 1 - i], 0, Idx(hi))

\* Product of two digit sequences, truncated to n digits.
MulD(a, b, n) == LET V(k) == SumProd(a, b, k) IN Carry(V, n)

TrimD(d) == LET n == FoldLeft(LAMBDA acc, i : IF d[i] # 0 THEN i ELSE acc, 0, Idx(Len(d)))
            IN SubSeq(d, 1, n)

\* d * s for a single digit s, with one extra digit.
ScaleD(d, s) == LET V(k) == DAt(d, k) * s IN Carry(V, Len(d) + 1)
AddD(a, b, n) == LET V(k) == DAt(a, k) + DAt(b, k) IN Carry(V, n)

\* a - b modulo Base^Len(a).  First component: borrow out.
SubDB(a, b) ==
  FoldLeft(LAMBDA acc, k : LET t == a[k] - DAt(b, k) - acc[1]
                           IN << IF t < 0 THEN 1 ELSE 0, Append(acc[2], (t + Base) % Base) >>,
           << 0, << >> >>, Idx(Len(a)))

Reversed(n) == E([i \in 1..n |-> n + 1 - i])

\* Division of a digit sequence by a single digit: <<quotient, remainder>>.
DivSmall(u, s) ==
  LET r == FoldLeft(LAMBDA acc, k : LET t == acc[1] * Base + u[k]
                                    IN << t % s, <<t \div s>> \o acc[2] >>,
                    << 0, << >> >>, Reversed(Len(u)))
  IN << r[2], <<r[1]>> >>

\* Schoolbook division with quotient digit estimation (Len(v) >= 2, leading
\* digit of v at least Base/2).  The estimate is never too small and at most
\* two too big, so at most two corrections are needed.
DivNorm(u, v) ==
  LET n == Len(v)
      vt == v[n]
      \* c = <<borrow, quotient digit, remainder>>: add v back while negative
      Fix(c) == IF c[1] = 0 THEN c
                ELSE LET s == AddD(c[3], v, n + 1)
                     IN << IF SubDB(s, c[3])[1] = 1 THEN 0 ELSE 1, c[2] - 1, s >>
      D(acc, k) ==
        LET w == <<u[k]>> \o acc[1]        \* n + 1 digits
            est == (w[n + 1] * Base + w[n]) \div vt
            qh == IF est > Base - 1 THEN Base - 1 ELSE est
            d == SubDB(w, ScaleD(v, qh))
            f == Fix(Fix(<<d[1], qh, d[2]>>))
        IN << SubSeq(f[3], 1, n), <<f[2]>> \o acc[2] >>
      r == FoldLeft(D, << E([i \in 1..n |-> 0]), << >> >>, Reversed(Len(u)))
  IN << r[2], r[1] >>

\* Quotient and remainder of digit sequences; v # 0.
DivModD(u0, v0) ==
  LET u == TrimD(u0)  v == TrimD(v0) IN
  IF Len(u) < Len(v) THEN << << >>, u >>
  ELSE IF Len(v) = 1 THEN DivSmall(u, v[1])
  ELSE LET s == Base \div (v[Len(v)] + 1)
           vn == SubSeq(ScaleD(v, s), 1, Len(v))
           un == ScaleD(u, s)
           r == DivNorm(un, vn)
       IN << r[1], IF s = 1 THEN r[2] ELSE DivSmall(r[2], s)[1] >>

\* --- multiplication, division, exponentiation -----------------------------
Mul(a, b) == FromD(MulD(ToD(a), ToD(b), 22))
Div(a, b) == IF IsZero(b) THEN Zero ELSE FromD(DivModD(ToD(a), ToD(b))[1])
Mod(a, b) == IF IsZero(b) THEN Zero ELSE FromD(DivModD(ToD(a), ToD(b))[2])
Abs(a) == IF Neg256(a) THEN NegW(a) ELSE a
Sdiv(a, b) == IF IsZero(b) THEN Zero
              ELSE LET q == Div(Abs(a), Abs(b))
                   IN IF Neg256(a) # Neg256(b) THEN NegW(q) ELSE q
Smod(a, b) == IF IsZero(b) THEN Zero
              ELSE LET r == Mod(Abs(a), Abs(b)) IN IF Neg256(a) THEN NegW(r) ELSE r
AddMod(a, b, m) == IF IsZero(m) THEN Zero
                   ELSE FromD(DivModD(AddD(ToD(a), ToD(b), 23), ToD(m))[2])
MulMod(a, b, m) == IF IsZero(m) THEN Zero
                   ELSE FromD(DivModD(MulD(ToD(a), ToD(b), 44), ToD(m))[2])

\* Number of significant bytes.
ByteLen(a) == LET RECURSIVE B(_)
                  B(i) == IF i > 32 THEN 0 ELSE IF a[i] # 0 THEN 33 - i ELSE B(i + 1)
              IN B(1)

\* Bit k (0 = least significant).
BitOf(a, k) == (a[32 - (k \div 8)] \div Pow2(k % 8)) % 2

Exp(a, e) ==
  LET ad == ToD(a)
      P(acc, k) == LET sq == MulD(acc, acc, 22)
                   IN IF BitOf(e, k - 1) = 1 THEN MulD(sq, ad, 22) ELSE sq
      one == E([i \in 1..22 |-> IF i = 1 THEN 1 ELSE 0])
  IN IF IsZero(e) THEN One ELSE FromD(FoldLeft(P, one, Reversed(8 * ByteLen(e))))

\* The low 160 bits, as a word.
AddrOf(a) == E([i \in 1..32 |-> IF i <= 12 THEN 0 ELSE a[i]])
=============================================================================
