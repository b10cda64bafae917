------------------------------ MODULE HashBytes ------------------------------
(***************************************************************************)
(* The hash of byte strings (cpp/common/hash_utils.h) as a transition      *)
(* system: a 64-bit seed absorbs the key's 32-bit little-endian words and  *)
(* then the remaining bytes, one per step.  Absorbing h:                   *)
(*    seed' = seed xor (h + 0x9e3779b9 + (seed << 6) + (seed >> 2)).       *)
(* 64-bit numbers are four 16-bit limbs, least significant first.          *)
(*                                                                         *)
(* Each line of the file is [key, hash]: a key and the hash the real code  *)
(* computed, as limbs, in several placements.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, Json, IOUtils, TLC
Obs == ndJsonDeserialize(IOEnv.TRACES)
W == 65536
VARIABLES k, pos, seed

Add4(a, b) ==
  LET s1 == a[1] + b[1]
      s2 == a[2] + b[2] + s1 \div W
      s3 == a[3] + b[3] + s2 \div W
      s4 == a[4] + b[4] + s3 \div W
  IN <<s1 % W, s2 % W, s3 % W, s4 % W>>
Xor4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
Shl6(a) == <<(a[1] * 64) % W, ((a[2] * 64) % W) + a[1] \div 1024, ((a[3] * 64) % W) + a[2] \div 1024, ((a[4] * 64) % W) + a[3] \div 1024>>
Shr2(a) == <<a[1] \div 4 + (a[2] % 4) * 16384, a[2] \div 4 + (a[3] % 4) * 16384, a[3] \div 4 + (a[4] % 4) * 16384, a[4] \div 4>>
Golden == <<31161, 40503, 0, 0>>      \* 0x9e3779b9
Absorb(s, h) == Xor4(s, Add4(Add4(Add4(h, Golden), Shl6(s)), Shr2(s)))

Key == Obs[k].key
Init == k \in 1..Len(Obs) /\ pos = 0 /\ seed = <<0, 0, 0, 0>>
Next == /\ pos < Len(Key) /\ k' = k
        /\ IF pos + 4 <= Len(Key)
           THEN /\ seed' = Absorb(seed, <<Key[pos + 1] + 256 * Key[pos + 2], Key[pos + 3] + 256 * Key[pos + 4], 0, 0>>)
                /\ pos' = pos + 4
           ELSE seed' = Absorb(seed, <<Key[pos + 1], 0, 0, 0>>) /\ pos' = pos + 1
Limbs == \A i \in 1..4 : seed[i] \in 0..(W - 1)
Agrees == pos = Len(Key) => \A i \in 1..Len(Obs[k].hash) : Obs[k].hash[i] = seed \/ PrintT(ToString(<<"BAD", k, i, seed>>))
=============================================================================
