-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* The value types of Tosca's Go interfaces: amounts, storage statuses,    *)
(* revisions and call kinds, and their textual encodings.                  *)
(*                                                                         *)
(* Values are words (32 bytes, module Word), texts are sequences of        *)
(* character codes.                                                        *)
(***************************************************************************)
EXTENDS Word, Sequences, FiniteSets

ZeroB == 48
\* --- numbers in text ---------------------------------------------------------
IsDigit(c) == c \in 48..57
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 97..102 -> c - 87 [] c \in 65..70 -> c - 55 [] OTHER -> -1
HexChar(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexOf(bs) == E([i \in 1..(2 * Len(bs)) |-> LET b == bs[(i + 1) \div 2] IN IF i % 2 = 1 THEN HexChar(b \div 16) ELSE HexChar(b % 16)])

\* The amount a sequence of decimal digits denotes.
DecValue(ds) == FoldLeft(LAMBDA v, c : Add(Mul(v, FromNat(10)), FromNat(c - 48)), Zero, ds)
\* s is the decimal representation of word a.
IsDecimal(s, a) == /\ Len(s) \in 1..78 /\ \A i \in 1..Len(s) : IsDigit(s[i])
                   /\ Len(s) > 1 => s[1] # ZeroB
                   /\ DecValue(s) = a

\* --- fixed-size byte strings -----------------------------------------------------
Text(bs) == <<48, 120>> \o HexOf(bs)
IsText(s, n) == Len(s) = 2 + 2 * n /\ s[1] = 48 /\ s[2] = 120 /\ \A i \in 3..Len(s) : HexVal(s[i]) >= 0
Bytes(s) == E([i \in 1..((Len(s) - 2) \div 2) |-> 16 * HexVal(s[2 * i + 1]) + HexVal(s[2 * i + 2])])

\* 256-bit integers of the conformance tool: four groups of 16 digits.
Group(bs, g) == HexOf(SubSeq(bs, 8 * g + 1, 8 * g + 8))
UText(bs) == Group(bs, 0) \o <<32>> \o Group(bs, 1) \o <<32>> \o Group(bs, 2) \o <<32>> \o Group(bs, 3)
IsUText(s) == Len(s) = 67 /\ \A i \in 1..67 : IF i \in {17, 34, 51} THEN s[i] = 32 ELSE HexVal(s[i]) >= 0
UBytes(s) == LET d == SelectSeq(s, LAMBDA c : c # 32) IN E([i \in 1..32 |-> 16 * HexVal(d[2 * i - 1]) + HexVal(d[2 * i])])

\* --- storage statuses ---------------------------------------------------------------
\* Pattern original -> current -> new, where 0 is zero and X, Y, Z are distinct non-zero values.
Status(o, c, n) ==
  CASE c = n -> "StorageAssigned"
    [] c # n /\ o = c /\ IsZero(o) -> "StorageAdded"                                           \* 0 -> 0 -> Z
    [] c # n /\ o = c /\ ~IsZero(o) /\ IsZero(n) -> "StorageDeleted"                          \* X -> X -> 0
    [] c # n /\ o = c /\ ~IsZero(o) /\ ~IsZero(n) -> "StorageModified"                        \* X -> X -> Z
    [] c # n /\ o # c /\ ~IsZero(o) /\ IsZero(c) /\ n # o -> "StorageDeletedAdded"            \* X -> 0 -> Z
    [] c # n /\ o # c /\ ~IsZero(o) /\ ~IsZero(c) /\ IsZero(n) -> "StorageModifiedDeleted"    \* X -> Y -> 0
    [] c # n /\ o # c /\ ~IsZero(o) /\ IsZero(c) /\ n = o -> "StorageDeletedRestored"         \* X -> 0 -> X
    [] c # n /\ o # c /\ IsZero(o) /\ IsZero(n) -> "StorageAddedDeleted"                      \* 0 -> Y -> 0
    [] c # n /\ o # c /\ ~IsZero(o) /\ ~IsZero(c) /\ n = o -> "StorageModifiedRestored"       \* X -> Y -> X
    [] c # n /\ o # c /\ n # o /\ ~IsZero(c) /\ ~IsZero(n) -> "StorageAssigned"               \* . -> Y -> Z
StatusNames == <<"StorageAssigned", "StorageAdded", "StorageDeleted", "StorageModified", "StorageDeletedAdded", "StorageModifiedDeleted",
                 "StorageDeletedRestored", "StorageAddedDeleted", "StorageModifiedRestored">>
\* Bytes to words, rounded up.
SizeInWords(n) == Div(Add(n, FromNat(31)), FromNat(32))

\* --- revisions -----------------------------------------------------------------------
RevisionTexts == << <<73, 115, 116, 97, 110, 98, 117, 108>>, <<66, 101, 114, 108, 105, 110>>, <<76, 111, 110, 100, 111, 110>>, <<80, 97, 114, 105, 115>>,
                   <<83, 104, 97, 110, 103, 104, 97, 105>>, <<67, 97, 110, 99, 117, 110>> >>
RECURSIVE DecOf(_)
DecOf(n) == IF n < 10 THEN <<48 + n>> ELSE DecOf(n \div 10) \o <<48 + (n % 10)>>
Prefix == <<82, 101, 118, 105, 115, 105, 111, 110, 40>>   \* Revision(
RevisionText(n) == IF n < 6 THEN RevisionTexts[n + 1] ELSE Prefix \o DecOf(n) \o <<41>>
\* Number of leading zeros that do not count.
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 48 THEN Strip(Tail(ds)) ELSE ds
Named(s) == {i \in 1..6 : RevisionTexts[i] = s}
Digits(s) == SubSeq(s, 10, Len(s) - 1)
MaxInt64 == <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>
RECURSIVE LeDigits(_, _)
LeDigits(a, b) == IF a = << >> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LeDigits(Tail(a), Tail(b))
FitsInt(ds) == Len(ds) < 19 \/ (Len(ds) = 19 /\ LeDigits(ds, MaxInt64))
IsNumbered(s) == /\ Len(s) >= 11 /\ SubSeq(s, 1, 9) = Prefix /\ s[Len(s)] = 41
                 /\ \A i \in 1..Len(Digits(s)) : IsDigit(Digits(s)[i])
                 /\ FitsInt(Strip(Digits(s)))
\* The decimal text of the number of the revision a text denotes.
RevisionOf(s) == IF Named(s) # {} THEN DecOf((CHOOSE i \in Named(s) : TRUE) - 1) ELSE Strip(Digits(s))
IsRevision(s) == Named(s) # {} \/ IsNumbered(s)

\* Blocks of the conformance tool: revision k starts at block and time 1000 k, unknown revisions at 6000.
RevisionAt(b) == IF b >= 6000 THEN 99 ELSE b \div 1000

\* --- call kinds --------------------------------------------------------------------------
Lower(s) == E([i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]])
KindTexts == [call |-> <<99, 97, 108, 108>>, static_call |-> <<115, 116, 97, 116, 105, 99, 95, 99, 97, 108, 108>>,
              delegate_call |-> <<100, 101, 108, 101, 103, 97, 116, 101, 95, 99, 97, 108, 108>>, call_code |-> <<99, 97, 108, 108, 95, 99, 111, 100, 101>>,
              create |-> <<99, 114, 101, 97, 116, 101>>, create2 |-> <<99, 114, 101, 97, 116, 101, 50>>]
KindsOf(s) == {k \in DOMAIN KindTexts : KindTexts[k] = Lower(s)}
==============================================================================
