----------------------------- MODULE Numerals -----------------------------
(***************************************************************************)
(* Exact arithmetic between decimal numerals (text) and bit strings.       *)
(* TLC integers have 32 bits, tag fields up to 62, so numbers are handled  *)
(* as limbs: base 2^15 when going to bits, base 10^4 when coming from bits.*)
(* A bit string is a sequence of 0 and 1, most significant bit first.      *)
(***************************************************************************)
EXTENDS Text

Pow2 == [k \in 0..30 |-> 2^k]
LimbBits == 15
LimbBase == 32768
NLimbs == 6              \* 90 bits; enough for 27 decimal digits
MaxDigits == 27

(* acc * m + a on little-endian limbs; the caller guarantees no overflow   *)
MulAdd2(x, m, a) ==
  LET t1 == x[1] * m + a
      t2 == x[2] * m + t1 \div LimbBase
      t3 == x[3] * m + t2 \div LimbBase
      t4 == x[4] * m + t3 \div LimbBase
      t5 == x[5] * m + t4 \div LimbBase
      t6 == x[6] * m + t5 \div LimbBase
  IN <<t1 % LimbBase, t2 % LimbBase, t3 % LimbBase,
       t4 % LimbBase, t5 % LimbBase, t6 % LimbBase>>

MulAdd10(x, m, a) ==
  LET t1 == x[1] * m + a
      t2 == x[2] * m + t1 \div 10000
      t3 == x[3] * m + t2 \div 10000
      t4 == x[4] * m + t3 \div 10000
      t5 == x[5] * m + t4 \div 10000
      t6 == x[6] * m + t5 \div 10000
  IN <<t1 % 10000, t2 % 10000, t3 % 10000,
       t4 % 10000, t5 % 10000, t6 % 10000>>

(* value of at most four digits starting at position i *)
Group(d, i) ==
  LET v(j) == IF j <= Len(d) THEN d[j] - 48 ELSE 0
  IN 1000 * v(i) + 100 * v(i + 1) + 10 * v(i + 2) + v(i + 3)

(* Left-pad so that the length is a multiple of four *)
Pad4(d) == ZeroText((4 - (Len(d) % 4)) % 4) \o d

(* decimal text (at most MaxDigits digits) -> limbs *)
LimbsOf(d) ==
  LET p == Pad4(d)
      RECURSIVE Go(_, _)
      Go(i, acc) == IF i > Len(p) THEN acc
                    ELSE Go(i + 4, MulAdd2(acc, 10000, Group(p, i)))
  IN Go(1, <<0, 0, 0, 0, 0, 0>>)

BitOfLimbs(x, k) == (x[1 + k \div LimbBits] \div Pow2[k % LimbBits]) % 2

(* Does the decimal numeral d denote a value below 2^n ?  (n <= 89) *)
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = cZERO THEN StripZeros(Tail(d)) ELSE d

FitsBits(d, n) ==
  LET s == StripZeros(d)
  IN /\ Len(s) <= MaxDigits
     /\ LET x == LimbsOf(s)
        IN \A k \in n..(NLimbs * LimbBits - 1) : BitOfLimbs(x, k) = 0

(* n-bit representation of the decimal numeral d, which must fit *)
DecToBits(d, n) ==
  LET x == LimbsOf(d)
  IN [i \in 1..n |-> BitOfLimbs(x, n - i)]

(* small natural to n bits *)
NatToBits(v, n) == [i \in 1..n |-> IF n - i > 30 THEN 0 ELSE (v \div Pow2[n - i]) % 2]

(* up to 30 bits to natural *)
BitsToNat(b) == FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, b)

(* bit string (at most 79 bits) -> decimal text without leading zeros *)
BitsToDec(b) ==
  LET n == Len(b)
      first == n % 15
      RECURSIVE Go(_, _)
      Go(i, acc) == IF i > n THEN acc
                    ELSE Go(i + 15, MulAdd10(acc, LimbBase, BitsToNat(SubSeq(b, i, i + 14))))
      x == Go(first + 1, <<BitsToNat(SubSeq(b, 1, first)) % 10000,
                           BitsToNat(SubSeq(b, 1, first)) \div 10000, 0, 0, 0, 0>>)
      dig(l) == <<48 + (l \div 1000), 48 + ((l \div 100) % 10), 48 + ((l \div 10) % 10), 48 + (l % 10)>>
  IN StripZeros(dig(x[6]) \o dig(x[5]) \o dig(x[4]) \o dig(x[3]) \o dig(x[2]) \o dig(x[1]))

(* decimal text padded on the left to k digits *)
PadDec(d, k) == ZeroText(IF Len(d) < k THEN k - Len(d) ELSE 0) \o d

(* GS1 check digit of a digit text: weights 3,1,3,... from the right *)
CheckDigit(d) ==
  LET n == Len(d)
      s == FoldLeft(LAMBDA acc, i : acc + (IF (n - i) % 2 = 0 THEN 3 ELSE 1) * (d[i] - 48),
                    0, [i \in 1..n |-> i])
  IN 48 + ((10 - (s % 10)) % 10)

BitsText(b) == [i \in 1..Len(b) |-> 48 + b[i]]
IsBitText(t) == \A i \in 1..Len(t) : t[i] = 48 \/ t[i] = 49
TextBits(t) == [i \in 1..Len(t) |-> t[i] - 48]

(* bits (length a multiple of 4) -> uppercase hex text *)
BitsToHex(b) == [i \in 1..(Len(b) \div 4) |-> HexChar(BitsToNat(SubSeq(b, 4 * i - 3, 4 * i)))]
HexToBits(t) ==
  [i \in 1..(4 * Len(t)) |->
     (HexVal(t[1 + (i - 1) \div 4]) \div Pow2[3 - ((i - 1) % 4)]) % 2]

B64Chars == Str("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64Val == [c \in {B64Chars[i] : i \in 1..64} |-> (CHOOSE i \in 1..64 : B64Chars[i] = c) - 1]
IsB64Char(c) == c \in DOMAIN B64Val

(* bits of whole bytes -> base64 text with padding *)
BitsToB64(b) ==
  LET n == (Len(b) + 5) \div 6
      bit(k) == IF k <= Len(b) THEN b[k] ELSE 0
      body == [i \in 1..n |-> B64Chars[1 + BitsToNat([j \in 1..6 |-> bit(6 * (i - 1) + j)])]]
      pad == (3 - ((Len(b) \div 8) % 3)) % 3
  IN body \o [i \in 1..pad |-> cEQ]

(* base64 text without padding characters -> bits of whole bytes *)
B64ToBits(t) ==
  LET n == (6 * Len(t)) \div 8
      all == [i \in 1..(8 * n) |->
                (B64Val[t[1 + (i - 1) \div 6]] \div Pow2[5 - ((i - 1) % 6)]) % 2]
  IN all
===========================================================================
