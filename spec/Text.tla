------------------------------- MODULE Text -------------------------------
(***************************************************************************)
(* Text is modelled as a sequence of code points (naturals).  Spec-level   *)
(* literals are written as TLA+ strings and converted with Str, so that    *)
(* the same operators work on literals and on text recorded from, or to be *)
(* fed into, the implementation (which may hold any Unicode code point).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |->
             31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]

Str(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

(* a set of characters written as a string *)
Chars(s) == {CodeOf[SubSeq(s, i, i)] : i \in 1..Len(s)}

cDOT == 46   cCOLON == 58   cPCT == 37   cLPAR == 40   cRPAR == 41
cZERO == 48  cHASH == 35    cSLASH == 47 cDASH == 45   cSTAR == 42
cSPACE == 32 cEQ == 61

DigitChars == 48..57
UpperChars == 65..90
LowerChars == 97..122

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122

IsHexChar(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexChar(v) == IF v < 10 THEN 48 + v ELSE 55 + v

AllIn(t, S) == \A i \in 1..Len(t) : t[i] \in S
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])
HasChar(t, c) == \E i \in 1..Len(t) : t[i] = c

Take(t, n) == SubSeq(t, 1, n)
Drop(t, n) == SubSeq(t, n + 1, Len(t))

HasPrefix(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p

(* Position of the first occurrence of c at or after position from, else 0 *)
RECURSIVE IndexFrom(_, _, _)
IndexFrom(t, c, from) ==
  IF from > Len(t) THEN 0
  ELSE IF t[from] = c THEN from
  ELSE IndexFrom(t, c, from + 1)

(* Split at the first n-1 occurrences of c; the last piece is the rest.    *)
(* Yields fewer than n pieces if there are not enough separators.          *)
RECURSIVE SplitN(_, _, _)
SplitN(t, c, n) ==
  IF n = 1 THEN <<t>>
  ELSE LET k == IndexFrom(t, c, 1)
       IN IF k = 0 THEN <<t>>
          ELSE <<SubSeq(t, 1, k - 1)>> \o SplitN(Drop(t, k), c, n - 1)

Join(parts, c) ==
  FoldLeft(LAMBDA acc, p : acc \o <<c>> \o p, Head(parts), Tail(parts))

Zeros(n) == [i \in 1..n |-> 0]
ZeroText(n) == [i \in 1..n |-> cZERO]

(* decimal numeral of a small natural *)
RECURSIVE NumText(_)
NumText(n) == IF n < 10 THEN <<48 + n>> ELSE NumText(n \div 10) \o <<48 + (n % 10)>>

ToUpperHex(t) == [i \in 1..Len(t) |-> IF t[i] >= 97 /\ t[i] <= 102 THEN t[i] - 32 ELSE t[i]]
===========================================================================
