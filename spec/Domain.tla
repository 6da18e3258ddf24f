------------------------------- MODULE Domain -------------------------------
(***************************************************************************)
(* Finite sets of identities that are complete with respect to the         *)
(* boundaries of the notations: every company prefix length, the extreme   *)
(* and an ordinary digit pattern in every numeric component, and last      *)
(* components at, below and above every limit that any coding scheme puts  *)
(* on them, with every kind of character.                                  *)
(***************************************************************************)
EXTENDS GS1

Rep(c, n) == [i \in 1..n |-> c]
Mixed(n) == [i \in 1..n |-> 48 + ((i * 7 + 2) % 10)]         \* 9630741852...
Tiny(n) == [i \in 1..n |-> IF i = n THEN 49 ELSE 48]         \* 0...01
Top(n) == [i \in 1..n |-> IF i = 1 THEN 49 ELSE 48]          \* 10...0

DigitPattern(p, n) ==
  CASE p = 1 -> Rep(48, n)
    [] p = 2 -> Rep(57, n)
    [] p = 3 -> Mixed(n)
    [] p = 4 -> Tiny(n)
    [] p = 5 -> Top(n)

(* powers of two around which the integer fields of the coding schemes end *)
P31 == Str("2147483648")     P31m == Str("2147483647")
P36 == Str("68719476736")    P36m == Str("68719476735")
P38 == Str("274877906944")   P38m == Str("274877906943")
P40 == Str("1099511627776")  P40m == Str("1099511627775")
P41 == Str("2199023255552")  P41m == Str("2199023255551")
P28m == Str("268435455")     P24m == Str("16777215")

Alphabet == Str("!'()*+,-.0123456789:;=ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz") \o Str("\"%&/<>?")

(* texts of serial characters of at most m characters *)
Serials(m) ==
  {x \in {Str("0"), Str("1"), Str("9"), Str("00"), Str("01"), Str("A"), Str("a"), Str("*"), Str("."), Str(":"), Str("%"),
          Str("/"), Str("?"), Str("\""), Str("&"), Str("<"), Str(">"), Str("1.2"), Str("..:"), Str("(21)1"), Str("1(10)2"), Str("(8011)1"),
          Str("(254)1"), Str("%2F"), Str("1_0"), Str("-1"), Str("+1"), Str("1a"), Str("a1"), Str("0x1F"), Str("000000000000"),
          P31m, P31, P36m, P36, P38m, P38, P40m, P40, P41m, P41,
          Rep(57, m), Rep(48, m), Rep(cPCT, m), Rep(65, m - 1), Rep(cSLASH, m - 1) \o <<49>>,
          Str("4398046511103"), Str("4398046511104")}
       \cup {SubSeq(Alphabet, i, IF i + m - 1 > Len(Alphabet) THEN Len(Alphabet) ELSE i + m - 1) :
               i \in {1, 1 + m, 1 + 2 * m, 1 + 3 * m, 1 + 4 * m, Len(Alphabet) - 9}}
     : Len(x) \in 1..m}

(* the largest numeral of w bits, by repeated doubling of digit texts *)
Double(t) == FoldLeft(LAMBDA acc, i : LET d == 2 * (t[i] - 48) + acc[1]
                                      IN << d \div 10, <<48 + (d % 10)>> \o acc[2] >>,
                      << 0, <<>> >>, [i \in 1..Len(t) |-> Len(t) + 1 - i])
Doubled(t) == LET d == Double(t) IN IF d[1] = 0 THEN d[2] ELSE <<48 + d[1]>> \o d[2]
PowText == FoldLeft(LAMBDA acc, i : Append(acc, Doubled(acc[Len(acc)])), << Str("1") >>, [i \in 1..64 |-> i])
PowerText(w) == PowText[w + 1]
(* minus one; a power of two (other than 1) never ends in zero *)
MaxText(w) == LET t == PowerText(w) IN Append(Take(t, Len(t) - 1), t[Len(t)] - 1)

(* numeric references of GIAI-96 and CPI-96 around the limits for this prefix *)
AssetRefs(table, L) ==
  LET w == RefBits[table][13 - L]
      k == RefDigits[table][13 - L]
  IN {Str("0"), Str("1"), Str("00"), MaxText(w), PowerText(w), Rep(57, k), Rep(57, k + 1), Top(k), Top(k + 1), Mixed(k)}

CpiRefs(L) == {Str("A"), Str("-"), Str("#"), Str("/"), Str("0"), Str("01"), Str("#-/"), Str("ABCDEFGHIJKLM"), Str("NOPQRSTUVWXYZ"), Str("-0123456789"),
               Rep(90, 30 - L), Rep(57, 30 - L), Rep(cHASH, 30 - L), Rep(cSLASH, 29 - L)}
CpiSerials == {Str("0"), Str("1"), P31m, P31, Rep(57, 12), Top(12), P38}

Cages == {Str("2S194"), Str("00000"), Str("ZZZZZ"), Str("W81X9C"), Str("000000"), Str("ZZZZZZ"), Str("HJKLMN"), Str("PQRSTU"), Str("VWXYZ1"), Str("ABCDEFG")}
AdiParts == {<<>>, Str("0"), Str("A"), Str("-"), Str("/"), Str("ABCDEFGHIJKLM"), Str("NOPQRSTUVWXYZ"), Str("-/0123456789"), Rep(90, 32), Rep(cSLASH, 31)}
AdiSerials == {Str("0"), Str("#1"), Str("-"), Str("/"), Str("#/"), Str("ABCDEFGHIJKLM"), Str("#NOPQRSTUVWXYZ"), Str("-/0123456789"), Rep(90, 30), <<cHASH>> \o Rep(48, 29)}

Nums(w) == {Str("0"), Str("1"), Str("9"), Str("10"), MaxText(w), PowerText(w - 1), MaxText(w - 1)}

(* pairs of digit patterns for company prefix and reference; Big: all pairs *)
PatternPairs(Big) == IF Big THEN (1..5) \X (1..5) ELSE {<<1, 2>>, <<2, 1>>, <<3, 3>>, <<4, 5>>}

(* first components are chosen by their length where it matters *)
PrefixLengths(s) == IF HasCompanyPrefix(s) THEN 6..12 ELSE {0}

Candidates(s, L, Big) ==
  LET d == SchemeDef[s]
      pairs == PatternPairs(Big)
      two(p) == << DigitPattern(p[1], L), DigitPattern(p[2], d.total - L) >>
  IN CASE s \in {"SSCC", "GSRN", "GSRNP", "GSIN", "PGLN"} -> {two(p) : p \in (1..5) \X (1..5)}
       [] s \in {"SGTIN", "SGLN", "GRAI", "GDTI", "UPUI", "LGTIN"} ->
            {two(p) \o <<x>> : p \in pairs, x \in Serials(d.smax)}
       [] s = "ITIP" ->
            {two(p) \o q \o <<x>> : p \in pairs, x \in Serials(20),
               q \in IF Big THEN {<<Str("00"), Str("99")>>, <<Str("99"), Str("01")>>, <<Str("01"), Str("02")>>, <<Str("10"), Str("90")>>}
                     ELSE {<<Str("00"), Str("99")>>, <<Str("99"), Str("10")>>}}
       [] s = "SGCN" ->
            {two(p) \o <<DigitPattern(q, n)>> : p \in pairs, q \in 1..5, n \in {1, 2, 6, 11, 12}}
       [] s \in {"GIAI", "GINC"} ->
            {<<DigitPattern(p[1], L), x>> : p \in pairs, x \in Serials(30 - L) \cup AssetRefs("giai96", L)}
       [] s = "CPI" ->
            {<<DigitPattern(p[1], L), x, y>> : p \in pairs, x \in CpiRefs(L) \cup AssetRefs("cpi96", L),
               y \in IF Big THEN CpiSerials ELSE {Str("0"), P31m, P31, Rep(57, 12)}}
       [] s = "GID" -> {<<x, y, z>> : x \in Nums(28), y \in Nums(24), z \in Nums(36)}
       [] s = "USDOD" -> {<<x, y>> : x \in Cages, y \in Nums(36)}
       [] s = "ADI" -> {<<x, y, z>> : x \in Cages, y \in AdiParts, z \in AdiSerials}
       [] s = "BIC" -> {<<x \o y>> : x \in {Str("AAAJ"), Str("ZZZU"), Str("CSQZ")}, y \in {DigitPattern(p, 7) : p \in 1..5}}
       [] s = "IMOVN" -> {<<DigitPattern(p, 7)>> : p \in 1..5}

(* a short identity of each scheme, in which every character is varied *)
Short(s) ==
  LET d == SchemeDef[s]
      two == << Mixed(7), Mixed(d.total - 7) >>
  IN CASE s \in {"SSCC", "GSRN", "GSRNP", "GSIN", "PGLN"} -> two
       [] s \in {"SGTIN", "SGLN", "GRAI", "GDTI", "UPUI", "LGTIN", "SGCN"} -> two \o << Str("72") >>
       [] s = "ITIP" -> two \o << Str("01"), Str("02"), Str("72") >>
       [] s \in {"GIAI", "GINC"} -> << Mixed(7), Str("72") >>
       [] s = "CPI" -> << Mixed(7), Str("A1"), Str("72") >>
       [] s = "GID" -> << Str("72"), Str("81"), Str("93") >>
       [] s = "USDOD" -> << Str("2S194"), Str("72") >>
       [] s = "ADI" -> << Str("2S194"), Str("A1"), Str("#72") >>
       [] s = "BIC" -> << Str("CSQU3054383") >>
       [] s = "IMOVN" -> << Str("9176187") >>
=============================================================================
