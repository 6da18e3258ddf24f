----------------------------- MODULE TagCodec -----------------------------
(***************************************************************************)
(* Tag encodings of the GS1 EPC Tag Data Standard.  Every coding scheme is *)
(* described once, as a list of fields; Encode and Decode interpret the    *)
(* same description.                                                       *)
(***************************************************************************)
EXTENDS Identity

CompanyBits == <<40, 37, 34, 30, 27, 24, 20>>        \* by partition value 0..6
CompanyDigits == <<12, 11, 10, 9, 8, 7, 6>>
PartitionOf(len) == 12 - len                         \* company prefix digits -> partition value

(* second field of each partition table: width in bits, digits/characters *)
RefBits ==
     ("gtin"  :> <<4, 7, 10, 14, 17, 20, 24>>)
  @@ ("grai"  :> <<4, 7, 10, 14, 17, 20, 24>>)
  @@ ("gln"   :> <<1, 4, 7, 11, 14, 17, 21>>)
  @@ ("sscc"  :> <<18, 21, 24, 28, 31, 34, 38>>)
  @@ ("giai96" :> <<42, 45, 48, 52, 55, 58, 62>>)
  @@ ("giai202" :> <<148, 151, 154, 158, 161, 164, 168>>)
  @@ ("cpi96" :> <<11, 14, 17, 21, 24, 27, 31>>)
RefDigits ==
     ("gtin"  :> <<1, 2, 3, 4, 5, 6, 7>>)
  @@ ("grai"  :> <<0, 1, 2, 3, 4, 5, 6>>)
  @@ ("gln"   :> <<0, 1, 2, 3, 4, 5, 6>>)
  @@ ("sscc"  :> <<5, 6, 7, 8, 9, 10, 11>>)
  @@ ("giai96" :> <<13, 14, 15, 16, 17, 18, 19>>)
  @@ ("giai202" :> <<18, 19, 20, 21, 22, 23, 24>>)
  @@ ("cpi96" :> <<3, 4, 5, 6, 7, 8, 9>>)

(***************************************************************************)
(* Field kinds (c: index of the component the field carries, w: width)     *)
(*  filter  filter value                                                   *)
(*  part    partition value + company prefix + padded reference, table t   *)
(*  partu   the same with a reference numeral that is not padded           *)
(*  parts   the same with a 7-bit character string                         *)
(*  part6   the same with terminated 6-bit characters                      *)
(*  int     unsigned integer            str  7-bit characters, zero filled *)
(*  nstr    digits prefixed by "1" as integer                              *)
(*  fix2    two digits as integer       zero reserved zero bits            *)
(*  cage8   six 8-bit characters, space filled on the left                 *)
(*  cage6   six 6-bit characters, space filled on the left                 *)
(*  six     6-bit characters with terminator, at most w characters         *)
(***************************************************************************)
Fld(k, c, w, t) == [k |-> k, c |-> c, w |-> w, t |-> t]
Filter3 == Fld("filter", 0, 3, "")
CSDef(s, h, z, f) == [s |-> s, header |-> h, size |-> z, fields |-> f]

CodingScheme ==
     ("sgtin-96"  :> CSDef("SGTIN", 48, 96, <<Filter3, Fld("part", 1, 0, "gtin"), Fld("int", 3, 38, "")>>))
  @@ ("sgtin-198" :> CSDef("SGTIN", 54, 198, <<Filter3, Fld("part", 1, 0, "gtin"), Fld("str", 3, 140, "")>>))
  @@ ("sscc-96"   :> CSDef("SSCC", 49, 96, <<Filter3, Fld("part", 1, 0, "sscc"), Fld("zero", 0, 24, "")>>))
  @@ ("sgln-96"   :> CSDef("SGLN", 50, 96, <<Filter3, Fld("part", 1, 0, "gln"), Fld("int", 3, 41, "")>>))
  @@ ("sgln-195"  :> CSDef("SGLN", 57, 195, <<Filter3, Fld("part", 1, 0, "gln"), Fld("str", 3, 140, "")>>))
  @@ ("grai-96"   :> CSDef("GRAI", 51, 96, <<Filter3, Fld("part", 1, 0, "grai"), Fld("int", 3, 38, "")>>))
  @@ ("grai-170"  :> CSDef("GRAI", 55, 170, <<Filter3, Fld("part", 1, 0, "grai"), Fld("str", 3, 112, "")>>))
  @@ ("giai-96"   :> CSDef("GIAI", 52, 96, <<Filter3, Fld("partu", 1, 0, "giai96")>>))
  @@ ("giai-202"  :> CSDef("GIAI", 56, 202, <<Filter3, Fld("parts", 1, 0, "giai202")>>))
  @@ ("gid-96"    :> CSDef("GID", 53, 96, <<Fld("int", 1, 28, ""), Fld("int", 2, 24, ""), Fld("int", 3, 36, "")>>))
  @@ ("gsrn-96"   :> CSDef("GSRN", 45, 96, <<Filter3, Fld("part", 1, 0, "sscc"), Fld("zero", 0, 24, "")>>))
  @@ ("gsrnp-96"  :> CSDef("GSRNP", 46, 96, <<Filter3, Fld("part", 1, 0, "sscc"), Fld("zero", 0, 24, "")>>))
  @@ ("gdti-96"   :> CSDef("GDTI", 44, 96, <<Filter3, Fld("part", 1, 0, "gln"), Fld("int", 3, 41, "")>>))
  @@ ("gdti-174"  :> CSDef("GDTI", 62, 174, <<Filter3, Fld("part", 1, 0, "gln"), Fld("str", 3, 119, "")>>))
  @@ ("cpi-96"    :> CSDef("CPI", 60, 96, <<Filter3, Fld("partu", 1, 0, "cpi96"), Fld("int", 3, 31, "")>>))
  @@ ("cpi-var"   :> CSDef("CPI", 61, 0, <<Filter3, Fld("part6", 1, 0, ""), Fld("int", 3, 40, "")>>))
  @@ ("sgcn-96"   :> CSDef("SGCN", 63, 96, <<Filter3, Fld("part", 1, 0, "gln"), Fld("nstr", 3, 41, "")>>))
  @@ ("itip-110"  :> CSDef("ITIP", 64, 110, <<Filter3, Fld("part", 1, 0, "gtin"), Fld("fix2", 3, 7, ""), Fld("fix2", 4, 7, ""), Fld("int", 5, 38, "")>>))
  @@ ("itip-212"  :> CSDef("ITIP", 65, 212, <<Filter3, Fld("part", 1, 0, "gtin"), Fld("fix2", 3, 7, ""), Fld("fix2", 4, 7, ""), Fld("str", 5, 140, "")>>))
  @@ ("usdod-96"  :> CSDef("USDOD", 47, 96, <<Fld("filter", 0, 4, ""), Fld("cage8", 1, 48, ""), Fld("int", 2, 36, "")>>))
  @@ ("adi-var"   :> CSDef("ADI", 59, 0, <<Fld("filter", 0, 6, ""), Fld("cage6", 1, 36, ""), Fld("six", 2, 32, ""), Fld("six", 3, 30, "")>>))

CodingSchemes == DOMAIN CodingScheme
CSText == [cs \in CodingSchemes |-> Str(cs)]
SchemesOf == [s \in Schemes |-> {cs \in CodingSchemes : CodingScheme[cs].s = s}]
TagSchemes == {s \in Schemes : SchemesOf[s] # {}}
CSOfHeader == [h \in {CodingScheme[cs].header : cs \in CodingSchemes} |->
                 CHOOSE cs \in CodingSchemes : CodingScheme[cs].header = h]
FilterBits(cs) == LET f == CodingScheme[cs].fields[1] IN IF f.k = "filter" THEN f.w ELSE 0
Filters(cs) == IF FilterBits(cs) = 0 THEN {0} ELSE 0..(Pow2[FilterBits(cs)] - 1)

SixCode(c) == IF c \in UpperChars THEN c - 64 ELSE c       \* digits, '-', '/', '#': their own low six bits
SixBits(t) == FoldLeft(LAMBDA acc, c : acc \o NatToBits(SixCode(c) % 64, 6), <<>>, t)
SevenBits(t) == FoldLeft(LAMBDA acc, c : acc \o NatToBits(c, 7), <<>>, t)

(* a numeral that the integer field reproduces exactly *)
ExactInt(t, w) == IsNum(t) /\ FitsBits(t, w)

FieldHolds(id, f) ==
  LET v == IF f.c = 0 THEN <<>> ELSE id.c[f.c]
      p == IF f.k \in {"part", "partu", "parts", "part6"} THEN PartitionOf(Len(id.c[1])) + 1 ELSE 1
  IN CASE f.k = "int"   -> ExactInt(v, f.w)
       [] f.k = "str"   -> 7 * Len(v) <= f.w
       [] f.k = "nstr"  -> AllDigits(v) /\ Len(v) >= 1 /\ Len(v) <= 12
       [] f.k = "partu" -> ExactInt(id.c[2], RefBits[f.t][p]) /\ Len(id.c[2]) <= RefDigits[f.t][p]
       [] f.k = "parts" -> Len(id.c[2]) <= RefDigits[f.t][p]
       [] OTHER         -> TRUE

(* can coding scheme cs represent the (valid) identity exactly? *)
Encodable(id, cs) ==
  /\ CodingScheme[cs].s = id.s
  /\ \A i \in 1..Len(CodingScheme[cs].fields) : FieldHolds(id, CodingScheme[cs].fields[i])

PadRight(b, w) == b \o Zeros(IF Len(b) < w THEN w - Len(b) ELSE 0)

EncodeField(id, f, filter) ==
  LET v == IF f.c = 0 THEN <<>> ELSE id.c[f.c]
      P == PartitionOf(Len(id.c[1]))
      head == NatToBits(P, 3) \o DecToBits(id.c[1], CompanyBits[P + 1])
  IN CASE f.k = "filter" -> NatToBits(filter, f.w)
       [] f.k = "part"   -> head \o (IF Len(id.c[2]) = 0 THEN Zeros(RefBits[f.t][P + 1])
                                     ELSE DecToBits(id.c[2], RefBits[f.t][P + 1]))
       [] f.k = "partu"  -> head \o DecToBits(id.c[2], RefBits[f.t][P + 1])
       [] f.k = "parts"  -> head \o PadRight(SevenBits(id.c[2]), RefBits[f.t][P + 1])
       [] f.k = "part6"  -> head \o SixBits(id.c[2]) \o Zeros(6)
       [] f.k = "int"    -> DecToBits(v, f.w)
       [] f.k = "str"    -> PadRight(SevenBits(v), f.w)
       [] f.k = "nstr"   -> DecToBits(<<49>> \o v, f.w)
       [] f.k = "fix2"   -> DecToBits(v, f.w)
       [] f.k = "zero"   -> Zeros(f.w)
       [] f.k = "cage8"  -> FoldLeft(LAMBDA acc, c : acc \o NatToBits(c, 8), <<>>,
                                     IF Len(v) = 5 THEN <<cSPACE>> \o v ELSE v)
       [] f.k = "cage6"  -> SixBits(IF Len(v) = 5 THEN <<cSPACE>> \o v ELSE v)
       [] f.k = "six"    -> SixBits(v) \o Zeros(6)

Encode(id, cs, filter) ==
  FoldLeft(LAMBDA acc, f : acc \o EncodeField(id, f, filter),
           NatToBits(CodingScheme[cs].header, 8), CodingScheme[cs].fields)

(***************************************************************************)
(* Decoding.  Verdicts:                                                    *)
(*   "ok"    the bits conform to the layout; id, filter and the number of  *)
(*           bits used are given                                           *)
(*   "loose" the bits can be read but no conforming encoder writes them    *)
(*           (reserved bits set, characters after the terminator, ...);    *)
(*           the library may decode them to the given identity or refuse   *)
(*   "bad"   the bits do not denote an identity, why tells the reason      *)
(***************************************************************************)
DBad(w) == [st |-> "bad", why |-> w]

(* state of the field reader: position, components, filter, looseness *)
D0(b) == [st |-> "ok", why |-> "", b |-> b, pos |-> 9, c |-> <<>>, filter |-> 0]

Stop(d, w) == [d EXCEPT !.st = "bad", !.why = w]
Loose(d) == [d EXCEPT !.st = "loose"]
Left(d) == Len(d.b) - d.pos + 1

(* seven bit characters up to the first zero segment *)
SevenText(b) ==
  LET n == Len(b) \div 7
      code(i) == BitsToNat(SubSeq(b, 7 * i - 6, 7 * i))
      all == [i \in 1..n |-> code(i)]
      zeros == {i \in 1..n : all[i] = 0}
      k == IF zeros = {} THEN n ELSE (CHOOSE i \in zeros : \A j \in zeros : i <= j) - 1
  IN [text |-> SubSeq(all, 1, k),
      rest |-> \E i \in (7 * k + 1)..Len(b) : b[i] # 0]

(* six bit characters from position p up to the terminator *)
RECURSIVE SixScan(_, _, _)
SixScan(b, p, acc) ==
  IF p + 5 > Len(b) THEN [ok |-> FALSE, text |-> acc, pos |-> p]
  ELSE LET v == BitsToNat(SubSeq(b, p, p + 5))
       IN IF v = 0 THEN [ok |-> TRUE, text |-> acc, pos |-> p + 6]
          ELSE SixScan(b, p + 6, Append(acc, IF v < 32 THEN 64 + v ELSE v))

GsOK(t) == AllIn(t, GsAll)

ReadField(d, f) ==
  IF d.st = "bad" THEN d
  ELSE IF f.k \in {"part", "partu", "parts", "part6"} THEN
    IF Left(d) < 3 THEN Stop(d, "short")
    ELSE LET P == BitsToNat(SubSeq(d.b, d.pos, d.pos + 2)) IN
      IF P = 7 THEN Stop(d, "partition")
      ELSE LET M == CompanyBits[P + 1]
               L == CompanyDigits[P + 1] IN
        IF Left(d) < 3 + M THEN Stop(d, "short")
        ELSE LET cp == BitsToDec(SubSeq(d.b, d.pos + 3, d.pos + 2 + M))
                 q == d.pos + 3 + M IN
          IF Len(cp) > L THEN Stop(d, "company")
          ELSE IF f.k = "part6" THEN
            LET s == SixScan(d.b, q, <<>>) IN
              IF ~s.ok THEN Stop(d, IF Len(s.text) > 30 - L THEN "characters" ELSE "short")
              ELSE IF Len(s.text) > 30 - L \/ Len(s.text) = 0 \/ ~AllIn(s.text, CprPlain \cup CprEscaped)
                   THEN Stop(d, "characters")
              ELSE [d EXCEPT !.pos = s.pos, !.c = <<PadDec(cp, L), s.text>>]
          ELSE LET N == RefBits[f.t][P + 1]
                   K == RefDigits[f.t][P + 1]
                   rb == SubSeq(d.b, q, q + N - 1) IN
            IF Left(d) < 3 + M + N THEN Stop(d, "short")
            ELSE IF f.k = "parts" THEN
              LET s == SevenText(rb) IN
                IF Len(s.text) = 0 \/ Len(s.text) > K \/ ~GsOK(s.text) THEN
                   IF s.rest THEN Loose(Stop(d, "characters")) ELSE Stop(d, "characters")
                ELSE LET e == [d EXCEPT !.pos = q + N, !.c = <<PadDec(cp, L), s.text>>]
                     IN IF s.rest THEN Loose(e) ELSE e
            ELSE LET r == BitsToDec(rb) IN
              IF K = 0 THEN
                LET e == [d EXCEPT !.pos = q + N, !.c = <<PadDec(cp, L), <<>> >>]
                IN IF r = <<cZERO>> THEN e ELSE Loose(e)
              ELSE IF Len(r) > K THEN Stop(d, "reference")
              ELSE [d EXCEPT !.pos = q + N,
                     !.c = <<PadDec(cp, L), IF f.k = "partu" THEN r ELSE PadDec(r, K)>>]
  ELSE IF f.k = "six" THEN
    LET s == SixScan(d.b, d.pos, <<>>) IN
      IF ~s.ok THEN Stop(d, "short")
      ELSE [d EXCEPT !.pos = s.pos, !.c = Append(d.c, s.text)]
  ELSE IF Left(d) < f.w THEN Stop(d, "short")
  ELSE LET fb == SubSeq(d.b, d.pos, d.pos + f.w - 1)
           e == [d EXCEPT !.pos = d.pos + f.w]
       IN CASE f.k = "filter" -> [e EXCEPT !.filter = BitsToNat(fb)]
            [] f.k = "int"    -> [e EXCEPT !.c = Append(d.c, BitsToDec(fb))]
            [] f.k = "str"    ->
                 LET s == SevenText(fb) IN
                   IF s.rest THEN Loose([e EXCEPT !.c = Append(d.c, s.text)])
                   ELSE IF Len(s.text) = 0 \/ ~GsOK(s.text) THEN Stop(e, "characters")
                   ELSE [e EXCEPT !.c = Append(d.c, s.text)]
            [] f.k = "nstr"   ->
                 LET n == BitsToDec(fb) IN
                   IF n[1] # 49 \/ Len(n) < 2 \/ Len(n) > 13 THEN Stop(e, "numeric")
                   ELSE [e EXCEPT !.c = Append(d.c, Tail(n))]
            [] f.k = "fix2"   ->
                 LET n == BitsToDec(fb) IN
                   IF Len(n) > 2 THEN Stop(e, "numeric")
                   ELSE [e EXCEPT !.c = Append(d.c, PadDec(n, 2))]
            [] f.k = "zero"   -> IF \A i \in 1..Len(fb) : fb[i] = 0 THEN e ELSE Loose(e)
            [] f.k = "cage8"  ->
                 LET t == [i \in 1..6 |-> BitsToNat(SubSeq(fb, 8 * i - 7, 8 * i))]
                     v == IF t[1] = cSPACE THEN Tail(t) ELSE t IN
                   IF AllIn(v, CageChars) THEN [e EXCEPT !.c = <<v>>]
                   ELSE IF \E i \in 2..6 : t[i] = cSPACE THEN Loose(Stop(e, "characters"))
                   ELSE Stop(e, "characters")
            [] f.k = "cage6"  ->
                 LET t == [i \in 1..6 |-> LET v == BitsToNat(SubSeq(fb, 6 * i - 5, 6 * i))
                                          IN IF v < 32 THEN 64 + v ELSE v]
                     v == IF t[1] = cSPACE THEN Tail(t) ELSE t IN
                   IF AllIn(v, CageChars) THEN [e EXCEPT !.c = <<v>>]
                   ELSE IF \E i \in 1..6 : t[i] = 64 THEN Loose(Stop(e, "characters"))
                   ELSE Stop(e, "characters")

HeaderOf(b) == IF Len(b) < 8 THEN 256 ELSE BitsToNat(SubSeq(b, 1, 8))

(* decode bits b as a tag of coding scheme cs *)
DecodeAs(cs, b) ==
  LET def == CodingScheme[cs]
      t == IF def.size > 0 /\ Len(b) > def.size THEN SubSeq(b, 1, def.size) ELSE b
  IN IF def.size > 0 /\ Len(b) < def.size THEN DBad("short")
     ELSE LET d == FoldLeft(LAMBDA acc, f : ReadField(acc, f), D0(t), def.fields)
          IN IF d.st = "loose" THEN [st |-> "loose", why |-> d.why]
             ELSE IF d.st = "bad" THEN DBad(d.why)
             ELSE LET id == [s |-> def.s, c |-> d.c]
                      p == Parse(def.s, Render(id))
                  IN IF p.st = "ok" /\ p.id = id
                     THEN [st |-> "ok", id |-> id, filter |-> d.filter, used |-> d.pos - 1, cs |-> cs]
                     ELSE DBad("identity")

(* decode bits with the class of scheme s *)
DecodeClass(s, b) ==
  LET h == HeaderOf(b)
  IN IF h \notin DOMAIN CSOfHeader THEN DBad("header")
     ELSE IF CodingScheme[CSOfHeader[h]].s # s THEN DBad("header")
     ELSE DecodeAs(CSOfHeader[h], b)

DecodeAny(b) ==
  LET h == HeaderOf(b)
  IN IF h \notin DOMAIN CSOfHeader THEN DBad("header") ELSE DecodeAs(CSOfHeader[h], b)

(***************************************************************************)
(* Hex and base64 views.                                                   *)
(***************************************************************************)
ToWords(b) == PadRight(b, 16 * ((Len(b) + 15) \div 16))
HexOf(b) == BitsToHex(ToWords(b))
B64Of(b) == BitsToB64(ToWords(b))

(***************************************************************************)
(* Tag URIs.                                                               *)
(***************************************************************************)
TagPrefix == Str("urn:epc:tag:")

TagUri(id, cs, filter) ==
  TagPrefix \o CSText[cs] \o <<cCOLON>>
    \o (IF FilterBits(cs) = 0 THEN <<>> ELSE NumText(filter) \o <<cDOT>>)
    \o RenderBody(id)

(* Reading tag URIs: "ok" (well formed, valid identity that the named coding  *)
(* scheme can represent, filter in range), "open" (the same but out of range  *)
(* or not representable, or a non-canonical escape), "bad".                   *)
ParseTagUri(t) ==
  IF ~HasPrefix(t, TagPrefix) THEN Bad("prefix")
  ELSE LET r == Drop(t, Len(TagPrefix))
           p == SplitN(r, cCOLON, 2)
           cands == {cs \in CodingSchemes : CSText[cs] = p[1]}
       IN IF Len(p) # 2 \/ cands = {} THEN Bad("scheme")
          ELSE LET cs == CHOOSE x \in cands : TRUE
                   s == CodingScheme[cs].s
                   q == IF FilterBits(cs) = 0 THEN << <<cZERO>>, p[2]>> ELSE SplitN(p[2], cDOT, 2)
               IN IF Len(q) # 2 \/ ~IsNum(q[1]) THEN Bad("filter")
                  ELSE LET b == ParseBody(s, q[2])
                           infilter == Len(q[1]) <= 2 /\ LET v == (IF Len(q[1]) = 2 THEN 10 * (q[1][1] - 48) + (q[1][2] - 48) ELSE q[1][1] - 48)
                                                          IN v \in Filters(cs)
                       IN IF b.st = "bad" THEN b
                          ELSE [st |-> IF b.st = "ok" /\ infilter /\ Encodable(b.id, cs) THEN "ok" ELSE "open",
                                id |-> b.id, cs |-> cs]
===========================================================================
