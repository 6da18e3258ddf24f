----------------------------- MODULE Identity -----------------------------
(***************************************************************************)
(* Pure identities.  An identity is a scheme name and the sequence of its  *)
(* components with all escapes resolved; Render gives its URI, Parse reads *)
(* a URI.  Parse is total: its verdict is                                  *)
(*   "ok"    a valid identity URI of the scheme,                           *)
(*   "open"  valid but for the spelling of an escape (the library may      *)
(*           accept or refuse it),                                         *)
(*   "bad"   anything else; why names the violated rule.                   *)
(***************************************************************************)
EXTENDS Numerals, TLC

IdSchemes == <<"ADI", "BIC", "CPI", "GDTI", "GIAI", "GID", "GINC", "GRAI", "GSIN",
               "GSRN", "GSRNP", "IMOVN", "ITIP", "LGTIN", "PGLN", "SGCN", "SGLN",
               "SGTIN", "SSCC", "UPUI", "USDOD">>
Schemes == {IdSchemes[i] : i \in 1..Len(IdSchemes)}

(* scheme identifier as it appears in URIs *)
LowerName == ("ADI" :> "adi") @@ ("BIC" :> "bic") @@ ("CPI" :> "cpi") @@ ("GDTI" :> "gdti")
   @@ ("GIAI" :> "giai") @@ ("GID" :> "gid") @@ ("GINC" :> "ginc") @@ ("GRAI" :> "grai")
   @@ ("GSIN" :> "gsin") @@ ("GSRN" :> "gsrn") @@ ("GSRNP" :> "gsrnp") @@ ("IMOVN" :> "imovn")
   @@ ("ITIP" :> "itip") @@ ("LGTIN" :> "lgtin") @@ ("PGLN" :> "pgln") @@ ("SGCN" :> "sgcn")
   @@ ("SGLN" :> "sgln") @@ ("SGTIN" :> "sgtin") @@ ("SSCC" :> "sscc") @@ ("UPUI" :> "upui")
   @@ ("USDOD" :> "usdod")

IdentText == [s \in Schemes |-> Str(LowerName[s])]
UriPrefix == [s \in Schemes |->
   Str(IF s = "LGTIN" THEN "urn:epc:class:" ELSE "urn:epc:id:") \o IdentText[s] \o <<cCOLON>>]

(***************************************************************************)
(* Component grammars.                                                     *)
(*  dig    one or more digits            dig0   zero or more digits        *)
(*  num    numeral without leading zero                                    *)
(*  gs     serial characters (GS1 AI encodable set 82)                     *)
(*  cpr    component/part reference      cage   CAGE code or DoDAAC        *)
(*  adip   ADI part number               adis   ADI serial number          *)
(*  bic, imo  fixed formats                                                *)
(* total: number of digits of the first two components (0: not fixed)      *)
(* smax : limit on the characters of the last component (0: see Limits)    *)
(***************************************************************************)
Def(k, t, m) == [kinds |-> k, total |-> t, smax |-> m]
SchemeDef ==
     ("SGTIN" :> Def(<<"dig", "dig", "gs">>, 13, 20))
  @@ ("SSCC"  :> Def(<<"dig", "dig">>, 17, 0))
  @@ ("SGLN"  :> Def(<<"dig", "dig0", "gs">>, 12, 20))
  @@ ("GRAI"  :> Def(<<"dig", "dig0", "gs">>, 12, 16))
  @@ ("GIAI"  :> Def(<<"dig", "gs">>, 0, 0))
  @@ ("GSRN"  :> Def(<<"dig", "dig">>, 17, 0))
  @@ ("GSRNP" :> Def(<<"dig", "dig">>, 17, 0))
  @@ ("GDTI"  :> Def(<<"dig", "dig0", "gs">>, 12, 17))
  @@ ("CPI"   :> Def(<<"dig", "cpr", "num">>, 0, 12))
  @@ ("SGCN"  :> Def(<<"dig", "dig0", "dig">>, 12, 12))
  @@ ("GINC"  :> Def(<<"dig", "gs">>, 0, 0))
  @@ ("GSIN"  :> Def(<<"dig", "dig">>, 16, 0))
  @@ ("ITIP"  :> Def(<<"dig", "dig", "dig", "dig", "gs">>, 13, 20))
  @@ ("UPUI"  :> Def(<<"dig", "dig", "gs">>, 13, 28))
  @@ ("PGLN"  :> Def(<<"dig", "dig0">>, 12, 0))
  @@ ("LGTIN" :> Def(<<"dig", "dig", "gs">>, 13, 20))
  @@ ("GID"   :> Def(<<"num", "num", "num">>, 0, 0))
  @@ ("USDOD" :> Def(<<"cage", "num">>, 0, 0))
  @@ ("ADI"   :> Def(<<"cage", "adip", "adis">>, 0, 0))
  @@ ("BIC"   :> Def(<<"bic">>, 0, 0))
  @@ ("IMOVN" :> Def(<<"imo">>, 0, 0))

HasCompanyPrefix(s) == SchemeDef[s].kinds[1] = "dig"

(* characters that may appear as themselves, and those that must be escaped *)
GsPlain == DigitChars \cup UpperChars \cup LowerChars \cup Chars("!'()*+,-.:;=_")
GsEscaped == Chars("\"%&/<>?")
GsAll == GsPlain \cup GsEscaped
CprPlain == DigitChars \cup UpperChars \cup {cDASH}
CprEscaped == {cSLASH, cHASH}
AdiPlain == DigitChars \cup UpperChars \cup {cDASH}
CageChars == DigitChars \cup (UpperChars \ Chars("IO"))

EscapeChar(c) == <<cPCT, HexChar(c \div 16), HexChar(c % 16)>>

Escape(t, E) ==
  IF \A i \in 1..Len(t) : t[i] \notin E THEN t
  ELSE FoldLeft(LAMBDA acc, c : acc \o (IF c \in E THEN EscapeChar(c) ELSE <<c>>), <<>>, t)

(***************************************************************************)
(* Resolve escapes.  Plain characters must be in P, escaped ones must      *)
(* denote a character of E (canonical) or, non-canonically, one of P or    *)
(* one of E spelled with lower case hex digits.                            *)
(***************************************************************************)
Unescape(t, P, E) ==
  IF \A i \in 1..Len(t) : t[i] \in P THEN [st |-> "ok", raw |-> t]
  ELSE IF \E i \in 1..Len(t) : t[i] \notin P /\ t[i] # cPCT /\ ~IsHexChar(t[i])
       THEN [st |-> "bad", raw |-> t]
  ELSE
    LET RECURSIVE Go(_, _, _)
        Go(i, out, canon) ==
          IF i > Len(t) THEN [st |-> IF canon THEN "ok" ELSE "open", raw |-> out]
          ELSE IF t[i] # cPCT
               THEN IF t[i] \in P THEN Go(i + 1, Append(out, t[i]), canon)
                    ELSE [st |-> "bad", raw |-> t]
          ELSE IF i + 2 > Len(t) \/ ~IsHexChar(t[i + 1]) \/ ~IsHexChar(t[i + 2])
               THEN [st |-> "bad", raw |-> t]
          ELSE LET v == 16 * HexVal(t[i + 1]) + HexVal(t[i + 2])
               IN IF v \in E
                  THEN Go(i + 3, Append(out, v), canon /\ EscapeChar(v) = SubSeq(t, i, i + 2))
                  ELSE IF v \in P THEN Go(i + 3, Append(out, v), FALSE)
                  ELSE [st |-> "bad", raw |-> t]
    IN Go(1, <<>>, TRUE)

Res(b, t) == [st |-> IF b THEN "ok" ELSE "bad", raw |-> t]

IsNum(t) == Len(t) >= 1 /\ AllDigits(t) /\ (t[1] # cZERO \/ Len(t) = 1)

ParseComp(k, t) ==
  CASE k = "dig"  -> Res(Len(t) >= 1 /\ AllDigits(t), t)
    [] k = "dig0" -> Res(AllDigits(t), t)
    [] k = "num"  -> Res(IsNum(t), t)
    [] k = "gs"   -> IF Len(t) = 0 THEN Res(FALSE, t) ELSE Unescape(t, GsPlain, GsEscaped)
    [] k = "cpr"  -> IF Len(t) = 0 THEN Res(FALSE, t)
                     ELSE LET u == Unescape(t, CprPlain, CprEscaped)
                          IN IF u.st = "open" THEN Res(FALSE, t) ELSE u
    [] k = "cage" -> Res(Len(t) \in 5..6 /\ AllIn(t, CageChars), t)
    [] k = "adip" -> LET u == Unescape(t, AdiPlain, {cSLASH})
                     IN IF u.st = "open" THEN Res(FALSE, t) ELSE u
    [] k = "adis" -> LET h == HasPrefix(t, EscapeChar(cHASH))
                         u == Unescape(IF h THEN Drop(t, 3) ELSE t, AdiPlain, {cSLASH})
                     IN IF u.st # "ok" \/ Len(u.raw) = 0 THEN Res(FALSE, t)
                        ELSE [st |-> "ok", raw |-> IF h THEN <<cHASH>> \o u.raw ELSE u.raw]
    [] k = "bic"  -> Res(/\ Len(t) = 11
                         /\ \A i \in 1..3 : t[i] \in UpperChars \ Chars("IO")
                         /\ t[4] \in Chars("JUZ")
                         /\ \A i \in 5..11 : IsDigit(t[i]), t)
    [] k = "imo"  -> Res(Len(t) = 7 /\ AllDigits(t), t)

EscapedOf(k) == CASE k = "gs" -> GsEscaped [] k = "cpr" -> CprEscaped
                  [] k \in {"adip", "adis"} -> {cSLASH, cHASH} [] OTHER -> {}

(* length and range rules on resolved components *)
Limits(s, c) ==
  LET d == SchemeDef[s]
      n == Len(c)
  IN /\ HasCompanyPrefix(s) => Len(c[1]) \in 6..12
     /\ d.total > 0 => Len(c[1]) + Len(c[2]) = d.total
     /\ d.smax > 0 => Len(c[n]) <= d.smax
     /\ s \in {"GIAI", "GINC", "CPI"} => Len(c[1]) + Len(c[2]) <= 30
     /\ s = "ITIP" => Len(c[3]) = 2 /\ Len(c[4]) = 2
     /\ s = "GID" => FitsBits(c[1], 28) /\ FitsBits(c[2], 24) /\ FitsBits(c[3], 36)
     /\ s = "USDOD" => FitsBits(c[2], 36)
     /\ s = "ADI" => Len(c[2]) <= 32 /\ Len(c[3]) <= 30

Bad(w) == [st |-> "bad", why |-> w]

ParseBody(s, body) ==
  LET k == SchemeDef[s].kinds
      parts == SplitN(body, cDOT, Len(k))
  IN IF Len(parts) # Len(k) THEN Bad("components")
     ELSE LET r == [i \in 1..Len(k) |-> ParseComp(k[i], parts[i])]
          IN IF \E i \in 1..Len(k) : r[i].st = "bad" THEN Bad("characters")
             ELSE LET c == [i \in 1..Len(k) |-> r[i].raw]
                  IN IF ~Limits(s, c)
                     THEN Bad("limits")
                     ELSE [st |-> IF \E i \in 1..Len(k) : r[i].st = "open" THEN "open" ELSE "ok",
                           id |-> [s |-> s, c |-> c]]

Parse(s, t) ==
  IF ~HasPrefix(t, UriPrefix[s]) THEN Bad("prefix")
  ELSE ParseBody(s, Drop(t, Len(UriPrefix[s])))

RenderBody(id) ==
  LET k == SchemeDef[id.s].kinds
  IN Join([i \in 1..Len(k) |-> Escape(id.c[i], EscapedOf(k[i]))], cDOT)

Render(id) == UriPrefix[id.s] \o RenderBody(id)

Valid(id) == LET p == Parse(id.s, Render(id)) IN p.st = "ok" /\ p.id = id
===========================================================================
