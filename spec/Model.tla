------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The library as a state machine over one identity and its                *)
(* representations.  A behaviour picks an identity, then makes public      *)
(* calls: constructing, encoding into a representation, decoding it again, *)
(* and damaging a representation before it is read.                        *)
(*                                                                         *)
(* TLC checks on it, per property, that what the specification prescribes  *)
(* has that property, and writes down every call it makes; these           *)
(* behaviours are replayed into the library.                               *)
(***************************************************************************)
EXTENDS Domain, Verdicts, Json, CSV, IOUtils

CONSTANTS Property,     \* which property the run is about
          Big,          \* larger domain
          Kinds,        \* representations to visit
          Damage,       \* may representations be damaged?
          Share,        \* identities, and damaged texts, are dealt out in shares
          Shares,       \* and this run takes share Share; Shares = 1: all
          DamageShares,
          Sweep         \* "all": vary every character of a short identity through all
                        \* others; "tokens": only put in meaningful pieces; "no"

VARIABLES scheme, plen,  \* scheme and company prefix length
          phase,         \* "start", "instance", "text", "damaged"
          id,            \* the identity
          rep            \* current representation [k, cs, f, t]
vars == <<scheme, plen, phase, id, rep>>

NoRep == [k |-> "", cs |-> "", f |-> 0, t |-> <<>>]
NoId == [s |-> "", c |-> <<>>]

OutFile == IOEnv.MODEL_OUT
Emit(r) == CSVWrite("%1$s", <<ToJson(r)>>, OutFile)

(* a cheap checksum that deals identities out to shares *)
Sum(c) == FoldLeft(LAMBDA a, t : FoldLeft(LAMBDA b, x : (31 * b + x) % 10007, a, t), 7, c)

Init == /\ scheme \in Schemes
        /\ plen \in PrefixLengths(scheme)
        /\ phase = "start" /\ id = NoId /\ rep = NoRep

(* one identity of each kind is taken whatever the share *)
Typical(C) == IF plen \notin {0, 7, 12} THEN <<>>
              ELSE IF \E c \in C : Sum(c) % 9 = 5 THEN CHOOSE c \in C : Sum(c) % 9 = 5
              ELSE CHOOSE c \in C : TRUE

Sweeping == Sweep # "no" /\ plen \in {0, 7}

Pick == /\ phase = "start"
        /\ LET C == Candidates(scheme, plen, Big) \cup (IF Sweeping THEN {Short(scheme)} ELSE {})
               typical == IF Shares = 1 THEN <<>> ELSE Typical(C)
           IN \E c \in C :
                /\ Shares = 1 \/ Sum(c) % Shares = Share \/ c = typical \/ (Sweeping /\ c = Short(scheme))
                /\ Valid([s |-> scheme, c |-> c])
                /\ id' = [s |-> scheme, c |-> c]
                /\ Emit([o |-> "new", c |-> scheme, a |-> Render(id'), x |-> c])
        /\ phase' = "instance"
        /\ UNCHANGED <<scheme, plen, rep>>

(* the filter values to use with an identity: all if Big, else two that   *)
(* depend on the identity so that all occur                                 *)
FilterChoice(cs) == IF Big THEN Filters(cs)
                    ELSE LET n == Cardinality(Filters(cs))
                         IN {(Sum(id.c) + 5 * j) % n : j \in IF Damage THEN {0} ELSE 0..1}

Text(k, cs, f) ==
  CASE k = "tag" -> TagUri(id, cs, f)
    [] k = "bin" -> BitsText(Encode(id, cs, f))
    [] k = "hex" -> HexOf(Encode(id, cs, f))
    [] k = "b64" -> B64Of(Encode(id, cs, f))

(* tag_uri(), binary(), hex(), base64() *)
EncodeTag ==
  /\ phase = "instance"
  /\ \E k \in Kinds \cap TagOps, cs \in SchemesOf[scheme] :
       \E f \in FilterChoice(cs) :
         IF Encodable(id, cs)
         THEN /\ phase' = "text" /\ rep' = [k |-> k, cs |-> cs, f |-> f, t |-> Text(k, cs, f)]
              /\ Emit([o |-> k, c |-> scheme, u |-> Render(id), cs |-> cs, f |-> f, k |-> "ok", r |-> rep'.t])
         ELSE /\ UNCHANGED <<phase, rep>>     \* refused
              /\ Emit([o |-> k, c |-> scheme, u |-> Render(id), cs |-> cs, f |-> f, k |-> "exc", r |-> <<>>])
  /\ UNCHANGED <<scheme, plen, id>>

(* the same four, with arguments left out or given by position *)
EncodeStyled ==
  /\ phase = "instance" /\ "style" \in Kinds /\ scheme \in TagSchemes
  /\ \E k \in TagOps, cs \in SchemesOf[scheme], st \in Styles(scheme) :
       \E f \in FilterChoice(cs) :
         LET ecs == StyledCS(scheme, st, cs)
             ef == StyledFilter(st, f)
         IN /\ IF Encodable(id, ecs)
               THEN phase' = "text" /\ rep' = [k |-> k, cs |-> ecs, f |-> ef, t |-> Text(k, ecs, ef)]
               ELSE UNCHANGED <<phase, rep>>
            /\ Emit([o |-> "style", op |-> k, c |-> scheme, u |-> Render(id), cs |-> cs, f |-> f, ecs |-> ecs, ef |-> ef,
                     st |-> st, ff |-> IF FilterFirst(scheme, k) THEN 1 ELSE 0, r |-> <<>>])
  /\ UNCHANGED <<scheme, plen, id>>

(* and with coding scheme and filter value chosen by name *)
EncodeNamed ==
  /\ phase = "instance" /\ "name" \in Kinds /\ scheme \in TagSchemes
  /\ \E k \in TagOps, cs \in SchemesOf[scheme] :
       \E f \in Filters(cs) :
         /\ IF Encodable(id, cs)
            THEN phase' = "text" /\ rep' = [k |-> k, cs |-> cs, f |-> f, t |-> Text(k, cs, f)]
            ELSE UNCHANGED <<phase, rep>>
         /\ Emit([o |-> "name", op |-> k, c |-> scheme, u |-> Render(id), cs |-> cs, f |-> f,
                  a |-> <<CodingName[cs], IF scheme = "GID" THEN <<>> ELSE FilterNames[scheme][f]>>, r |-> <<>>])
  /\ UNCHANGED <<scheme, plen, id>>

(* gs1_element_string() *)
ElementString ==
  /\ phase = "instance" /\ "ele" \in Kinds /\ scheme \in ElementSchemes
  /\ phase' = "text" /\ rep' = [k |-> "ele", cs |-> "", f |-> plen, t |-> Element(id)]
  /\ Emit([o |-> "ele", c |-> scheme, u |-> Render(id), f |-> plen, k |-> "ok", r |-> rep'.t])
  /\ UNCHANGED <<scheme, plen, id>>

(* gs1_key(), with and without a GTIN length *)
GsKey ==
  /\ phase = "instance" /\ "key" \in Kinds /\ scheme \in KeyedSchemes
  /\ \E n \in {0} \cup (IF scheme \in GtinSchemes THEN GtinLengths ELSE {}) :
       LET e == KeyN(id, n)
       IN /\ IF e.st = "ok" THEN phase' = "text" /\ rep' = [k |-> "key", cs |-> "", f |-> n, t |-> e.r]
             ELSE UNCHANGED <<phase, rep>>
          /\ Emit([o |-> "key", c |-> scheme, u |-> Render(id), f |-> n, k |-> IF e.st = "ok" THEN "ok" ELSE "exc", r |-> e.r])
  /\ UNCHANGED <<scheme, plen, id>>

(* the pure identity URI and the patterns that match it *)
ReadUri ==
  /\ phase = "instance" /\ "uri" \in Kinds
  /\ phase' = "text" /\ rep' = [k |-> "uri", cs |-> "", f |-> 0, t |-> Render(id)]
  /\ UNCHANGED <<scheme, plen, id>>

Wildcards(c, S) == [i \in 1..Len(c) |-> IF i \in S THEN <<cSTAR>> ELSE Escape(c[i], EscapedOf(SchemeDef[scheme].kinds[i]))]
Pattern ==
  /\ phase = "instance" /\ "pat" \in Kinds /\ scheme \in PatSchemes
  /\ \E S \in SUBSET (1..Len(id.c)) :
       /\ phase' = "text"
       /\ rep' = [k |-> "pat", cs |-> "", f |-> Cardinality(S),
                  t |-> PatPrefix \o IdentText[scheme] \o <<cCOLON>> \o Join(Wildcards(id.c, S), cDOT)]
       /\ Emit([o |-> "pat", c |-> scheme, u |-> Render(id), x |-> id.c, f |-> Cardinality(S),
                w |-> IF S = {Len(id.c)} THEN "last" ELSE IF S = {} THEN "none" ELSE "more",
                k |-> ParsePattern(rep'.t).st, r |-> rep'.t])
  /\ UNCHANGED <<scheme, plen, id>>

(* what the reader of a representation makes of text t *)
ReadBack(k, cs, f, t) ==
  CASE k = "uri" -> Parse(scheme, t)
    [] k = "tag" -> ParseTagUri(t)
    [] k = "bin" -> DecodeText("fbin", scheme, t)
    [] k = "hex" -> DecodeText("fhex", scheme, t)
    [] k = "b64" -> DecodeText("fb64", scheme, t)
    [] k = "ele" -> ParseElement(scheme, t, f)
    [] k = "pat" -> ParsePattern(t)

(* from_binary() and the like: back to the instance *)
Decode ==
  /\ phase = "text" /\ rep.k \notin {"key", "pat"}
  /\ LET p == ReadBack(rep.k, rep.cs, rep.f, rep.t)
     IN phase' = "instance" /\ id' = p.id
  /\ rep' = NoRep
  /\ UNCHANGED <<scheme, plen>>

(***************************************************************************)
(* Damage: a character replaced, removed or inserted anywhere, the text    *)
(* cut short, or bits flipped.                                             *)
(***************************************************************************)
Substitutes(k) ==
  CASE k = "bin" -> {48, 49, 50}
    [] k = "hex" -> {48, 51, 70, 71, 97}
    [] k = "b64" -> {65, 47, 119}
    [] k = "ele" -> {48, 57, 65, cLPAR, cDOT, 233}
    [] OTHER -> {48, 57, 65, 97, cDOT, cCOLON, cPCT, cSTAR, cSLASH, cHASH, cSPACE, 1632}

Damaged(k, t) ==
  {SubSeq(t, 1, i - 1) \o <<x>> \o SubSeq(t, i + 1, Len(t)) : i \in 1..Len(t), x \in Substitutes(k)}
  \cup {SubSeq(t, 1, i - 1) \o SubSeq(t, i + 1, Len(t)) : i \in 1..Len(t)}
  \cup {SubSeq(t, 1, i) : i \in 0..(Len(t) - 1)}
  \cup {SubSeq(t, 1, i) \o <<x>> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), x \in {48, 65, cDOT}}

DamageIt ==
  /\ Damage /\ phase = "text" /\ rep.k # "key"
  /\ \E t \in Damaged(rep.k, rep.t) :
       /\ t # rep.t
       /\ DamageShares = 1 \/ Sum(<<t>>) % DamageShares = Share % DamageShares
       /\ Property = "C15" => Parse(scheme, t).st = "ok"
       /\ phase' = "damaged" /\ rep' = [rep EXCEPT !.t = t]
       /\ Emit([o |-> "bad", of |-> rep.k, c |-> scheme, f |-> rep.f, u |-> IF Property = "C15" THEN Render(id) ELSE <<>>, r |-> t])
  /\ UNCHANGED <<scheme, plen, id>>

(* exhaustively: every character of a short text replaced by every printable *)
(* character and some others, or one of them put in                          *)
SweepChars == 32..126 \cup {9, 10, 13, 127, 178, 233, 1632, 65297}
(* and pieces with a meaning: application identifiers, escapes, separators, prefixes *)
Tokens(k) ==
  IF k = "ele" THEN {AIs[x] : x \in DOMAIN AIs} \cup {Str("(21)1"), Str("()"), Str("(8011)1"), Str("(0000)"), Str("(abcd)")}
  ELSE {Str("%2F"), Str("%2f"), Str("%25"), Str("%23"), Str("%00"), Str("%41"), Str("%C3%A9"), Str(".."), Str(".1"), Str("1."), Str(".*"), Str("*."),
        Str("urn:epc:id:"), Str(":1"), Str("0.0"), Str("1.2.3")}
Doubling(t) == {SubSeq(t, 1, j) \o Drop(t, i - 1) : i \in 1..Len(t), j \in {n \in 1..Len(t) : n = Len(t) \/ t[n] \in {cDOT, cCOLON, cLPAR}}}
Spliced(k, t) ==
  {SubSeq(t, 1, i) \o x \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), x \in Tokens(k)} \cup Doubling(t)
Swept(k, t) ==
  IF Sweep = "tokens" THEN Spliced(k, t) ELSE
  Spliced(k, t) \cup
  {SubSeq(t, 1, i - 1) \o <<x>> \o SubSeq(t, i + 1, Len(t)) : i \in 1..Len(t), x \in SweepChars}
  \cup (IF k = "pat" THEN {} ELSE {SubSeq(t, 1, i) \o <<x>> \o SubSeq(t, i + 1, Len(t)) : i \in 0..Len(t), x \in SweepChars})
SweepIt ==
  /\ Damage /\ Sweeping /\ id = [s |-> scheme, c |-> Short(scheme)]
  /\ phase = "text" /\ rep.k \in {"uri", "tag", "ele", "pat"}
  /\ rep.k = "pat" => rep.f = 0 \/ (rep.f = 1 /\ rep.t[Len(rep.t)] = cSTAR)
  /\ LET n == CASE rep.k = "ele" -> 0 [] rep.k = "tag" -> Len(TagPrefix) [] rep.k = "pat" -> Len(PatPrefix) [] OTHER -> 11
     IN \E t \in Swept(rep.k, SubSeq(rep.t, n + 1, Len(rep.t))) :
          LET new == Take(rep.t, n) \o t
          IN /\ new # rep.t
             /\ Property = "C15" => Parse(scheme, new).st = "ok"
             /\ phase' = "damaged" /\ rep' = [rep EXCEPT !.t = new]
             /\ Emit([o |-> "bad", of |-> rep.k, c |-> scheme, f |-> rep.f, u |-> Render(id), r |-> new])
  /\ UNCHANGED <<scheme, plen, id>>

Next == SweepIt \/ Pick \/ EncodeTag \/ EncodeStyled \/ EncodeNamed \/ ElementString \/ GsKey \/ ReadUri \/ Pattern \/ Decode \/ DamageIt
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What the specification itself must satisfy. *)

TypeOK == phase \in {"start", "instance", "text", "damaged"} /\ scheme \in Schemes

(* an instance always stands for the identity picked: nothing is lost on the *)
(* way through a representation                                              *)
Preserved == [][phase = "text" /\ phase' = "instance" => id' = id]_vars

Undamaged(k) == phase = "text" /\ rep.k = k
Bits == CASE rep.k = "bin" -> TextBits(rep.t) [] rep.k = "hex" -> HexToBits(rep.t)
          [] rep.k = "b64" -> LET b == SelectSeq(rep.t, LAMBDA c : c # cEQ) IN B64ToBits(b)

(* C01 *)
RoundTrip == Undamaged("bin") =>
  \A tail \in {<<>>, <<0>>, <<1>>, Zeros(16), <<1, 0, 1, 1, 0, 1, 1>>} :
     LET d == DecodeAny(TextBits(rep.t) \o tail)
     IN d.st = "ok" /\ d.id = id /\ d.cs = rep.cs /\ d.filter = rep.f /\ d.used = Len(rep.t)
(* C02 *)
Layout == Undamaged("bin") =>
  LET def == CodingScheme[rep.cs]
      b == TextBits(rep.t)
  IN /\ def.size > 0 => Len(b) = def.size
     /\ BitsToNat(Take(b, 8)) = def.header
     /\ FilterBits(rep.cs) > 0 => BitsToNat(SubSeq(b, 9, 8 + FilterBits(rep.cs))) = rep.f
     /\ def.size = 0 => Len(b) <= 800
ASSUME HeadersDistinct == Cardinality({CodingScheme[cs].header : cs \in CodingSchemes}) = Cardinality(CodingSchemes)
(* C03 *)
FormsAgree == phase = "text" /\ rep.k \in {"bin", "hex", "b64"} =>
  LET d == DecodeAny(Bits) IN d.st = "ok" /\ d.id = id
(* C04: encodable exactly if the fields give the identity back *)
Faithful == phase = "instance" => \A cs \in SchemesOf[scheme] :
  Encodable(id, cs) => DecodeAny(Encode(id, cs, 0)).id = id
(* C05 *)
Views == /\ Undamaged("hex") => Len(rep.t) % 4 = 0 /\ ToUpperHex(rep.t) = rep.t
         /\ Undamaged("b64") => Len(rep.t) % 4 = 0
         /\ phase = "text" /\ rep.k \in {"hex", "b64"} =>
              HasPrefix(Bits, Encode(id, rep.cs, rep.f)) /\ \A i \in (Len(Encode(id, rep.cs, rep.f)) + 1)..Len(Bits) : Bits[i] = 0
(* C06, C07, C08 *)
TagUriReads == Undamaged("tag") => LET p == ParseTagUri(rep.t) IN p.st = "ok" /\ p.id = id /\ p.cs = rep.cs
UriReads == phase = "instance" => LET p == Parse(scheme, Render(id)) IN p.st = "ok" /\ p.id = id
ElementReads == Undamaged("ele") =>
  /\ ElementOwners(rep.t) = {scheme}
  /\ LET p == ParseElement(scheme, rep.t, plen) IN p.st = "ok" /\ p.id = id
(* C09: the check digit makes the weighted digit sum a multiple of ten *)
Weighted(d) == FoldLeft(LAMBDA a, i : a + (d[i] - 48) * (IF (Len(d) - i) % 2 = 1 THEN 3 ELSE 1), 0, [i \in 1..Len(d) |-> i])
KeyChecks == Undamaged("key") /\ scheme \notin {"GIAI", "GINC"} =>
  LET n == CASE rep.f # 0 -> rep.f [] scheme \in {"GRAI", "GDTI", "SGCN"} -> 13 [] OTHER -> Len(rep.t)
  IN Weighted(Take(rep.t, n)) % 10 = 0
(* C10: nobody disputes ownership of a text *)
OneOwner == phase \in {"text", "damaged"} =>
  /\ Cardinality(UriOwners(rep.t)) <= 1
  /\ Cardinality(ElementOwners(rep.t)) <= 1
(* C11: a text of one notation is not also one of another *)
OneNotation == phase \in {"text", "damaged"} /\ rep.k # "key" =>
  Cardinality({k \in 1..5 : CASE k = 1 -> UriOwners(rep.t) # {}
                              [] k = 2 -> HasPrefix(rep.t, TagPrefix)
                              [] k = 3 -> ElementOwners(rep.t) # {}
                              [] k = 4 -> DecodeText("p_bin", "", rep.t).st = "ok"
                              [] k = 5 -> DecodeText("p_hex", "", rep.t).st = "ok"}) <= 1
(* C13, C12: every damaged text has a verdict *)
Judged == phase = "damaged" => ReadBack(rep.k, rep.cs, rep.f, rep.t).st \in {"ok", "open", "loose", "bad"}
(* no damage goes unnoticed in a way that gives the same text for another identity *)
Injective == phase = "damaged" /\ rep.k \in {"uri", "tag"} =>
  LET p == ReadBack(rep.k, rep.cs, rep.f, rep.t) IN p.st = "ok" => (p.id # id \/ rep.k = "tag")
(* C16 *)
PatternKey == Undamaged("pat") =>
  LET p == ParsePattern(rep.t)
  IN /\ p.st = "ok" => scheme \in KeyedSchemes
     /\ p.st = "ok" /\ scheme \in WildSerial => Key(p.id) = Key(id)
     /\ rep.f = 0 /\ scheme \in KeyedSchemes => p.st = "ok" /\ p.id = id
(* C18: whatever the style, the text is that of the effective arguments *)
StyleFree == phase = "text" /\ rep.k \in {"bin", "hex", "b64"} =>
  LET d == DecodeAny(Bits) IN d.st = "ok" /\ d.id = id /\ d.cs = rep.cs /\ d.filter = rep.f
(* C19: names are unambiguous and every value has one *)
ASSUME NamesDistinct ==
  /\ \A s \in DOMAIN FilterNames : \A cs \in SchemesOf[s] : DOMAIN FilterNames[s] = Filters(cs)
  /\ \A s \in DOMAIN FilterNames : \A f \in DOMAIN FilterNames[s] : FilterNamed(s, FilterNames[s][f]) = {f}
  /\ \A s \in TagSchemes : \A cs \in SchemesOf[s] : CodingNamed(s, CodingName[cs]) = {cs}
(* C17: reading what was written for something that decodes gives it again *)
Stable == phase = "damaged" /\ rep.k = "bin" =>
  LET d == DecodeText("fbin", scheme, rep.t)
  IN d.st = "ok" => /\ Encodable(d.id, d.cs)
                    /\ DecodeAny(Encode(d.id, d.cs, d.filter)).id = d.id
=============================================================================
