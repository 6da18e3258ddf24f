------------------------------ MODULE Verdicts ------------------------------
(***************************************************************************)
(* Every recorded call of the library is an event                          *)
(*   o   operation            c  class it was made on ("" if none)         *)
(*   h   earlier events of the session it refers to (instances, sources)   *)
(*   a   text arguments       n  integer arguments                         *)
(*   cs  coding scheme        f  filter value                              *)
(*   k   "ok" or "exc"        x  exception class                           *)
(*   r   resulting text (for instances their pure identity URI)            *)
(*   rc  class of the resulting instance ("" if the result is text)        *)
(* For each property the operator V_<property> gives the verdict on one    *)
(* event: OK (the property constrains the event, and it complies), NA (the *)
(* property does not constrain it), or the name of the violated clause.    *)
(* es is the sequence of events of the session up to and including ev,     *)
(* pool[i] what the specification knows about the instance event i gave.   *)
(***************************************************************************)
EXTENDS Names

OK == "ok"
NA == "na"
Must(b, clause) == IF b THEN OK ELSE clause

IsOk(ev) == ev.k = "ok"
IsCE(ev) == ev.k = "exc" /\ ev.x = "ConvertException"
IsInst(ev, s, uri) == ev.k = "ok" /\ ev.rc = s /\ ev.r = uri
SameInst(ev, ref) == ev.k = "ok" /\ ev.rc = ref.rc /\ ev.r = ref.r
SameOutcome(ev, ref) ==
  \/ ev.k = "ok" /\ ref.k = "ok" /\ ev.rc = ref.rc /\ ev.r = ref.r
  \/ ev.k = "exc" /\ ref.k = "exc" /\ ev.x = ref.x

(* operations on an instance (h[1]) that give a tag representation *)
TagOps == {"tag", "bin", "hex", "b64"}
BinDecoders == {"fbin", "p_bin"}
HexDecoders == {"fhex", "p_hex"}
B64Decoders == {"fb64", "p_b64"}
Decoders == BinDecoders \cup HexDecoders \cup B64Decoders
ClassDecoders == {"fbin", "fhex", "fb64"}

(* what is known about an instance: its identity, from class and URI *)
Know(ev) == IF ev.k = "ok" /\ ev.rc \in Schemes
            THEN LET p == Parse(ev.rc, ev.r) IN IF p.st = "ok" THEN p ELSE [st |-> "none"]
            ELSE [st |-> "none"]

Obj(ev, pool) == IF Len(ev.h) = 0 THEN [st |-> "none"] ELSE pool[ev.h[1]]
HasId(ev, pool) == Len(ev.h) > 0 /\ pool[ev.h[1]].st = "ok"
CanEncode(ev, pool) == HasId(ev, pool) /\ ev.cs \in CodingSchemes /\ Encodable(Obj(ev, pool).id, ev.cs)

(* bits denoted by the argument of a decoder; "open" where the library is   *)
(* free to be lenient, "bad" where the text is not of the notation at all   *)
BitsIn(o, t) ==
     CASE o \in BinDecoders ->
            IF IsBitText(t) THEN [st |-> "ok", b |-> TextBits(t)]
            ELSE IF Len(t) < 8 \/ ~IsBitText(Take(t, 8)) THEN [st |-> "bad"]
            ELSE LET h == BitsToNat(TextBits(Take(t, 8)))
                 IN IF h \notin DOMAIN CSOfHeader THEN [st |-> "bad"]
                    ELSE LET z == CodingScheme[CSOfHeader[h]].size
                         IN IF z > 0 /\ Len(t) >= z /\ IsBitText(Take(t, z)) THEN [st |-> "open"]
                            ELSE [st |-> "bad"]
       [] o \in HexDecoders ->
            IF Len(t) > 0 /\ \A i \in 1..Len(t) : IsHexChar(t[i])
            THEN [st |-> "ok", b |-> HexToBits(t)] ELSE [st |-> "bad"]
       [] o \in B64Decoders ->
            LET k == IndexFrom(t, cEQ, 1)
                body == IF k = 0 THEN t ELSE Take(t, k - 1)
                pad == IF k = 0 THEN <<>> ELSE Drop(t, k - 1)
            IN IF (\A i \in 1..Len(body) : IsB64Char(body[i])) /\ Len(body) % 4 # 1
                  /\ (pad = <<>> \/ ((Len(body) + Len(pad)) % 4 = 0 /\ Len(pad) <= 2 /\ AllIn(pad, {cEQ})))
               THEN [st |-> "ok", b |-> B64ToBits(body)] ELSE [st |-> "open"]

(* what decoder o (of class c, if a class's) is to make of text t *)
DecodeText(o, c, t) ==
  LET a == BitsIn(o, t)
  IN IF a.st = "bad" THEN DBad("notation")
     ELSE IF a.st = "open" THEN [st |-> "loose"]
     ELSE IF o \in ClassDecoders THEN DecodeClass(c, a.b) ELSE DecodeAny(a.b)

Decoded(ev) == DecodeText(ev.o, ev.c, ev.a[1])

-----------------------------------------------------------------------------
V_C01(ev, es, pool) ==
  CASE ev.o = "bin" -> IF CanEncode(ev, pool) THEN Must(IsOk(ev), "encoding not produced") ELSE NA
    [] ev.o \in BinDecoders ->
         IF Len(ev.h) = 0 THEN NA
         ELSE LET src == es[ev.h[1]]
              IN IF ~(src.o = "bin" /\ src.k = "ok" /\ CanEncode(src, pool)) THEN NA
                 ELSE IF ~HasPrefix(ev.a[1], src.r) THEN "script: not the encoding"
                 ELSE Must(SameInst(ev, es[src.h[1]]), "decodes to something else")
    [] OTHER -> NA

V_C02(ev, es, pool) ==
  IF ev.o = "bin" /\ IsOk(ev) /\ CanEncode(ev, pool)
  THEN Must(ev.r = BitsText(Encode(Obj(ev, pool).id, ev.cs, ev.f)), "bit layout")
  ELSE NA

V_C03(ev, es, pool) ==
  IF ev.o \in Decoders
  THEN LET d == Decoded(ev)
       IN IF d.st = "ok" THEN Must(IsInst(ev, d.id.s, Render(d.id)), "conforming tag misread") ELSE NA
  ELSE NA

V_C04(ev, es, pool) ==
  IF ev.o \in TagOps /\ HasId(ev, pool)
  THEN IF CanEncode(ev, pool) THEN Must(IsOk(ev), "representable but refused")
       ELSE Must(IsCE(ev), "not representable but not refused")
  ELSE NA

(* h: for hex/b64 <<instance, bin event>>; for decoders                     *)
(* <<reference decoding of the binary form, hex/b64 event>>                 *)
V_C05(ev, es, pool) ==
  CASE ev.o \in {"hex", "b64"} ->
         IF Len(ev.h) < 2 \/ ~IsOk(es[ev.h[2]]) \/ ~IsBitText(es[ev.h[2]].r) THEN NA
         ELSE LET b == TextBits(es[ev.h[2]].r)
              IN IF ~(es[ev.h[2]].cs = ev.cs /\ es[ev.h[2]].f = ev.f /\ es[ev.h[2]].h[1] = ev.h[1])
                 THEN "script: other encoding"
                 ELSE Must(IsOk(ev) /\ ev.r = (IF ev.o = "hex" THEN HexOf(b) ELSE B64Of(b)), "view of the bits")
    [] ev.o \in HexDecoders \cup B64Decoders ->
         IF Len(ev.h) < 2 \/ ~IsOk(es[ev.h[1]]) \/ ~IsOk(es[ev.h[2]]) THEN NA
         ELSE LET src == es[ev.h[2]].r
                  t == ev.a[1]
                  same == IF ev.o \in HexDecoders THEN ToUpperHex(t) = ToUpperHex(src)
                          ELSE SelectSeq(t, LAMBDA c : c # cEQ) = SelectSeq(src, LAMBDA c : c # cEQ)
              IN IF ~same THEN "script: other text"
                 ELSE Must(SameInst(ev, es[ev.h[1]]), "decodes differently")
    [] OTHER -> NA

V_C06(ev, es, pool) ==
  CASE ev.o = "tag" ->
         IF IsOk(ev) /\ CanEncode(ev, pool)
         THEN Must(ev.r = TagUri(Obj(ev, pool).id, ev.cs, ev.f), "tag URI text") ELSE NA
    [] ev.o \in {"ftag", "p_tag"} ->
         LET p == ParseTagUri(ev.a[1])
         IN IF p.st = "bad" THEN Must(IsCE(ev), "malformed tag URI not refused")
            ELSE IF ev.o = "ftag" /\ p.id.s # ev.c THEN Must(IsCE(ev), "foreign tag URI not refused")
            ELSE IF p.st = "ok" THEN Must(IsInst(ev, p.id.s, Render(p.id)), "tag URI misread")
            ELSE NA
    [] OTHER -> NA

V_C07(ev, es, pool) ==
  IF ev.o \in {"new", "epc"}
  THEN LET p == Parse(ev.c, ev.a[1])
       IN CASE p.st = "ok"   -> Must(IsInst(ev, ev.c, ev.a[1]), "valid URI not accepted as given")
            [] p.st = "bad"  -> Must(IsCE(ev), "invalid URI not refused")
            [] p.st = "open" -> Must(IsCE(ev) \/ IsInst(ev, ev.c, ev.a[1]), "URI altered")
  ELSE NA

(* the pure identity a scheme-independent pure identity parser is to find *)
UriOwners(t) == {s \in Schemes : HasPrefix(t, UriPrefix[s])}
ParseAny(t) == LET o == UriOwners(t) IN IF o = {} THEN Bad("scheme") ELSE Parse(CHOOSE s \in o : TRUE, t)

V_C08(ev, es, pool) ==
  CASE ev.o = "ele" -> IF HasId(ev, pool) /\ Obj(ev, pool).id.s \in ElementSchemes
                       THEN Must(IsOk(ev) /\ ev.r = Element(Obj(ev, pool).id), "element string text") ELSE NA
    [] ev.o = "p_elestr" ->
         LET p == ParseAny(ev.a[1])
         IN IF p.st = "ok" /\ p.id.s \in ElementSchemes
            THEN Must(IsOk(ev) /\ ev.r = Element(p.id), "element string text") ELSE NA
    [] ev.o \in {"fele", "p_ele"} ->
         LET own == IF ev.o = "fele" THEN {ev.c} ELSE ElementOwners(ev.a[1])
         IN IF own = {} THEN Must(IsCE(ev), "malformed element string not refused")
            ELSE LET p == ParseElement(CHOOSE s \in own : TRUE, ev.a[1], ev.n[1])
                 IN CASE p.st = "ok" -> Must(IsInst(ev, p.id.s, Render(p.id)), "element string misread")
                      [] p.st = "bad" -> Must(IsCE(ev), "malformed element string not refused")
                      [] OTHER -> NA
    [] OTHER -> NA

KeyOutcome(ev, id, n) ==
  LET e == KeyN(id, n)
  IN IF e.st = "ok" THEN Must(IsOk(ev) /\ ev.r = e.r, "key digits")
     ELSE Must(IsCE(ev), "GTIN of that length does not exist")

(* serial texts that read the same with and without escapes *)
V_C09(ev, es, pool) ==
  CASE ev.o \in {"key", "gtin"} ->
         IF HasId(ev, pool) /\ Obj(ev, pool).id.s \in KeyedSchemes
         THEN KeyOutcome(ev, Obj(ev, pool).id, IF ev.o = "gtin" /\ ev.n[1] = 0 THEN 14 ELSE ev.n[1]) ELSE NA
    [] ev.o = "p_key" ->
         LET p == ParseAny(ev.a[1])
         IN IF p.st = "ok" /\ p.id.s \in KeyedSchemes THEN KeyOutcome(ev, p.id, ev.n[1]) ELSE NA
    [] ev.o = "fgtin" ->
         LET g == PadDec(ev.a[1], 14)
             n == ev.n[1]
             id(x) == [s |-> "SGTIN", c |-> << SubSeq(g, 2, n + 1), <<g[1]>> \o SubSeq(g, n + 2, 13), x >>]
             x == ev.a[2]
             u == Unescape(x, GsPlain, GsEscaped)
         IN IF Len(ev.a[1]) = 0 THEN NA
            ELSE IF Len(ev.a[1]) > 14 \/ ~AllDigits(ev.a[1]) \/ n \notin 6..12 THEN Must(IsCE(ev), "not a GTIN but not refused")
            ELSE IF AllIn(x, GsPlain) /\ Len(x) \in 1..20
                 THEN Must(IsInst(ev, "SGTIN", Render(id(x))) \/ (IsCE(ev) /\ g[14] # CheckDigit(Take(g, 13))), "SGTIN built from GTIN")
            ELSE (* special characters: as they are, or already escaped *)
                 Must(\/ IsCE(ev)
                      \/ AllIn(x, GsAll) /\ Valid(id(x)) /\ IsInst(ev, "SGTIN", Render(id(x)))
                      \/ u.st # "bad" /\ Valid(id(u.raw)) /\ ev.k = "ok" /\ ev.rc = "SGTIN" /\ HasPrefix(ev.r, UriPrefix["SGTIN"])
                            /\ Know(ev) = [st |-> "ok", id |-> id(u.raw)]
                      \/ u.st = "open", "SGTIN built from GTIN")
    [] OTHER -> NA

-----------------------------------------------------------------------------
(* C10: h refers to what the classes that may own the text made of it *)
OwnersOf(ev) ==
  CASE ev.o \in {"p_uri", "p_gs1el", "p_keyed", "p_tagenc", "p_elestr", "p_key"} -> UriOwners(ev.a[1])
    [] ev.o = "p_tag" ->
         IF ~HasPrefix(ev.a[1], TagPrefix) THEN {}
         ELSE LET r == SplitN(Drop(ev.a[1], Len(TagPrefix)), cCOLON, 2)[1]
              IN {CodingScheme[cs].s : cs \in {x \in CodingSchemes : CSText[x] = r}}
    [] ev.o = "p_ele" -> ElementOwners(ev.a[1])
    [] ev.o \in {"p_bin", "p_hex", "p_b64"} ->
         LET a == IF ev.o = "p_bin"
                  THEN (IF Len(ev.a[1]) >= 8 /\ IsBitText(Take(ev.a[1], 8))
                        THEN [st |-> "ok", b |-> TextBits(Take(ev.a[1], 8))] ELSE [st |-> "bad"])
                  ELSE BitsIn(ev.o, ev.a[1])
         IN IF a.st = "bad" THEN {}
            ELSE IF a.st = "open" THEN {"?"}
            ELSE LET h == HeaderOf(a.b)
                 IN IF h \in DOMAIN CSOfHeader THEN {CodingScheme[CSOfHeader[h]].s} ELSE {}

Capable(o, s) ==
  CASE o \in {"p_gs1el", "p_elestr"} -> s \in ElementSchemes
    [] o \in {"p_keyed", "p_key"} -> s \in KeyedSchemes
    [] o = "p_tagenc" -> s \in TagSchemes
    [] OTHER -> TRUE

ParserOps == {"p_uri", "p_tag", "p_bin", "p_hex", "p_b64", "p_ele", "p_gs1el", "p_keyed",
              "p_tagenc", "p_elestr", "p_key"}

V_C10(ev, es, pool) ==
  IF ev.o \notin ParserOps THEN NA
  ELSE LET own == OwnersOf(ev)
       IN IF own = {"?"} THEN NA
          ELSE IF own = {} THEN Must(IsCE(ev), "nobody owns it but not refused")
          ELSE LET s == CHOOSE x \in own : TRUE
               IN IF ~Capable(ev.o, s) THEN Must(IsCE(ev), "capability missing but not refused")
                  ELSE LET asked == {i \in 1..Len(ev.h) : es[ev.h[i]].c = s}
                       IN IF asked = {} THEN "script: owner not asked"
                          ELSE Must(SameOutcome(ev, es[ev.h[CHOOSE i \in asked : TRUE]]), "differs from owning class")

-----------------------------------------------------------------------------
(* C11: h = <<key event, representation event>>; without h the text is      *)
(* claimed to represent nothing that has a key                              *)
(* does the text represent no identity with a GS1 key, in any notation? *)
NoKey(t, n) ==
  LET kb(p) == p.st = "bad" \/ (p.st = "ok" /\ p.id.s \notin KeyedSchemes)
      ele == LET own == ElementOwners(t)
             IN IF own = {} THEN Bad("shape") ELSE ParseElement(CHOOSE s \in own : TRUE, t, n)
  IN /\ kb(ParseAny(t)) /\ kb(ParseTagUri(t)) /\ ParsePattern(t).st = "bad"
     /\ kb(DecodeText("p_bin", "", t)) /\ kb(DecodeText("p_hex", "", t))
     /\ (n = 0 \/ kb(ele))

Repr(ev, src) ==
  CASE src.o \in {"new", "epc", "tag", "bin", "ele"} -> ev.a[1] = src.r
    [] src.o = "hex" -> ToUpperHex(ev.a[1]) = ToUpperHex(src.r)
    [] OTHER -> FALSE

(* h = <<key event, representation>>; or <<key event>> for a tag text that   *)
(* carries the same identity, whoever wrote it; or <<>>                      *)
Carries(t, id) == \E o \in {"p_bin", "p_hex"} : LET d == DecodeText(o, "", t) IN d.st = "ok" /\ d.id = id

V_C11(ev, es, pool) ==
  IF ev.o # "k_any" THEN NA
  ELSE IF Len(ev.h) = 0
       THEN IF NoKey(ev.a[1], ev.n[1]) THEN Must(IsCE(ev), "no key but not refused") ELSE NA
  ELSE IF Len(ev.h) = 1
       THEN LET ke == es[ev.h[1]]
                p == pool[ke.h[1]]
            IN IF ~(ke.o = "key" /\ ke.n[1] = ev.n[2]) THEN "script: no key"
               ELSE IF p.st # "ok" \/ ~(IsOk(ke) \/ IsCE(ke)) \/ ~Carries(ev.a[1], p.id) THEN NA
               ELSE Must(SameOutcome(ev, ke), "key differs between representations")
  ELSE LET ke == es[ev.h[1]]
           src == es[ev.h[2]]
           inst == es[ke.h[1]]
           p == pool[ke.h[1]]
       IN IF ~(ke.o = "key" /\ ke.n[1] = ev.n[2] /\ src.k = "ok" /\ Repr(ev, src)) THEN "script: other text"
          ELSE IF p.st # "ok" \/ ~(IsOk(ke) \/ IsCE(ke)) THEN NA
          ELSE IF src.o \in TagOps /\ ~CanEncode(src, pool) THEN NA
          ELSE IF src.o = "ele" /\ ev.n[1] # Len(p.id.c[1]) THEN "script: prefix length"
          ELSE Must(SameOutcome(ev, ke), "key differs between representations")

V_C12(ev, es, pool) == Must(IsOk(ev) \/ IsCE(ev), "foreign exception")

V_C13(ev, es, pool) ==
  IF ev.o \in Decoders
  THEN IF Decoded(ev).st = "bad" THEN Must(IsCE(ev), "malformed tag not refused") ELSE NA
  ELSE NA

(* C14: all events of a session are observations of one and the same call   *)
(* (same operation, arguments and, for methods, class and URI of the        *)
(* instance), made at different points of different histories               *)
V_C14(ev, es, pool) ==
  IF Len(es) = 1 THEN NA
  ELSE IF ~(ev.o = es[1].o /\ ev.c = es[1].c /\ ev.a = es[1].a /\ ev.n = es[1].n /\ ev.cs = es[1].cs /\ ev.f = es[1].f)
       THEN "script: other call"
  ELSE Must(SameOutcome(ev, es[1]), "depends on history")

V_C15(ev, es, pool) ==
  CASE ev.o \in {"eq", "ne"} ->
         IF ~IsOk(es[ev.h[1]]) \/ ~IsOk(es[ev.h[2]]) THEN NA
         ELSE LET same == es[ev.h[1]].r = es[ev.h[2]].r
                  t == IF ev.o = "eq" THEN same ELSE ~same
              IN Must(IsOk(ev) /\ ev.r = (IF t THEN <<49>> ELSE <<48>>), "equality is not equality of URIs")
    [] ev.o \in {"eqx", "nex"} ->
         Must(IsOk(ev) /\ ev.r = (IF ev.o = "nex" THEN <<49>> ELSE <<48>>), "equals a foreign object")
    [] OTHER -> NA

(* C16: h = <<key event of an identity that the pattern matches>> or <<>>   *)
V_C16(ev, es, pool) ==
  IF ev.o # "k_any" \/ ~HasPrefix(ev.a[1], PatPrefix) THEN NA
  ELSE LET p == ParsePattern(ev.a[1])
       IN IF p.st = "bad" THEN Must(IsCE(ev), "pattern without a key not refused")
          ELSE IF p.st = "open" THEN NA
          ELSE IF Len(ev.h) = 0 THEN "script: no reference"
          ELSE LET ke == es[ev.h[1]]
                   q == pool[ke.h[1]]
                   n == Len(p.id.c)
                   wild == p.id.c[n] = <<cSTAR>>
               IN IF q.st # "ok" \/ ~(IsOk(ke) \/ IsCE(ke)) THEN NA
                  ELSE IF ~(ke.o = "key" /\ q.id.s = p.id.s /\ ke.n[1] = ev.n[2]
                            /\ Take(q.id.c, n - 1) = Take(p.id.c, n - 1)) THEN "script: no match"
                  ELSE IF ~wild
                       THEN IF q.id # p.id THEN "script: no match" ELSE Must(SameOutcome(ev, ke), "key of pattern")
                  ELSE IF p.id.s \in WildSerial THEN Must(SameOutcome(ev, ke), "key of pattern")
                  ELSE IF p.id.s \notin WildKey \/ Len(q.id.c[n]) # 1 THEN "script: no match"
                  ELSE Must(IsOk(ev) /\ IsOk(ke) /\ ev.r = Append(Take(ke.r, Len(ke.r) - 1), cSTAR), "key of pattern")

(* C17: fbin (arbitrary bits) ; bin on its result with the coding scheme    *)
(* and filter of the bits ; fbin of that                                    *)
V_C17(ev, es, pool) ==
  CASE ev.o = "bin" /\ Len(ev.h) > 0 /\ es[ev.h[1]].o = "fbin" /\ IsOk(es[ev.h[1]]) ->
         LET t == es[ev.h[1]].a[1]
             h == IF Len(t) >= 8 /\ IsBitText(Take(t, 8)) THEN BitsToNat(TextBits(Take(t, 8))) ELSE 0
         IN IF h \notin DOMAIN CSOfHeader THEN NA
            ELSE LET cs == CSOfHeader[h]
                     w == FilterBits(cs)
                 IN IF ~(ev.cs = cs /\ (w = 0 \/ ev.f = BitsToNat(TextBits(SubSeq(t, 9, 8 + w)))))
                    THEN "script: other coding scheme"
                    ELSE IF ~IsOk(ev) THEN "decoded but cannot be encoded"
                    ELSE Must(CodingScheme[cs].size = 0 \/ Len(ev.r) = CodingScheme[cs].size, "size")
    [] ev.o = "fbin" /\ Len(ev.h) > 0 /\ es[ev.h[1]].o = "bin" /\ IsOk(es[ev.h[1]]) ->
         IF ev.a[1] # es[ev.h[1]].r THEN "script: other bits"
         ELSE Must(SameInst(ev, es[es[ev.h[1]].h[1]]), "not stable")
    [] OTHER -> NA

(* what a conversion is to give *)
TagText(o, id, cs, f) ==
  CASE o = "tag" -> TagUri(id, cs, f)
    [] o = "bin" -> BitsText(Encode(id, cs, f))
    [] o = "hex" -> HexOf(Encode(id, cs, f))
    [] o = "b64" -> B64Of(Encode(id, cs, f))
Converted(ev, id, cs, f, clause) ==
  IF Encodable(id, cs) THEN Must(IsOk(ev) /\ ev.r = TagText(ev.o, id, cs, f), clause)
  ELSE Must(IsCE(ev), clause)

(* C18: n = <<style, flag: filter value first>>; h = <<instance, the same call with everything named>> *)
V_C18(ev, es, pool) ==
  IF ev.o \in TagOps /\ Len(ev.n) = 2 /\ HasId(ev, pool)
  THEN LET s == Obj(ev, pool).id.s
           st == ev.n[1]
           ref == es[ev.h[2]]
           cs == StyledCS(s, st, ev.cs)
           f == StyledFilter(st, ev.f)
       IN IF ~(st \in Styles(s) /\ (st >= 4 => (ev.n[2] = 1) = FilterFirst(s, ev.o))) THEN "script: style"
          ELSE IF ~(ref.o = ev.o /\ ref.cs = cs /\ ref.f = f /\ ref.n = <<>> /\ ref.h[1] = ev.h[1]) THEN "script: other call"
          ELSE IF SameOutcome(ev, ref) THEN OK ELSE "style of call matters"
  ELSE IF ev.o \in {"key", "gtin"} /\ ev.n = <<0>> /\ Len(ev.h) = 2
  THEN IF es[ev.h[2]].n # <<14>> THEN "script: other call" ELSE Must(SameOutcome(ev, es[ev.h[2]]), "GTIN-14 is not the default")
  ELSE IF ev.o \in {"fele", "p_ele", "k_any"} /\ Len(ev.h) = 1
  THEN LET ref == es[ev.h[1]]
       IN IF ~(ref.o = ev.o /\ ref.c = ev.c /\ ref.a = ev.a /\ ref.h = <<>> /\ ref.n = Take(ev.n, Len(ev.n) - 1))
          THEN "script: other call" ELSE Must(SameOutcome(ev, ref), "style of call matters")
  ELSE NA

(* C19: a = <<name of coding scheme, name of filter value>> *)
V_C19(ev, es, pool) ==
  CASE ev.o \in TagOps /\ Len(ev.a) = 2 ->
         IF ~HasId(ev, pool) THEN NA
         ELSE LET id == Obj(ev, pool).id
                  cs == CodingNamed(id.s, ev.a[1])
                  f == IF id.s = "GID" THEN {0} ELSE FilterNamed(id.s, ev.a[2])
              IN IF cs = {} \/ f = {} THEN "script: name"
                 ELSE Converted(ev, id, CHOOSE x \in cs : TRUE, CHOOSE x \in f : TRUE, "name stands for something else")
    [] ev.o = "hdrs" -> Must(IsOk(ev) /\ ev.r = HeaderText(ev.c), "header table")
    [] ev.o = "names" -> Must(/\ IsOk(ev)
                              /\ ev.r = IF ev.c = "GID" THEN <<>>
                                        ELSE Join([i \in 1..Cardinality(DOMAIN FilterNames[ev.c]) |-> NumText(i - 1)], 59), "filter values")
    [] OTHER -> NA

Verdict(prop, ev, es, pool) ==
  CASE prop = "C01" -> V_C01(ev, es, pool)
    [] prop = "C02" -> V_C02(ev, es, pool)
    [] prop = "C03" -> V_C03(ev, es, pool)
    [] prop = "C04" -> V_C04(ev, es, pool)
    [] prop = "C05" -> V_C05(ev, es, pool)
    [] prop = "C06" -> V_C06(ev, es, pool)
    [] prop = "C07" -> V_C07(ev, es, pool)
    [] prop = "C08" -> V_C08(ev, es, pool)
    [] prop = "C09" -> V_C09(ev, es, pool)
    [] prop = "C10" -> V_C10(ev, es, pool)
    [] prop = "C11" -> V_C11(ev, es, pool)
    [] prop = "C12" -> V_C12(ev, es, pool)
    [] prop = "C13" -> V_C13(ev, es, pool)
    [] prop = "C14" -> V_C14(ev, es, pool)
    [] prop = "C15" -> V_C15(ev, es, pool)
    [] prop = "C16" -> V_C16(ev, es, pool)
    [] prop = "C17" -> V_C17(ev, es, pool)
    [] prop = "C18" -> V_C18(ev, es, pool)
    [] prop = "C19" -> V_C19(ev, es, pool)
=============================================================================
