-------------------------------- MODULE GS1 --------------------------------
(***************************************************************************)
(* GS1 keys, GTINs, GS1 element strings and identity patterns.             *)
(***************************************************************************)
EXTENDS TagCodec

KeyedSchemes == {"SGTIN", "SSCC", "SGLN", "GRAI", "GIAI", "GSRN", "GSRNP", "GDTI",
                 "SGCN", "GINC", "GSIN", "PGLN", "LGTIN"}
ElementSchemes == KeyedSchemes \cup {"CPI", "ITIP", "UPUI"}
GtinSchemes == {"SGTIN", "LGTIN"}

Checked(d) == Append(d, CheckDigit(d))

(* company prefix with the leading digit of the reference moved in front *)
Rotated(c) == <<c[2][1]>> \o c[1] \o Tail(c[2])

Gtin14(id) == Checked(Rotated(id.c))

Key(id) ==
  CASE id.s \in {"SGTIN", "LGTIN", "SSCC"} -> Checked(Rotated(id.c))
    [] id.s \in {"SGLN", "PGLN", "GSRN", "GSRNP", "GSIN"} -> Checked(id.c[1] \o id.c[2])
    [] id.s \in {"GRAI", "GDTI", "SGCN"} -> Checked(id.c[1] \o id.c[2]) \o id.c[3]
    [] id.s \in {"GIAI", "GINC"} -> id.c[1] \o id.c[2]

GtinLengths == {8, 12, 13, 14}

(* GTIN-n: "ok" with the digits, or "bad" if a digit left out is not zero *)
GtinN(id, n) ==
  LET g == Gtin14(id)
  IN IF \A i \in 1..(14 - n) : g[i] = cZERO
     THEN [st |-> "ok", r |-> Drop(g, 14 - n)]
     ELSE [st |-> "bad", r |-> <<>>]

(* n = 0: no GTIN length requested *)
KeyN(id, n) == IF n = 0 THEN [st |-> "ok", r |-> Key(id)] ELSE GtinN(id, n)

AI(x) == Str("(" \o x \o ")")
AIs == [x \in {"00", "01", "21", "10", "235", "414", "254", "8003", "8004", "8018", "8017", "253",
               "8010", "8011", "255", "401", "402", "8006", "417"} |-> AI(x)]

FirstAI == ("SGTIN" :> "01") @@ ("LGTIN" :> "01") @@ ("UPUI" :> "01") @@ ("SSCC" :> "00")
   @@ ("SGLN" :> "414") @@ ("GRAI" :> "8003") @@ ("GIAI" :> "8004") @@ ("GSRN" :> "8018")
   @@ ("GSRNP" :> "8017") @@ ("GDTI" :> "253") @@ ("CPI" :> "8010") @@ ("SGCN" :> "255")
   @@ ("GINC" :> "401") @@ ("GSIN" :> "402") @@ ("ITIP" :> "8006") @@ ("PGLN" :> "417")
SecondAI == ("SGTIN" :> "21") @@ ("LGTIN" :> "10") @@ ("UPUI" :> "235") @@ ("SGLN" :> "254")
   @@ ("ITIP" :> "21") @@ ("CPI" :> "8011")

Element(id) ==
  LET a1 == AIs[FirstAI[id.s]]
      a2 == IF id.s \in DOMAIN SecondAI THEN AIs[SecondAI[id.s]] ELSE <<>>
      c == id.c
  IN CASE id.s \in {"SGTIN", "LGTIN", "UPUI"} -> a1 \o Gtin14(id) \o a2 \o c[3]
       [] id.s = "ITIP" -> a1 \o Gtin14(id) \o c[3] \o c[4] \o a2 \o c[5]
       [] id.s = "SGLN" -> a1 \o Key(id) \o a2 \o c[3]
       [] id.s = "GRAI" -> a1 \o <<cZERO>> \o Key(id)
       [] id.s = "CPI"  -> a1 \o c[1] \o c[2] \o a2 \o c[3]
       [] OTHER         -> a1 \o Key(id)

(* number of digits after the first AI (0: not fixed) *)
ElementDigits == ("SGTIN" :> 14) @@ ("LGTIN" :> 14) @@ ("UPUI" :> 14) @@ ("SSCC" :> 18)
   @@ ("SGLN" :> 13) @@ ("GRAI" :> 14) @@ ("GIAI" :> 0) @@ ("GSRN" :> 18) @@ ("GSRNP" :> 18)
   @@ ("GDTI" :> 13) @@ ("CPI" :> 0) @@ ("SGCN" :> 13) @@ ("GINC" :> 0) @@ ("GSIN" :> 17)
   @@ ("ITIP" :> 18) @@ ("PGLN" :> 13)

(* position of the first occurrence of text p in t, else 0 *)
RECURSIVE FindText(_, _, _)
FindText(t, p, i) == IF i + Len(p) - 1 > Len(t) THEN 0
                     ELSE IF SubSeq(t, i, i + Len(p) - 1) = p THEN i
                     ELSE FindText(t, p, i + 1)

(* split an element string of scheme s into digits and the text after them *)
ElementParts(s, t) ==
  LET a1 == AIs[FirstAI[s]]
      a2 == IF s \in DOMAIN SecondAI THEN AIs[SecondAI[s]] ELSE <<>>
      r == Drop(t, Len(a1))
      n == ElementDigits[s]
  IN IF ~HasPrefix(t, a1) THEN [ok |-> FALSE]
     ELSE IF s = "CPI" THEN
       LET k == FindText(r, a2, 1)
       IN IF k = 0 THEN [ok |-> FALSE]
          ELSE [ok |-> TRUE, d |-> Take(r, k - 1), x |-> Drop(r, k - 1 + Len(a2))]
     ELSE IF n = 0 THEN [ok |-> TRUE, d |-> r, x |-> <<>>]
     ELSE IF Len(r) < n \/ ~AllDigits(Take(r, n)) THEN [ok |-> FALSE]
     ELSE IF ~HasPrefix(Drop(r, n), a2) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, d |-> Take(r, n), x |-> Drop(r, n + Len(a2))]

(* schemes whose element strings have this shape; at most one *)
ElementOwners(t) == {s \in ElementSchemes : ElementParts(s, t).ok}

(***************************************************************************)
(* Reading an element string with company prefix length n:                 *)
(*  "ok"   it is the element string of the identity given                  *)
(*  "open" it would be but for its check digit                             *)
(*  "bad"  otherwise                                                       *)
(***************************************************************************)
ParseElement(s, t, n) ==
  LET p == ElementParts(s, t)
  IN IF ~p.ok THEN Bad("shape")
     ELSE IF n \notin 6..12 THEN Bad("prefix length")
     ELSE LET d == p.d
              x == p.x
              rot == << SubSeq(d, 2, n + 1), <<d[1]>> \o SubSeq(d, n + 2, 13) >>
              gln == << Take(d, n), SubSeq(d, n + 1, 12) >>
              c == CASE s \in {"SGTIN", "LGTIN", "UPUI"} -> Append(rot, x)
                     [] s = "ITIP" -> rot \o << SubSeq(d, 15, 16), SubSeq(d, 17, 18), x >>
                     [] s = "SSCC" -> << SubSeq(d, 2, n + 1), <<d[1]>> \o SubSeq(d, n + 2, 17) >>
                     [] s \in {"GSRN", "GSRNP"} -> << Take(d, n), SubSeq(d, n + 1, 17) >>
                     [] s = "GSIN" -> << Take(d, n), SubSeq(d, n + 1, 16) >>
                     [] s \in {"SGLN", "GDTI", "SGCN"} -> Append(gln, x)
                     [] s = "PGLN" -> gln
                     [] s = "GRAI" -> << SubSeq(d, 2, n + 1), SubSeq(d, n + 2, 13), x >>
                     [] s \in {"GIAI", "GINC"} -> << Take(d, n), Drop(d, n) >>
                     [] s = "CPI" -> << Take(d, n), Drop(d, n), x >>
          IN IF Len(d) <= n \/ (s = "GRAI" /\ d[1] # cZERO)
                \/ (s \in {"SSCC", "GSRN", "GSRNP", "GSIN", "PGLN"} /\ x # <<>>)
             THEN Bad("shape")
             ELSE IF ~Valid([s |-> s, c |-> c]) THEN Bad("identity")
             ELSE [st |-> IF Element([s |-> s, c |-> c]) = t THEN "ok" ELSE "open",
                   id |-> [s |-> s, c |-> c]]

(***************************************************************************)
(* Identity patterns.                                                      *)
(***************************************************************************)
PatPrefix == Str("urn:epc:idpat:")
PatSchemes == Schemes \ {"LGTIN", "BIC", "IMOVN"}

(* Schemes whose pattern with a wildcard last component still has a key *)
WildSerial == {"SGTIN", "SGLN"}
WildKey == {"GRAI", "GDTI", "GIAI", "GINC"}

(* The key a pattern stands for: "ok" with the key as if the component '*'  *)
(* were a serial, "bad" if there is none.                                   *)
ParsePattern(t) ==
  IF ~HasPrefix(t, PatPrefix) THEN Bad("prefix")
  ELSE LET p == SplitN(Drop(t, Len(PatPrefix)), cCOLON, 2)
           cands == {s \in PatSchemes : IdentText[s] = p[1]}
       IN IF Len(p) # 2 \/ cands = {} THEN Bad("scheme")
          ELSE LET s == CHOOSE x \in cands : TRUE
                   b == ParseBody(s, p[2])
               IN IF s \notin KeyedSchemes THEN Bad("no key")
                  ELSE IF b.st = "bad" THEN Bad("key open")
                  ELSE b
===========================================================================
