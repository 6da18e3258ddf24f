------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* The names by which callers choose filter values and coding schemes, and *)
(* the ways of passing them.                                               *)
(***************************************************************************)
EXTENDS GS1

(* filter values with a meaning of their own; the others are reserved *)
Meaning ==
  [s \in TagSchemes \ {"GID"} |->
    CASE s = "SGTIN" -> (0 :> "ALL_OTHERS") @@ (1 :> "POS_ITEM") @@ (2 :> "FULL_CASE") @@ (4 :> "INNER_PACK")
                        @@ (6 :> "UNIT_LOAD") @@ (7 :> "COMPONENT")
      [] s = "SSCC"  -> (0 :> "ALL_OTHERS") @@ (2 :> "FULL_CASE") @@ (6 :> "UNIT_LOAD")
      [] s = "GDTI"  -> (0 :> "ALL_OTHERS") @@ (1 :> "TRAVEL_DOCUMENT")
      [] s = "GIAI"  -> (0 :> "ALL_OTHERS") @@ (1 :> "RAIL_VEHICLE")
      [] s = "USDOD" -> (0 :> "PALLET") @@ (1 :> "CASE") @@ (2 :> "UNIT_PACK")
      [] s = "ADI"   ->
        (0 :> "ALL_OTHERS") @@ (1 :> "ITEM_OTHER") @@ (2 :> "CARTON")
     @@ (6 :> "PALLET") @@ (8 :> "SEAT_CUSHIONS") @@ (9 :> "SEAT_COVERS")
     @@ (10 :> "SEAT_BELTS") @@ (11 :> "GALLEY") @@ (12 :> "UNIT_LOAD_DEVICES")
     @@ (13 :> "AIRCRAFT_SECURITY_ITEMS") @@ (14 :> "LIFE_VESTS") @@ (15 :> "OXYGEN_GENERATOR")
     @@ (16 :> "ENGINE_COMPONENTS") @@ (17 :> "AVIONICS") @@ (18 :> "EXPERIMENTAL_EQUIPMENT")
     @@ (19 :> "OTHER_EMERGENCY_EQUIPMENT") @@ (20 :> "OTHER_ROTABLES") @@ (21 :> "OTHER_REPAIRABLE")
     @@ (22 :> "OTHER_CABIN_INTERIOR") @@ (23 :> "OTHER_REPAIR") @@ (24 :> "PASSENGER_SEATS")
     @@ (25 :> "IFE_SYSTEMS") @@ (56 :> "LOCATION_IDENTIFIER") @@ (57 :> "DOCUMENTATION")
     @@ (58 :> "TOOLS") @@ (59 :> "GROUND_SUPPORT_EQUIPMENT") @@ (60 :> "OTHER_NON_FLYABLE_EQUIPMENT")
      [] OTHER       -> (0 :> "ALL_OTHERS")]

AnyCoding(s) == CHOOSE cs \in SchemesOf[s] : TRUE
FilterName(s, f) == IF f \in DOMAIN Meaning[s] THEN Str(Meaning[s][f]) ELSE Str("RESERVED_") \o NumText(f)
FilterNames == [s \in DOMAIN Meaning |-> [f \in Filters(AnyCoding(s)) |-> FilterName(s, f)]]
FilterNamed(s, t) == {f \in DOMAIN FilterNames[s] : FilterNames[s][f] = t}

(* a coding scheme is named like in tag URIs, in capitals and with an underscore *)
Upper(c) == IF c \in LowerChars THEN c - 32 ELSE IF c = cDASH THEN 95 ELSE c
CodingName == [cs \in CodingSchemes |-> [i \in 1..Len(CSText[cs]) |-> Upper(CSText[cs][i])]]
CodingNamed(s, t) == {cs \in SchemesOf[s] : CodingName[cs] = t}

(***************************************************************************)
(* Styles of passing coding scheme and filter value to tag_uri, binary,    *)
(* hex and base64: the sum of 1 (coding scheme left out), 2 (filter value  *)
(* left out) and 4 (by position); or 8: the first by position, the other   *)
(* by name.                                                                *)
(***************************************************************************)
Only(s) == Cardinality(SchemesOf[s]) = 1
DefaultFilter == {"GSRN", "GSRNP"}
Styles(s) == {st \in 0..7 : /\ st % 2 = 1 => Only(s)
                            /\ (st \div 2) % 2 = 1 => s \in DefaultFilter}
             \cup (IF s = "GID" THEN {} ELSE {8})
StyledCS(s, st, cs) == IF st % 2 = 1 THEN AnyCoding(s) ELSE cs
StyledFilter(st, f) == IF (st \div 2) % 2 = 1 THEN 0 ELSE f

(* which comes first when they are given by position *)
FilterFirst(s, op) == s \in {"ADI", "SGCN", "SSCC", "USDOD"} \/ (s = "ITIP" /\ op # "tag")

(* the headers of a class as a text: header=coding scheme;... in order *)
RECURSIVE SortedHeaders(_)
SortedHeaders(S) == IF S = {} THEN <<>>
                    ELSE LET h == CHOOSE x \in S : \A y \in S : x <= y IN <<h>> \o SortedHeaders(S \ {h})
HeaderText(s) ==
  LET hs == SortedHeaders({CodingScheme[cs].header : cs \in SchemesOf[s]})
  IN Join([i \in 1..Len(hs) |-> BitsText(NatToBits(hs[i], 8)) \o <<cEQ>> \o CSText[CSOfHeader[hs[i]]]], 59)
=============================================================================
