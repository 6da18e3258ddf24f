------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* The library as seen by a client that keeps a pool of instances and      *)
(* texts and makes public calls in any order.  The reply to a call is a    *)
(* function of the call and of the identity of the instance it is made on; *)
(* no call touches the pool except by adding its result.                   *)
(* TLC simulates this machine; the histories it visits are written down    *)
(* and replayed into the library, sequentially and concurrently.           *)
(***************************************************************************)
EXTENDS Domain, Verdicts, Json, CSV, IOUtils

CONSTANTS MaxCalls,
          Simulating,    \* choose parameters at random instead of branching on all
          Few            \* a handful of identities, for searching all short histories

Some(S) == IF S = {} THEN {} ELSE IF Simulating THEN {RandomElement(S)} ELSE S

(* a few identities of every scheme that share digits with one another *)
Seeds ==
  LET C == <<Str("0614141"), Str("061414"), Str("000000000000")>>
      S == <<Str("6789"), Str("0"), Str("32a%2Fb"), Str("A"), P38, Str("(21)")>>
      ref(n) == SubSeq(Str("11234567890"), 1, n)
      u(s, body) == UriPrefix[s] \o body
      parts(s, i, j) == LET t == SchemeDef[s].total - Len(C[i])
                        IN C[i] \o <<cDOT>> \o ref(t) \o <<cDOT>> \o S[j]
      texts ==
        {u(s, parts(s, i, j)) : s \in {"SGTIN", "SGLN", "GRAI", "GDTI", "UPUI", "LGTIN"}, i \in 1..3, j \in 1..6}
        \cup {u("ITIP", C[i] \o <<cDOT>> \o ref(13 - Len(C[i])) \o Str(".01.99.") \o S[j]) : i \in 1..3, j \in 1..6}
        \cup {u("SGCN", parts("SGCN", i, j)) : i \in 1..3, j \in {1, 2}}
        \cup {u(s, C[i] \o <<cDOT>> \o ref(SchemeDef[s].total - Len(C[i]))) : s \in {"SSCC", "GSRN", "GSRNP", "GSIN", "PGLN"}, i \in 1..3}
        \cup {u(s, C[i] \o <<cDOT>> \o S[j]) : s \in {"GIAI", "GINC"}, i \in 1..3, j \in 1..6}
        \cup {u("CPI", C[i] \o Str(".") \o x \o Str(".12345")) : i \in 1..3, x \in {Str("11"), Str("5PQ7"), Str("%23A")}}
        \cup {Str("urn:epc:id:gid:952056.2718.1414"), Str("urn:epc:id:gid:1.2.3"), Str("urn:epc:id:usdod:2S194.12345"),
              Str("urn:epc:id:usdod:W81X9C.1"), Str("urn:epc:id:adi:2S194..%23123"), Str("urn:epc:id:adi:W81X9C.3KL984PX1.2WMA52"),
              Str("urn:epc:id:bic:CSQU3054383"), Str("urn:epc:id:imovn:9176187")}
      parsed == {[t |-> t, p |-> ParseAny(t)] : t \in texts}
  IN {x.p.id : x \in {y \in parsed : y.p.st = "ok"}}

FewSeeds == {id \in Seeds : Render(id) \in {Str("urn:epc:id:sgtin:0614141.112345.6789"), Str("urn:epc:id:sgtin:0614141.112345.32a%2Fb"),
                                            Str("urn:epc:id:giai:061414.0"), Str("urn:epc:id:sgln:0614141.11234.0")}}

VARIABLES seeds,   \* the identities the client knows (constant; kept here so that it is computed once)
          pool,    \* identities of the instances held
          texts,   \* [k, s, n, t]: texts received so far
          hist     \* the calls made, with their replies
vars == <<seeds, pool, texts, hist>>

Rply(st, t) == [k |-> IF st = "ok" THEN "ok" ELSE "exc", t |-> t]
Log(call) == hist' = Append(hist, call)
Say(o, c, u, a, n, cs, f) == [o |-> o, c |-> c, u |-> u, a |-> a, n |-> n, cs |-> cs, f |-> f]

Init == seeds = SetToSeq(IF Few THEN FewSeeds ELSE Seeds) /\ pool = <<>> /\ texts = <<>> /\ hist = <<>>

More == Len(hist) < MaxCalls

Count(u, d) == Cardinality({i \in 1..d : u[i] = cDOT})

New == /\ More
       /\ \E i \in Some(1..Len(seeds)), o \in Some({"new", "epc"}) :
            /\ pool' = Append(pool, seeds[i])
            /\ Log(Say(o, seeds[i].s, <<>>, <<Render(seeds[i])>>, <<>>, "", 0))
       /\ UNCHANGED <<seeds, texts>>

(* a constructor that refuses *)
Refused == /\ More
           /\ \E i \in Some(1..Len(seeds)), s \in Some({"SGTIN", "GIAI", "SGLN", "ADI"}) :
                /\ s # seeds[i].s
                /\ Log(Say("new", s, <<>>, <<Render(seeds[i])>>, <<>>, "", 0))
           /\ UNCHANGED <<seeds, pool, texts>>

Tag == /\ More
       /\ \E p \in Some(1..Len(pool)) : \E cs \in Some(SchemesOf[pool[p].s]), k \in Some(TagOps) : \E f \in Some(Filters(cs)) :
            LET id == pool[p]
                ok == Encodable(id, cs)
                t == CASE k = "tag" -> TagUri(id, cs, f) [] k = "bin" -> BitsText(Encode(id, cs, f))
                       [] k = "hex" -> HexOf(Encode(id, cs, f)) [] k = "b64" -> B64Of(Encode(id, cs, f))
            IN /\ Log(Say(k, id.s, Render(id), <<>>, <<>>, cs, f))
               /\ texts' = IF ok THEN Append(texts, [k |-> k, s |-> id.s, n |-> 0, t |-> t]) ELSE texts
       /\ UNCHANGED <<seeds, pool>>

Gs1 == /\ More
       /\ \E p \in Some(1..Len(pool)) :
            LET id == pool[p]
            IN \/ /\ id.s \in ElementSchemes
                  /\ Log(Say("ele", id.s, Render(id), <<>>, <<>>, "", 0))
                  /\ texts' = Append(texts, [k |-> "ele", s |-> id.s, n |-> Len(id.c[1]), t |-> Element(id)])
               \/ /\ id.s \in KeyedSchemes
                  /\ \E n \in Some({0} \cup (IF id.s \in GtinSchemes THEN GtinLengths ELSE {})) :
                       Log(Say("key", id.s, Render(id), <<>>, <<n>>, "", 0))
                  /\ UNCHANGED texts
       /\ UNCHANGED <<seeds, pool>>

Reader(k, generic) == CASE k = "tag" -> IF generic THEN "p_tag" ELSE "ftag" [] k = "bin" -> IF generic THEN "p_bin" ELSE "fbin"
                        [] k = "hex" -> IF generic THEN "p_hex" ELSE "fhex" [] k = "b64" -> IF generic THEN "p_b64" ELSE "fb64"
                        [] k = "ele" -> IF generic THEN "p_ele" ELSE "fele"

Read == /\ More
        /\ \E i \in Some(1..Len(texts)), g \in Some(BOOLEAN) :
             LET x == texts[i]
                 d == CASE x.k = "tag" -> ParseTagUri(x.t).id
                        [] x.k = "ele" -> ParseElement(x.s, x.t, x.n).id
                        [] OTHER -> DecodeText(Reader(x.k, FALSE), x.s, x.t).id
             IN /\ pool' = Append(pool, d)
                /\ Log(Say(Reader(x.k, g), IF g THEN "" ELSE x.s, <<>>, <<x.t>>, IF x.k = "ele" THEN <<x.n>> ELSE <<>>, "", 0))
        /\ UNCHANGED <<seeds, texts>>

(* a text given to a class it does not belong to, or cut with another prefix length *)
Cross == /\ More
         /\ \E i \in Some(1..Len(texts)) : \E s \in Some((IF texts[i].k = "ele" THEN ElementSchemes ELSE TagSchemes) \ {texts[i].s}) :
              LET x == texts[i]
              IN Log(Say(Reader(x.k, FALSE), s, <<>>, <<x.t>>, IF x.k = "ele" THEN <<x.n>> ELSE <<>>, "", 0))
         /\ UNCHANGED <<seeds, pool, texts>>

OtherCut == /\ More
            /\ \E i \in Some({j \in 1..Len(texts) : texts[j].k = "ele"}) : \E L \in Some((5..13) \ {texts[i].n}), g \in Some(BOOLEAN) :
                 LET x == texts[i]
                     p == ParseElement(x.s, x.t, L)
                 IN /\ Log(Say(Reader("ele", g), IF g THEN "" ELSE x.s, <<>>, <<x.t>>, <<L>>, "", 0))
                    /\ pool' = IF p.st = "ok" THEN Append(pool, p.id) ELSE pool
            /\ UNCHANGED <<seeds, texts>>

(* the table of headers of a class *)
HeaderTable == /\ More
               /\ \E s \in Some(TagSchemes) : Log(Say("hdrs", s, <<>>, <<>>, <<>>, "", 0))
               /\ UNCHANGED <<seeds, pool, texts>>

(* identity patterns for which an instance in the pool stands *)
PatternKey == /\ More
              /\ \E p \in Some({q \in 1..Len(pool) : pool[q].s \in PatSchemes}), star \in Some(BOOLEAN) :
                   LET u == Render(pool[p])
                       d == CHOOSE d \in 1..Len(u) : u[d] = cDOT /\ Count(u, d) = Len(pool[p].c) - 1
                       body == SubSeq(u, 12, IF star /\ Len(pool[p].c) > 1 THEN d ELSE Len(u))
                   IN Log(Say("k_any", "", <<>>, <<PatPrefix \o body \o IF star /\ Len(pool[p].c) > 1 THEN <<cSTAR>> ELSE <<>>>>, <<0, 0>>, "", 0))
              /\ UNCHANGED <<seeds, pool, texts>>

AnyKey == /\ More
          /\ \E i \in Some(1..Len(texts)), n \in Some({0, 13}) :
               Log(Say("k_any", "", <<>>, <<texts[i].t>>,
                       <<texts[i].n, IF texts[i].s \in GtinSchemes THEN n ELSE 0>>, "", 0))
          /\ UNCHANGED <<seeds, pool, texts>>

Done == /\ Len(hist) = MaxCalls
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.MODEL_OUT)
        /\ pool' = <<>> /\ texts' = <<>> /\ hist' = <<>> /\ UNCHANGED seeds     \* the process goes on

Next == New \/ Refused \/ Tag \/ Gs1 \/ Read \/ Cross \/ OtherCut \/ HeaderTable \/ PatternKey \/ AnyKey \/ Done
Spec == Init /\ [][Next]_vars

(* every instance in the pool is a valid identity *)
PoolSane == \A i \in 1..Len(pool) : Valid(pool[i])
(* nothing held is ever changed *)
Untouched == [][hist' # <<>> => /\ Len(pool') >= Len(pool) /\ SubSeq(pool', 1, Len(pool)) = pool
                               /\ Len(texts') >= Len(texts) /\ SubSeq(texts', 1, Len(texts)) = texts]_vars
=============================================================================
