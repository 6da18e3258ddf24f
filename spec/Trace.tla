------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  The recorded sessions are read from a file; each     *)
(* step of the specification consumes one event of one session, computes   *)
(* the verdict of the property on it and learns about the instance it may  *)
(* have produced.  The verdict is total: every event is judged and every   *)
(* violated clause is reported by name.  Sessions are independent, so they *)
(* are dealt out to chains that TLC's workers process in parallel.         *)
(***************************************************************************)
EXTENDS Verdicts, Json, IOUtils

CONSTANTS Property, Chains

Sessions == ndJsonDeserialize(IOEnv.TRACE_FILE)
NSessions == Len(Sessions)

VARIABLES chain,    \* which chain
          si,       \* session being consumed
          ei,       \* next event of that session
          pool,     \* knowledge about the instances of this session
          decided,  \* events judged so far that the property constrains
          judged,   \* events judged so far
          failed    \* clauses found violated
vars == <<chain, si, ei, pool, decided, judged, failed>>

Init == /\ chain \in 1..Chains
        /\ si = chain /\ ei = 1 /\ pool = <<>>
        /\ decided = 0 /\ judged = 0 /\ failed = 0

(* events refer to the texts of their session by number *)
Resolve(t, e) == [o |-> e.o, c |-> e.c, cs |-> e.cs, f |-> e.f, n |-> e.n, h |-> e.h, k |-> e.k, x |-> e.x, rc |-> e.rc,
                  a |-> [i \in 1..Len(e.a) |-> t[e.a[i]]], r |-> t[e.r]]
Event == Resolve(Sessions[si].t, Sessions[si].e[ei])
Sofar == LET S == Sessions[si] IN [i \in 1..ei |-> Resolve(S.t, S.e[i])]
LastEvent == ei = Len(Sessions[si].e)
NextSession == si' = si + Chains /\ ei' = 1 /\ pool' = <<>>

Step ==
  /\ si <= NSessions
  /\ chain' = chain
  /\ judged' = judged + 1
  /\ LET v == Verdict(Property, Event, Sofar, pool)
     IN /\ decided' = decided + (IF v = NA THEN 0 ELSE 1)
        /\ IF v = NA \/ v = OK
           THEN /\ failed' = failed
                /\ IF LastEvent THEN NextSession
                   ELSE si' = si /\ ei' = ei + 1 /\ pool' = Append(pool, Know(Event))
           ELSE /\ PrintT(<<"REJECTED", si, ei, v>>)
                /\ failed' = failed + 1
                /\ NextSession           \* the rest of a rejected session is not judged

Done ==
  /\ si > NSessions /\ ei = 1
  /\ PrintT(<<"CHAIN", chain, judged, decided, failed>>)
  /\ ei' = 0
  /\ UNCHANGED <<chain, si, pool, decided, judged, failed>>

Next == Step \/ Done
Spec == Init /\ [][Next]_vars

(* type invariant, also checked by TLC while it consumes the trace *)
Sane == decided <= judged /\ failed <= decided
=============================================================================
