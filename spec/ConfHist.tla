------------------------------ MODULE ConfHist ------------------------------
(***************************************************************************)
(* Decides recorded histories and schedules on the machine of History.     *)
(* TABLE holds every query with its answer alone, first thing in a fresh   *)
(* process (for queries of the local place: what the conversion with the   *)
(* explicit coordinates answers, for each request for a place); PLACES     *)
(* says which requests can be met; TRACE holds the events in the order in  *)
(* which they happened.  The machine takes one step per event; an event    *)
(* the machine cannot take is reported and the machine goes on.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Table == ndJsonDeserialize(IOEnv.TABLE)
PlaceList == ndJsonDeserialize(IOEnv.PLACES)
Clients == 1..4
Found(j) == PlaceList[j].found = 1
Local(q) == Table[q].local = 1
Want(q, j) == Table[q].want[j]
VARIABLES place, pending, pos
H == INSTANCE History WITH Queries <- 1..Len(Table), Requests <- 1..Len(PlaceList)

Got(e) == [ok |-> e.ok, ex |-> e.ex, r |-> e.r, t |-> e.t]
\* the steps of History that explain event e, in terms of what it observed
Ok(e) ==
  CASE e.k = "fresh" -> {}
    [] e.k = "call" -> IF Got(e) = H!Answer(e.q) THEN {} ELSE {"same answer as alone"}
    [] e.k = "inv" -> IF pending[e.c] = H!Idle THEN {} ELSE {"one call at a time"}
    [] e.k = "ret" -> IF pending[e.c] # e.q THEN {"return of a call"}
                      ELSE IF Got(e) = H!Answer(e.q) THEN {} ELSE {"same answer as alone"}
    [] e.k = "set" -> (IF e.ok = (IF Found(e.q) THEN 1 ELSE 0) THEN {}
                       ELSE IF Found(e.q) THEN {"place accepted"} ELSE {"unknown place refused"})
                      \cup (IF e.n = 0 THEN {} ELSE {"coordinates need no network"})
    [] OTHER -> {"unknown event"}
\* a schedule in which a call never returned leaves it pending
Unfinished(e) == e.k = "fresh" /\ \E c \in Clients : pending[c] # H!Idle
Step(e) ==
  CASE e.k = "fresh" -> place' = 1 /\ pending' = [c \in Clients |-> H!Idle]
    [] e.k = "set" -> H!Request(e.q)
    [] e.k = "inv" -> H!Invoke(e.c, e.q)
    [] e.k = "ret" -> H!Return(e.c, H!Answer(pending[e.c]))
    [] OTHER -> UNCHANGED <<place, pending>>
Init == H!HInit /\ pos = 1
Next == /\ pos < Len(Trace) /\ pos' = pos + 1
        /\ LET e == Trace[pos] v == Ok(e) \cup (IF Unfinished(e) THEN {"every call returns"} ELSE {}) IN
           /\ IF v = {} THEN TRUE ELSE PrintT(<<"FAIL", pos, v, {}>>)
           /\ Step(e)
Spec == Init /\ [][Next]_<<place, pending, pos>>
=============================================================================
