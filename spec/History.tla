------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* The package as its callers see it: a local place, and calls in progress *)
(* of a number of clients (threads).  A pure query has one answer, a query *)
(* of the local place one answer per place; answers depend on nothing else *)
(* - not on what was called, refused or set before, nor on what other      *)
(* clients are doing.                                                      *)
(*   place    the number of the request that set the place; request 1 asks *)
(*            for nothing and means Tehran                                 *)
(*   pending  what each client has called and not been answered            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Clients, Queries, Requests, Found(_), Local(_), Want(_, _)
VARIABLES place, pending
hvars == <<place, pending>>

Idle == 0
HInit == place = 1 /\ pending = [c \in Clients |-> Idle]
Answer(q) == IF Local(q) THEN Want(q, place) ELSE Want(q, 1)

Invoke(c, q) == pending[c] = Idle /\ pending' = [pending EXCEPT ![c] = q] /\ UNCHANGED place
Return(c, r) == pending[c] # Idle /\ r = Answer(pending[c])
                /\ pending' = [pending EXCEPT ![c] = Idle] /\ UNCHANGED place
\* a place that is not found is refused, and the previous one stays
Request(j) == /\ \A c \in Clients : pending[c] = Idle
              /\ place' = IF Found(j) THEN j ELSE place
              /\ UNCHANGED pending
=============================================================================
