------------------------------ MODULE TraceEst ------------------------------
(***************************************************************************)
(* Conformance of the row-length estimate: the machine replays the key-on  *)
(* and wait program of the case through Opm and compares each recorded     *)
(* answer with the declarative optimum (Tracker!IsEstimate).               *)
(*   case: [id, ev];  ev: [k |-> "w", r, v] | [k |-> "b", n] | [k |-> "e", est] *)
(***************************************************************************)
EXTENDS TraceBase, Tracker
VARIABLES tid, l, s
vars == << tid, l, s >>
E == Cases[tid].ev[l]
Init == tid \in 1..Len(Cases) /\ l = 1 /\ s = OpmInit
EstBad == C("estrange", E.est \in Shortest..Longest)
          \cup C("estimate", E.est \in Shortest..Longest => IsEstimate(s, E.est))
Step == /\ l <= Len(Cases[tid].ev)
        /\ l' = l + 1 /\ tid' = tid
        /\ s' = CASE E.k = "w" -> Write(s, E.r, E.v)
                  [] E.k = "b" -> Wait(s, E.n)
                  [] OTHER -> s
        /\ Report(Cases[tid].id, l, IF E.k = "e" THEN EstBad ELSE {})
        /\ Report(Cases[tid].id, l, C("hang", E.k # "hang"))
        /\ Fin(Cases[tid].id, l = Len(Cases[tid].ev))
Spec == Init /\ [][Step]_vars
View == << tid, l >>
=============================================================================
