----------------------------- MODULE TraceBase ------------------------------
(* Shared frame of the trace specifications.  A run validates a batch of    *)
(* recorded cases: `tid' picks the case, `l' counts consumed events.  The   *)
(* verdict is total: a mismatch never blocks the behaviour, it prints a     *)
(* line naming the case, the event and the failing clauses, and validation  *)
(* of the rest goes on from the specification's own state.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.TRACE_FILE)

Report(id, l, bad) ==
  IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToString(id) \o " " \o ToString(l) \o " " \o ToString(bad))
\* acceptance: the last event of a case was consumed
Fin(id, last) == IF last THEN PrintT("FIN " \o ToString(id)) ELSE TRUE
\* clause `name' fails unless ok
C(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
