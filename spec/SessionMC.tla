----------------------------- MODULE SessionMC ------------------------------
(***************************************************************************)
(* Several extractions interleaved in one process.  Each session owns one  *)
(* Opm state, fed by its own program and looked at by exports; every       *)
(* interleaving leaves every session exactly where it would be had it run  *)
(* alone, and what an export of it says does not depend on the others.     *)
(* Complete schedules are printed for replay.                              *)
(*   parameters: [prog: one Seq(<<register, value>>) per session]          *)
(*   register 256 waits `value' samples, 257 exports                       *)
(***************************************************************************)
EXTENDS Tracker, Json, IOUtils
P == JsonDeserialize(IOEnv.GEN_FILE)
Prog == P.prog
K == 1..Len(Prog)
VARIABLES st, pc, sched, seen
vars == << st, pc, sched, seen >>
StepOf(x, a) == CASE a[1] = 256 -> Wait(x, a[2])
                  [] a[1] = 257 -> x
                  [] OTHER      -> Write(x, a[1], a[2])
Report(x) == << InstFile(x), [c \in 1..8 |-> TrackCells(x.press[c], 10)] >>
Init == /\ st = [k \in K |-> OpmInit] /\ pc = [k \in K |-> 0] /\ sched = << >>
        /\ seen = [k \in K |-> << >>]
Next == \E k \in K :
          /\ pc[k] < Len(Prog[k])
          /\ LET a == Prog[k][pc[k] + 1] IN
               /\ st' = [st EXCEPT ![k] = StepOf(@, a)]
               /\ seen' = IF a[1] = 257 THEN [seen EXCEPT ![k] = Append(@, Report(st[k]))] ELSE seen
          /\ pc' = [pc EXCEPT ![k] = @ + 1]
          /\ sched' = Append(sched, k - 1)
Spec == Init /\ [][Next]_vars
RECURSIVE Alone(_, _)
Alone(k, n) == IF n = 0 THEN OpmInit ELSE StepOf(Alone(k, n - 1), Prog[k][n])
RECURSIVE Reports(_, _)
Reports(k, n) == IF n = 0 THEN << >>
                 ELSE Reports(k, n - 1) \o (IF Prog[k][n][1] = 257 THEN << Report(Alone(k, n - 1)) >> ELSE << >>)
Independent == \A k \in K : st[k] = Alone(k, pc[k]) /\ seen[k] = Reports(k, pc[k])
Inv == Independent /\ \A k \in K : OpmInv(st[k])
Emit == (\A k \in K : pc[k] = Len(Prog[k])) => PrintT("GEN " \o ToJson(sched))
=============================================================================
