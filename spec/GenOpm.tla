------------------------------- MODULE GenOpm -------------------------------
(***************************************************************************)
(* Histories of the chip specification over a finite alphabet of register  *)
(* writes and waits: enumerated completely up to `depth' (breadth first)   *)
(* or sampled (TLC -simulate).  The design properties of Opm are checked   *)
(* on every state and step, and each complete history is printed so that   *)
(* the harness can replay it into the implementation.                      *)
(*   parameters: [alpha: Seq(<<register, value>>), depth, sample]          *)
(*   register 256 stands for a wait of `value' samples                     *)
(***************************************************************************)
EXTENDS Opm, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN_FILE)
Alpha == P.alpha
Depth == P.depth

VARIABLES h, s
vars == << h, s >>

StepOf(x, a) == IF a[1] = 256 THEN Wait(x, a[2]) ELSE Write(x, a[1], a[2])
Init == h = << >> /\ s = OpmInit
\* sampling draws one step; enumerating takes them all
Choices == IF P.sample = 1 THEN {RandomElement(1..Len(Alpha))} ELSE 1..Len(Alpha)
Next == /\ Len(h) < Depth
        /\ \E i \in Choices : h' = Append(h, i) /\ s' = StepOf(s, Alpha[i])
Spec == Init /\ [][Next]_vars
View == h

Inv == OpmInv(s)
StepProps == [][ LET a == Alpha[h'[Len(h')]] IN
                 /\ AppendOnly(s, s')
                 /\ a[1] # 256 => Frame(s, s', a[1], a[2]) /\ Idempotent(s', a[1], a[2])
               ]_vars
Emit == Len(h) = Depth => PrintT("GEN " \o ToJson([k \in 1..Depth |-> Alpha[h[k]]]))
=============================================================================
