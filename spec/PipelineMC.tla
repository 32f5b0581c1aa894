----------------------------- MODULE PipelineMC -----------------------------
(***************************************************************************)
(* The whole run as a machine: an environment feeds the input piece by     *)
(* piece (complete commands, an end-of-data command, a cut-off command, or *)
(* the end of the data), the extraction consumes it, and only a completely *)
(* read song leads to the outputs being written, one after the other.      *)
(* Checked for every feed up to a depth; complete runs are printed for     *)
(* replay through main.py.                                                 *)
(*   parameters: [alpha: Seq(bytes of one piece), depth,                   *)
(*                combos: Seq(<<wantInst, wantSong, oldInst, oldSong>>)]   *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN_FILE)
Alpha == P.alpha
Depth == P.depth
Combo == P.combos

VARIABLES h,      \* pieces fed so far (indices into Alpha)
          s,      \* extraction
          ph,     \* "read", "done", "failed", "end"
          ok,     \* result reported, -1 before
          k,      \* which outputs are requested / existed before
          out     \* <<instruments, song>>: "none", "old", "new"
vars == << h, s, ph, ok, k, out >>

Want(i) == Combo[k][i] = 1
Before  == << IF Combo[k][3] = 1 THEN "old" ELSE "none",
              IF Combo[k][4] = 1 THEN "old" ELSE "none" >>

Init == /\ h = << >> /\ s = OpmInit /\ ph = "read" /\ ok = -1
        /\ k \in 1..Len(Combo)
        /\ out = Before

D(i) == Decode(Flat(Alpha[i]), 0, FALSE)
Feed == /\ ph = "read" /\ Len(h) < Depth
        /\ \E i \in 1..Len(Alpha) :
             /\ h' = Append(h, i)
             /\ s' = Consume(s, D(i))
             /\ ph' \in AfterCommand(D(i))
        /\ UNCHANGED << ok, k, out >>
\* the data ends between two commands
DataEnds == ph = "read" /\ ph' = "done" /\ UNCHANGED << h, s, ok, k, out >>
WriteInst == /\ ph = "done" /\ Want(1) /\ out[1] # "new"
             /\ out' = [out EXCEPT ![1] = "new"] /\ UNCHANGED << h, s, ph, ok, k >>
WriteSong == /\ ph = "done" /\ Want(2) /\ out[2] # "new"
             /\ out' = [out EXCEPT ![2] = "new"] /\ UNCHANGED << h, s, ph, ok, k >>
Succeed == /\ ph = "done" /\ (Want(1) => out[1] = "new") /\ (Want(2) => out[2] = "new")
           /\ ph' = "end" /\ ok' = 1 /\ UNCHANGED << h, s, k, out >>
Fail == ph = "failed" /\ ph' = "end" /\ ok' = 0 /\ UNCHANGED << h, s, k, out >>
Next == Feed \/ DataEnds \/ WriteInst \/ WriteSong \/ Succeed \/ Fail
Spec == Init /\ [][Next]_vars
\* an input is finite: the environment cannot feed forever
Live == Spec /\ WF_vars(Next)
Ends == <>(ph = "end" /\ ok \in {0, 1})

(* --------------------------- properties -------------------------------- *)
\* output files appear only for a completely read song
OutputsLast == /\ ph \in {"read", "failed"} => out = Before
               /\ ok = 0 => out = Before
               /\ ok = 1 => \A i \in 1..2 : out[i] = IF Want(i) THEN "new" ELSE Before[i]
\* the bytes of a feed and what a run over them reaches
RECURSIVE Bytes(_)
Bytes(q) == IF q = << >> THEN << >> ELSE Alpha[q[1]] \o Bytes(Tail(q))
RECURSIVE Run(_, _, _)
Run(b, p, x) == IF p >= Size(b) THEN << x, {"done"} >>
                ELSE LET d == Decode(b, p, FALSE)
                         n == Consume(x, d)
                         a == AfterCommand(d)
                     IN IF a = {"read"} THEN Run(b, d.nxt, n) ELSE << n, a >>
RunOf(q) == Run(Flat(Bytes(q)), 0, OpmInit)
\* feeding pieces = decoding their concatenation
Agrees == /\ RunOf(h)[1] = s
          /\ ok = 1 => "done" \in RunOf(h)[2]
          /\ ok = 0 => "failed" \in RunOf(h)[2]
\* nothing behind the end of the sound data matters
TailIrrelevant == \A i \in 1..Len(h) : D(h[i]).kind = "eos" =>
  \A j \in 1..Len(Alpha) : RunOf(SubSeq(h, 1, i) \o << j >>) = RunOf(SubSeq(h, 1, i))
\* commands of other chips may be left out
Foreign(i) == D(i).kind = "other"
NotForeign(i) == ~Foreign(i)
ForeignInert == RunOf(SelectSeq(h, NotForeign)) = RunOf(h)
\* cutting the bytes anywhere never invents anything: the state is one the
\* uncut run passed through
RECURSIVE Passed(_, _, _)
Passed(b, p, x) == IF p >= Size(b) THEN {x}
                   ELSE LET d == Decode(b, p, FALSE)
                            n == Consume(x, d)
                        IN {x} \cup (IF AfterCommand(d) = {"read"} THEN Passed(b, d.nxt, n) ELSE {n})
CutSafe == LET b == Bytes(h)
               all == Passed(Flat(b), 0, OpmInit)
           IN \A n \in 0..Len(b) : Run(Flat(SubSeq(b, 1, n)), 0, OpmInit)[1] \in all
\* elapsed time is the sum of the waits
RECURSIVE Waits(_)
Waits(q) == IF q = << >> THEN 0
            ELSE (IF D(q[1]).kind = "wait" THEN D(q[1]).n ELSE 0) + Waits(Tail(q))
ElapsedIsSum == TimeInt(s.now) = Waits(h)
Inv == /\ OpmInv(s) /\ OutputsLast
       /\ (ph = "end" => Agrees /\ TailIrrelevant /\ ForeignInert /\ CutSafe /\ ElapsedIsSum)
Emit == ph = "end" => PrintT("GEN " \o ToJson(<< h, k, ok >>))
=============================================================================
