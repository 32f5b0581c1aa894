------------------------------ MODULE FaultMC -------------------------------
(***************************************************************************)
(* Failures of the outside world.  A run reads its input from a source     *)
(* that stops delivering at some command (an I/O error) and writes each    *)
(* output through a buffer onto a device that accepts only so many blocks; *)
(* it may be killed at any time.  Checked: a run that reports success has  *)
(* read its input up to the end of the sound data and every requested file *)
(* is completely on the device; a run that met an error on its way reports *)
(* failure; while the input is read nothing is written; and every run that *)
(* is not killed ends.                                                     *)
(*   parameters: [cmds: commands of the input, eos: 1 if the last one ends *)
(*                the sound data, need: blocks of the two files, room:     *)
(*                greatest capacity of a device, ahead: how many commands  *)
(*                the reader may look ahead]                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN_FILE)
N == P.cmds
Need(i) == P.need[i]

VARIABLES bad,     \* first command that cannot be read; N + 1 = end unreadable, N + 2 = none
          room,    \* blocks each device still accepts
          want,    \* which files are requested
          pos,     \* commands consumed
          made,    \* blocks produced per file, or -1 before the file is opened
          disk,    \* blocks on the device
          shut,    \* closed files
          ph, ok
vars == << bad, room, want, pos, made, disk, shut, ph, ok >>
F == 1..2

Init == /\ bad \in 1..(N + 2)
        /\ room \in [F -> 0..P.room]
        /\ want \in [F -> {0, 1}]
        /\ pos = 0 /\ made = << -1, -1 >> /\ disk = << 0, 0 >> /\ shut = {}
        /\ ph = "read" /\ ok = -1

Quiet == UNCHANGED << bad, want >>
\* with look-ahead an error behind the command that is consumed may show early
Read == /\ ph = "read" /\ pos < N /\ bad > pos + 1
        /\ pos' = pos + 1
        /\ ph' = IF pos + 1 = N /\ P.eos = 1 THEN "write" ELSE "read"
        /\ UNCHANGED << room, made, disk, shut, ok >> /\ Quiet
ReadError == /\ ph = "read" /\ bad <= N + 1 /\ bad <= pos + 1 + P.ahead
             /\ ph' = "failed"
             /\ UNCHANGED << room, pos, made, disk, shut, ok >> /\ Quiet
DataEnds == /\ ph = "read" /\ pos = N /\ bad = N + 2
            /\ ph' = "write"
            /\ UNCHANGED << room, pos, made, disk, shut, ok >> /\ Quiet
Todo(i) == ph = "write" /\ want[i] = 1 /\ i \notin shut
Produce(i) == /\ Todo(i) /\ made[i] < Need(i)
              /\ made' = [made EXCEPT ![i] = IF @ < 0 THEN 0 ELSE @ + 1]
              /\ UNCHANGED << room, pos, disk, shut, ph, ok >> /\ Quiet
Flush(i) == /\ Todo(i) /\ disk[i] < made[i]
            /\ IF room[i] > 0
               THEN /\ disk' = [disk EXCEPT ![i] = @ + 1]
                    /\ room' = [room EXCEPT ![i] = @ - 1]
                    /\ UNCHANGED ph
               ELSE ph' = "failed" /\ UNCHANGED << disk, room >>
            /\ UNCHANGED << pos, made, shut, ok >> /\ Quiet
Close(i) == /\ Todo(i) /\ made[i] = Need(i) /\ disk[i] = made[i]
            /\ shut' = shut \cup {i}
            /\ UNCHANGED << room, pos, made, disk, ph, ok >> /\ Quiet
Succeed == /\ ph = "write" /\ \A i \in F : want[i] = 1 => i \in shut
           /\ ph' = "end" /\ ok' = 1
           /\ UNCHANGED << room, pos, made, disk, shut >> /\ Quiet
Fail == /\ ph = "failed" /\ ph' = "end" /\ ok' = 0
        /\ UNCHANGED << room, pos, made, disk, shut >> /\ Quiet
Killed == /\ ph # "end" /\ ph' = "end" /\ ok' = 0
          /\ UNCHANGED << room, pos, made, disk, shut >> /\ Quiet
Work == \/ Read \/ ReadError \/ DataEnds \/ Succeed \/ Fail
        \/ \E i \in F : Produce(i) \/ Flush(i) \/ Close(i)
Next == Work \/ Killed
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

(* --------------------------- properties -------------------------------- *)
Complete(i) == disk[i] = Need(i)
SuccessIsComplete == ok = 1 =>
  /\ pos = N
  /\ \A i \in F : want[i] = 1 => Complete(i)
ErrorsAreReported == ok = 1 =>
  /\ bad > N
  /\ P.eos = 0 => bad = N + 2
\* what a device cannot hold is not reported as written
FullIsReported == \A i \in F : ok = 1 /\ want[i] = 1 => disk[i] + room[i] >= Need(i)
ReadingWritesNothing == ph = "read" => \A i \in F : made[i] = -1 /\ disk[i] = 0
UnwantedUntouched == \A i \in F : want[i] = 0 => made[i] = -1 /\ disk[i] = 0
Inv == SuccessIsComplete /\ ErrorsAreReported /\ FullIsReported
       /\ ReadingWritesNothing /\ UnwantedUntouched
Ends == <>(ph = "end")
\* nothing is forgotten or taken back
Progress == [][pos' >= pos /\ \A i \in F : disk'[i] >= disk[i] /\ made'[i] >= made[i]]_vars
=============================================================================
