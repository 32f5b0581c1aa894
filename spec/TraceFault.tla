----------------------------- MODULE TraceFault -----------------------------
(***************************************************************************)
(* Conformance of whole runs under failures of the outside world.  Every   *)
(* case is one input and the outcomes of the runs over it, each under one  *)
(* failure.                                                                *)
(*   case: [id, b, raw, inline, runs]                                      *)
(*     raw 1   b are the bytes of a compressed file                        *)
(*   run:  [k, at, ok, whole]                                              *)
(*     k   "none"  nothing fails                                           *)
(*         "read"  the input delivers `at' bytes, then every read fails    *)
(*         "write" an output cannot grow beyond some size                  *)
(*         "path"  an output cannot be opened or written at all            *)
(*     ok      1 success, 0 reported failure, 2 neither                    *)
(*     whole   1 if every requested output is complete afterwards: the     *)
(*             documents are those of the run in which nothing failed      *)
(***************************************************************************)
EXTENDS TraceBase, Pipeline, Gzip

VARIABLES tid, l, ph, p, z
vars == << tid, l, ph, p, z >>

K == Cases[tid]
E == K.runs[l]
\* the stored bytes that can be read in this run
Got == IF E.k = "read" THEN SubSeq(K.b, 1, E.at) ELSE K.b
Zipped == K.raw = 1 /\ GzMagic(Got)
B == IF Zipped THEN Flat(z.out) ELSE Flat(Got)
Begin(k) == IF Cases[tid].raw = 1 THEN "unzip" ELSE "open"

Init == /\ tid \in 1..Len(Cases)
        /\ l = 1 /\ p = 0 /\ z = GzInit
        /\ ph = Begin(1)

Unzip == /\ ph = "unzip"
         /\ IF ~GzMagic(Got) THEN z' = z /\ ph' = "open"
            ELSE z' = GzStep(Got, z) /\ ph' = IF GzDone(z') THEN "open" ELSE "unzip"
         /\ UNCHANGED p
Open == /\ ph = "open"
        /\ IF IsVgm(B) /\ HeaderComplete(B)
           THEN ph' = "read" /\ p' = DataStart(B)
           ELSE ph' = "short" /\ UNCHANGED p
        /\ UNCHANGED z
D == Decode(B, p, K.inline = 1)
\* "short": the run needs more of the input than there is; "ended": it does not
Read == /\ ph = "read"
        /\ IF p >= Size(B) THEN ph' = "short" /\ UNCHANGED p
           ELSE /\ p' = D.nxt
                /\ ph' = CASE D.kind = "trunc" -> "short"
                           [] D.kind = "eos"   -> "ended"
                           [] OTHER            -> "read"
        /\ UNCHANGED z

RunBad == CASE E.k = "none"  -> C("outcome", E.ok = 1 /\ E.whole = 1)
         [] E.k = "read"  ->
              IF ph = "short" THEN C("swallowed", E.ok = 0)
              ELSE C("outcome", E.ok \in {0, 1}) \cup C("incomplete", E.ok = 1 => E.whole = 1)
         [] OTHER -> C("outcome", E.ok \in {0, 1}) \cup C("incomplete", E.ok = 1 => E.whole = 1)
Finish == /\ ph \in {"short", "ended"}
          /\ Report(K.id, l, RunBad)
          /\ Fin(K.id, l = Len(K.runs))
          /\ l' = l + 1 /\ p' = 0 /\ z' = GzInit
          /\ ph' = IF l = Len(K.runs) THEN "end" ELSE Begin(l)

Step == ph # "end" /\ tid' = tid /\ ((UNCHANGED l /\ (Unzip \/ Open \/ Read)) \/ Finish)
Spec == Init /\ [][Step]_vars
View == << tid, l, ph, p, z.ph, z.i, Len(z.out) >>
=============================================================================
