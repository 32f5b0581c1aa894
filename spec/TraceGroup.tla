----------------------------- MODULE TraceGroup -----------------------------
(***************************************************************************)
(* Relational conformance: runs of one case whose inputs the specification *)
(* maps to the same extraction must have been observed to give the same    *)
(* outputs.  The specification is executed on the bytes of every run (so a *)
(* wrongly built group is noticed: clause "GROUP", a machinery error), and *)
(* the recorded results are compared with those of the first run.          *)
(*   case: [id, runs];  run: [b, gap, raw, inline, same, ok, dig]          *)
(*     raw 1: b are the bytes as stored, decompressed by Gzip              *)
(*     ok   1 success, 0 reported failure, 2 neither                       *)
(*     dig  canonical text (digest) of everything the run reported         *)
(***************************************************************************)
EXTENDS TraceBase, Pipeline, Gzip

VARIABLES tid, r, l, s, ph, p, ref, z
vars == << tid, r, l, s, ph, p, ref, z >>

G == Cases[tid]
R == G.runs[r]
Zipped == R.raw = 1 /\ GzMagic(R.b)
B == IF Zipped THEN Flat(z.out) ELSE File(R.b, R.gap)
D == Decode(B, p, R.inline = 1)

Init == /\ tid \in 1..Len(Cases)
        /\ r = 1 /\ l = 1 /\ s = OpmInit /\ ph = "open" /\ p = 0 /\ ref = << >> /\ z = GzInit

\* a run whose bytes are those of the first run needs no second execution
Same == R.same = 1 /\ r > 1

\* a compressed run is decompressed first
Unzip == /\ ph = "open" /\ ~Same /\ Zipped /\ ~GzDone(z)
         /\ z' = GzStep(R.b, z)
         /\ UNCHANGED << s, r, ref, ph, p >>
Open == /\ ph = "open" /\ (Same \/ ~Zipped \/ GzDone(z))
        /\ IF Same THEN ph' = "same" /\ p' = 0
           ELSE IF IsVgm(B) /\ HeaderComplete(B)
           THEN ph' = "read" /\ p' = DataStart(B)
           ELSE ph' = "failed" /\ p' = 0
        /\ UNCHANGED << s, r, ref, z >>
Read == /\ ph = "read"
        /\ IF p >= Size(B)
           THEN ph' = (IF z.st = "bad" THEN "failed" ELSE "done") /\ UNCHANGED << s, p >>
           ELSE /\ s' = ConsumeMany(s, D, AtOnce(B, p))
                /\ p' = Behind(D, p, AtOnce(B, p))
                /\ ph' = LET A == AfterCommand(D) IN
                         IF Cardinality(A) = 1 THEN CHOOSE a \in A : TRUE
                         ELSE IF R.ok = 1 THEN "done" ELSE "failed"
        /\ UNCHANGED << r, ref, z >>

Outcome == IF ph = "same" THEN ref[1]
           ELSE IF ph = "failed" THEN << "failed" >>
           ELSE << "done", s.inst, s.press, s.ticks >>
GroupBad ==
  IF r = 1 THEN C("outcome", R.ok = (IF ph = "done" THEN 1 ELSE 0))
  ELSE C("GROUP", Outcome = ref[1])
       \cup C("outcome", R.ok = G.runs[1].ok)
       \cup C("same", R.dig = G.runs[1].dig)
Close == /\ ph \in {"done", "failed", "same"}
         /\ Report(G.id, r, GroupBad)
         /\ Fin(G.id, r = Len(G.runs))
         /\ ref' = IF r = 1 THEN << Outcome >> ELSE ref
         /\ r' = r + 1 /\ s' = OpmInit /\ p' = 0 /\ z' = GzInit
         /\ ph' = IF r = Len(G.runs) THEN "end" ELSE "open"

Step == ph # "end" /\ l' = l + 1 /\ tid' = tid /\ (Unzip \/ Open \/ Read \/ Close)
Spec == Init /\ [][Step]_vars
View == << tid, l >>
=============================================================================
