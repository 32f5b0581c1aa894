----------------------------- MODULE TraceSong ------------------------------
(***************************************************************************)
(* Conformance of whole runs (main.py) with Pipeline: the machine below    *)
(* executes the specification on the case's bytes, one command per step;   *)
(* when the run ends it compares the recorded outcome.                     *)
(*   case: [id, b, gap, raw, inline, tpn, readable, cutzip, pre, want, obs]*)
(*     raw 1    b are the bytes of the input as stored: if they are a gzip *)
(*              file, Gzip decompresses them first                         *)
(*     raw 0    b, gap are the VGM bytes the input decompresses to         *)
(*     readable 0 when the input is missing; cutzip 1 when the compressed  *)
(*              data is damaged behind the bytes b                         *)
(*     tpn      row length given, 0 = none                                 *)
(*     pre      [inst, song]: what was there before, "none" or "old"       *)
(*     want     [inst, song, table, state] 0/1                             *)
(*   obs:  [ok, inst, song, table, state, other]                           *)
(*     ok     1 success, 0 reported failure, 2 neither (hang, crash)       *)
(*     inst   [st, data]    st: "none" absent, "old" untouched, "new", "bad"*)
(*     song   [st, doc]                                                    *)
(*     table  [st, rows]                                                   *)
(*     other  number of unexpected files in the output directory           *)
(***************************************************************************)
EXTENDS TraceBase, Pipeline, Renoise, Gzip

VARIABLES tid, l, s, ph, p, z
vars == << tid, l, s, ph, p, z >>

K == Cases[tid]
Zipped == K.raw = 1 /\ GzMagic(K.b)
B == IF Zipped THEN Flat(z.out) ELSE File(K.b, K.gap)
\* compressed data damaged: what precedes the damage is not the complete song
Damaged == z.st = "bad" \/ K.cutzip = 1
O == K.obs

Init == /\ tid \in 1..Len(Cases)
        /\ l = 1 /\ s = OpmInit /\ p = 0 /\ z = GzInit
        /\ ph = IF Cases[tid].raw = 1 /\ GzMagic(Cases[tid].b) THEN "unzip" ELSE "open"

Unzip == /\ ph = "unzip"
         /\ z' = GzStep(K.b, z)
         /\ ph' = IF GzDone(z') THEN "open" ELSE "unzip"
         /\ UNCHANGED << s, p >>

Open == /\ ph = "open"
        /\ IF K.readable = 1 /\ IsVgm(B) /\ HeaderComplete(B)
           THEN ph' = "read" /\ p' = DataStart(B)
           ELSE ph' = "failed" /\ p' = 0
        /\ UNCHANGED << s, z >>

D == Decode(B, p, K.inline = 1)
\* where the format leaves success open, the recorded outcome decides
Read == /\ ph = "read"
        /\ IF p >= Size(B)
           THEN ph' = (IF Damaged THEN "failed" ELSE "done") /\ UNCHANGED << s, p >>
           ELSE /\ s' = ConsumeMany(s, D, AtOnce(B, p))
                /\ p' = Behind(D, p, AtOnce(B, p))
                /\ ph' = LET A == AfterCommand(D) IN
                         IF Damaged /\ D.kind = "trunc" THEN "failed"
                         ELSE IF Cardinality(A) = 1 THEN CHOOSE a \in A : TRUE
                         ELSE IF O.ok = 1 THEN "done" ELSE "failed"
        /\ UNCHANGED z

(* ---------------------------- verdicts --------------------------------- *)
Untouched(f) == f.st \in {"none", "old"}
\* "old" only if there was a file before
FailBad == C("outcome", O.ok = 0)
           \cup C("touched", /\ O.other = 0
                             /\ O.inst.st = K.pre.inst
                             /\ O.song.st = K.pre.song)

RecordFields == {"id", "wf", "lfo", "amd", "pmd", "ops", "fb", "con", "ams", "pms",
                 "ne", "nfrq", "m1", "c1", "m2", "c2"}
InstBad == IF O.inst.st # "new" THEN {"instfile"}
           ELSE IF O.inst.data = InstFile(s) THEN {} ELSE {"instdata"}

\* cells of channel c in pattern q (0-based) as the song shows them
SongTracks(doc) == doc.patterns
CellsMatch(spec, got) ==
  /\ Len(spec) = Len(got)
  /\ \A i \in 1..Len(spec) : spec[i][1] = got[i][1]
TextMatch(j, spec, got) ==
  \A i \in 1..Len(spec) : i <= Len(got) => Match(spec[i][j], got[i][j])
SpecCells(tpn) == [c \in 1..8 |-> TrackCells(s.press[c], tpn)]
InPattern(cells, q) == LET mine(x) == x[1] = q
                           sel == SelectSeq(cells, mine)
                       IN [i \in 1..Len(sel) |-> sel[i][2]]
SongBad ==
  IF O.song.st # "new" THEN {"songfile"}
  ELSE
  LET doc   == O.song.doc
      tpn   == RowLength(s, K.tpn)
      n     == PatternCount(s, tpn)
      cells == SpecCells(tpn)
      okPat == Len(doc.patterns) = n
      okTrk == \A q \in 1..Len(doc.patterns) : Len(doc.patterns[q]) = 8
      place == okTrk /\ \A q \in 1..Len(doc.patterns) : \A c \in 1..8 :
                 CellsMatch(InPattern(cells[c], q - 1), doc.patterns[q][c])
      text(j) == ~(okTrk /\ place) \/
                 \A q \in 1..Len(doc.patterns) : \A c \in 1..8 :
                   TextMatch(j, InPattern(cells[c], q - 1), doc.patterns[q][c])
      lost  == \E c \in 1..8 : \E k \in 1..Len(cells[c]) :
                 cells[c][k][1] >= Len(doc.patterns)
  IN C("archive", doc.zip = 1 /\ doc.version = 65)
     \cup C("tracks", /\ doc.ntracks = << 8, 1, 1 >>
                      /\ \A q \in 1..Len(doc.ptracks) : doc.ptracks[q] = << 8, 1, 1 >>)
     \cup C("schema", DocumentOk(doc.shape) /\ Audible(doc.shape) /\ Plain(doc.shape))
     \cup C("patterns", okPat)
     \cup C("sequence", doc.seq = [i \in 1..n |-> i - 1])
     \cup C("instruments", doc.ninst = Len(s.inst))
     \cup C("place", place /\ ~lost)
     \cup C("celltext", text(2))
     \cup C("cellinst", text(3))
     \cup C("cellpan", text(4))
     \cup C("tempo", doc.bpm = Bpm(tpn) /\ doc.lpb = LinesPerBeat)

TableBad ==
  IF O.table.st # "new" THEN {"tablefile"}
  ELSE
  LET rows == O.table.rows
      tpn  == K.tpn
      last == LastRow(s, tpn)
      spec(i) == CsvRow(s, tpn, i - 1)
  IN C("tablehead", O.table.head = 1)
     \cup C("tablerows", /\ Len(rows) = last + 1
                         /\ \A i \in 1..Len(rows) :
                              /\ rows[i][1] = spec(i)[1] /\ rows[i][2] = spec(i)[2]
                              /\ rows[i][3] = spec(i)[3] /\ Len(rows[i][4]) = 8)
     \cup C("tablecells", \A i \in 1..Len(rows) : i <= last + 1 =>
              /\ Len(rows[i][4]) = 8
              /\ \A c \in 1..8 : Match(spec(i)[4][c], rows[i][4][c]))

\* the extraction as the library shows it after the run
Kinds(ps) == [k \in 1..Len(ps) |-> IF ps[k].id < 0 THEN 0 ELSE 1]
Notes(ps) == [k \in 1..Len(ps) |-> << ps[k].r, ps[k].l, ps[k].oct, ps[k].nt, ps[k].kf >>]
Ids(ps)   == [k \in 1..Len(ps) |-> ps[k].id]
Times(ps) == [k \in 1..Len(ps) |-> ps[k].t]
All8(f(_), a, b) == Len(a) = 8 /\ Len(b) = 8 /\ \A c \in 1..8 : f(a[c]) = f(b[c])
StateBad ==
  IF O.state.st # "new" THEN {"state"}
  ELSE LET o == O.state IN
       C("base", o.base = s.base)
       \cup C("chan", o.chan = s.chan)
       \cup C("inst", o.inst = s.inst)
       \cup (IF o.press = s.press THEN {}
             ELSE C("events", All8(Kinds, o.press, s.press))
                  \cup C("note", All8(Notes, o.press, s.press))
                  \cup C("ids", All8(Ids, o.press, s.press))
                  \cup C("times", All8(Times, o.press, s.press)))
       \cup C("ticks", /\ \A i \in 1..(Len(o.ticks) - 1) :
                            TimeLE(o.ticks[i], o.ticks[i + 1]) /\ o.ticks[i] # o.ticks[i + 1]
                       /\ {o.ticks[i] : i \in 1..Len(o.ticks)} = s.ticks)

DoneBad == C("outcome", O.ok = 1)
           \cup C("extra", O.other = 0)
           \cup (IF O.ok # 1 THEN {} ELSE
                 (IF K.want.inst = 1 THEN InstBad
                  ELSE C("unrequested", O.inst.st = K.pre.inst))
                 \cup (IF K.want.song = 1 THEN SongBad
                       ELSE C("unrequested", O.song.st = K.pre.song))
                 \cup (IF K.want.state = 1 THEN StateBad ELSE {})
                 \cup (IF K.want.table = 1 THEN TableBad ELSE {}))

\* the song ends before the damage, or the container is one readers may refuse
MayRefuse == Zipped /\ (z.st = "bad" \/ z.open = 1)
Finish == /\ ph \in {"done", "failed"}
          /\ Report(K.id, l, IF ph = "done" /\ ~(MayRefuse /\ O.ok # 1) THEN DoneBad ELSE FailBad)
          /\ Fin(K.id, TRUE)
          /\ ph' = "end"
          /\ UNCHANGED << s, p, z >>

Step == ph # "end" /\ l' = l + 1 /\ tid' = tid /\ (Unzip \/ Open \/ Read \/ Finish)
Spec == Init /\ [][Step]_vars
View == << tid, l >>
DesignInv == OpmInv(s)
=============================================================================
