------------------------------ MODULE Tracker -------------------------------
(***************************************************************************)
(* The outputs: Renoise song grid, cell texts, tempo, instrument file, CSV *)
(* table, and the row-length estimate - as functions of an Opm state.      *)
(* `tpn' is the row length in samples ("ticks per note").                  *)
(***************************************************************************)
EXTENDS Opm, TLC, FiniteSetsExt

Lines == 64                        \* lines per pattern

(* ------------------------------- texts --------------------------------- *)
Hex == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F" >>
RECURSIVE HexDigits(_)
HexDigits(n) == IF n < 16 THEN Hex[n + 1] ELSE HexDigits(n \div 16) \o Hex[(n % 16) + 1]
HexId(n) == IF n < 16 THEN "0" \o HexDigits(n) ELSE HexDigits(n)

\* the twelve documented note codes; 3, 7, 11, 15 are not notes of the chip
NoteCodes == {0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14}
NoteName == [c \in NoteCodes |->
   CASE c = 0 -> "C#" [] c = 1 -> "D-" [] c = 2 -> "D#" [] c = 4 -> "E-"
     [] c = 5 -> "F-" [] c = 6 -> "F#" [] c = 8 -> "G-" [] c = 9 -> "G#"
     [] c = 10 -> "A-" [] c = 12 -> "A#" [] c = 13 -> "B-" [] c = 14 -> "C-"]
\* the chip's octave runs C#..C: code 14 is the C of the next named octave
XrnsNote(n) == IF n.id < 0 THEN "Off"
               ELSE IF n.nt \notin NoteCodes THEN "*"       \* unspecified
               ELSE NoteName[n.nt] \o ToString(IF n.nt = 14 THEN n.oct + 1 ELSE n.oct)
XrnsInstr(n) == IF n.id < 0 THEN "" ELSE HexId(n.id)
\* Renoise panning: 00 left, 40 centre, 80 right; empty = leave centred.
\* "*" = unspecified: neither output enabled, or a key-off
XrnsPan(n) == IF n.id < 0 THEN "*"
              ELSE IF n.r = 1 /\ n.l = 1 THEN ""
              ELSE IF n.r = 1 THEN "80" ELSE IF n.l = 1 THEN "00" ELSE "*"

(* -------------------------------- grid --------------------------------- *)
\* sample position divided by the row length, rounded down.  Times beyond
\* TLC's 32-bit integers are divided digit by digit (base 1024), which is
\* exact for tpn < 2^20 as long as the quotient itself fits.
DivBy(t, tpn, d) ==             \* t in base d*d; see ArithMC
  LET x1 == (t[1] % tpn) * d + (t[2] \div d)
      x0 == (x1 % tpn) * d + (t[2] % d)
  IN ((t[1] \div tpn) * d + (x1 \div tpn)) * d + (x0 \div tpn)
DivTime(t, tpn) == IF t[1] < 2047 THEN TimeInt(t) \div tpn ELSE DivBy(t, tpn, 1024)
RowOf(n, tpn) == DivTime(n.t, tpn)
\* index of the last event of each occupied row, in order (events of one
\* channel are chronological)
LastInRow(ps, tpn) ==
  LET idx == [i \in 1..Len(ps) |-> i]
      keep(i) == i = Len(ps) \/ RowOf(ps[i + 1], tpn) # RowOf(ps[i], tpn)
  IN SelectSeq(idx, keep)
Cell(n, tpn) == << RowOf(n, tpn) % Lines, XrnsNote(n), XrnsInstr(n), XrnsPan(n) >>
TrackCells(ps, tpn) == LET ix == LastInRow(ps, tpn)
                       IN [k \in 1..Len(ix) |-> << RowOf(ps[ix[k]], tpn) \div Lines,
                                                   Cell(ps[ix[k]], tpn) >>]
LastRow(s, tpn) == LET rows == UNION {{RowOf(s.press[c][k], tpn) :
                                        k \in 1..Len(s.press[c])} : c \in 1..8}
                   IN IF rows = {} THEN -1
                      ELSE CHOOSE r \in rows : \A q \in rows : q <= r
PatternCount(s, tpn) == IF LastRow(s, tpn) < 0 THEN 0
                        ELSE LastRow(s, tpn) \div Lines + 1

(* -------------------------------- tempo -------------------------------- *)
SampleRate    == 44100
LinesPerBeat  == 4
\* whole beats per minute of `LinesPerBeat' rows of tpn samples each
Bpm(tpn) == ((60 * SampleRate) \div LinesPerBeat) \div tpn

(* ------------------------- row-length estimate ------------------------- *)
Shortest == 1000
Longest  == 7999
Window   == 32000
\* number of unmatched ticks when the rhythm is laid over itself, shifted
Cost(T, d) ==
  IF T = {} THEN 0 ELSE
  LET top == CHOOSE x \in T : \A y \in T : y <= x
  IN Cardinality({x \in T : x - d \notin T})
     + Cardinality({x \in T : x + d \notin T /\ x + d < top})
EstTicks(s) == {t \in {TimeInt(t) : t \in {u \in s.ticks : u[1] = 0}} : t < Window}
\* Cost with membership looked up in a table: TLC searches sets linearly, and
\* an estimate asks some 10^7 times.  Equal to Cost - see EstimatorMC.
Top(T) == IF T = {} THEN 0 ELSE CHOOSE x \in T : \A y \in T : y <= x
TickTable(T, far) == TLCEval([t \in 0..(Top(T) + 2 * far) |-> t - far \in T])
CostBy(T, M, far, top, d) ==
  Quantify(T, LAMBDA x : ~M[x - d + far])
  + Quantify(T, LAMBDA x : x + d < top /\ ~M[x + d + far])
\* The same number counted on the gaps U of a rhythm that has few of them:
\* the matched ticks of a shift are all instants less the gaps on either side,
\* plus the gaps that meet.  Equal to Cost - see EstimatorMC.
Gaps(T) == (0..Top(T)) \ T
GapTable(U, far, top) == TLCEval([t \in 0..(top + 2 * far) |-> t - far \in U])
CostByGaps(n, U, G, far, top, d) ==
  LET left    == Quantify(U, LAMBDA u : u <= top - d)
      right   == Quantify(U, LAMBDA u : u >= d)
      both    == Quantify(U, LAMBDA u : G[u - d + far])
      matched == IF d > top THEN 0 ELSE top - d + 1 - left - right + both
      atTop   == d <= top /\ ~G[top - d + far]
      below   == IF d > top THEN 0
                 ELSE top - d - Quantify(U, LAMBDA u : u < top - d)
  IN n - matched + below - (matched - (IF atTop THEN 1 ELSE 0))
\* cost of every shift of a range, counted whichever way is shorter
Costs(T, from, far) ==
  LET top == Top(T)
      U   == TLCEval(Gaps(T))
      n   == Cardinality(T)
      M   == TickTable(T, far)
      G   == GapTable(U, far, top)
  IN IF T # {} /\ 2 * Cardinality(U) < n
     THEN TLCEval([d \in from..far |-> CostByGaps(n, U, G, far, top, d)])
     ELSE TLCEval([d \in from..far |-> CostBy(T, M, far, top, d)])
IsEstimate(s, est) ==
  LET T    == TLCEval(EstTicks(s))
      cost == Costs(T, Shortest, Longest)
  IN /\ est \in Shortest..Longest
     /\ \A d \in Shortest..Longest : cost[est] <= cost[d] /\ (d < est => cost[est] < cost[d])

(* --------------------------- instrument file --------------------------- *)
WaveName(w) == CASE w = 0 -> "SAW" [] w = 1 -> "SQUARE" [] w = 2 -> "TRIANGLE"
                 [] w = 3 -> "NOISE"
\* key-on mask bits: 0 M1, 1 C1, 2 M2, 3 C2
MaskName(m) ==
  LET part(b, nm) == IF Bit(m, b) = 1 THEN << nm >> ELSE << >>
      q == part(0, "MOD1") \o part(1, "CAR1") \o part(2, "MOD2") \o part(3, "CAR2")
  IN CASE Len(q) = 1 -> q[1]
       [] Len(q) = 2 -> q[1] \o "|" \o q[2]
       [] Len(q) = 3 -> q[1] \o "|" \o q[2] \o "|" \o q[3]
       [] Len(q) = 4 -> q[1] \o "|" \o q[2] \o "|" \o q[3] \o "|" \o q[4]
       [] OTHER -> ""
\* register slots: 1 M1, 2 M2, 3 C1, 4 C2
InstFile(s) == [i \in 1..Len(s.inst) |->
  LET x == s.inst[i] IN
  [id |-> i - 1, wf |-> WaveName(x.base.wf), lfo |-> x.base.lfo,
   amd |-> x.base.amd, pmd |-> x.base.pmd, ops |-> MaskName(x.mask),
   fb |-> x.chan.fb, con |-> x.chan.con, ams |-> x.chan.ams,
   pms |-> x.chan.pms, ne |-> x.chan.ne, nfrq |-> x.chan.nfrq,
   m1 |-> x.chan.op[1], c1 |-> x.chan.op[3],
   m2 |-> x.chan.op[2], c2 |-> x.chan.op[4]]]

(* ------------------------------ CSV table ------------------------------ *)
CsvName == [c \in NoteCodes |->
   CASE c = 0 -> "C#" [] c = 1 -> "D " [] c = 2 -> "D#" [] c = 4 -> "E "
     [] c = 5 -> "F " [] c = 6 -> "F#" [] c = 8 -> "G " [] c = 9 -> "G#"
     [] c = 10 -> "A " [] c = 12 -> "A#" [] c = 13 -> "B " [] c = 14 -> "C "]
Cents(kf) == (16 * kf + 5) \div 10                    \* 1.6 cents a step, rounded
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
CsvText(n) ==
  IF n.id < 0 THEN "Key Off"
  ELSE (IF n.nt \in NoteCodes THEN CsvName[n.nt] ELSE "*") \o "-" \o ToString(n.oct)
       \o (IF n.kf > 1 THEN "-" \o Two(Cents(n.kf)) ELSE "")
       \o " [" \o ToString(n.id) \o "]"
       \o (IF n.r = 1 /\ n.l = 1 THEN "" ELSE IF n.r = 1 THEN " Pan R"
           ELSE IF n.l = 1 THEN " Pan L" ELSE "*")
CsvCell(s, tpn, c, row) ==
  LET hits == {k \in 1..Len(s.press[c]) : RowOf(s.press[c][k], tpn) = row}
  IN IF hits = {} THEN "" ELSE CsvText(s.press[c][CHOOSE k \in hits : \A j \in hits : j <= k])
\* row r of the table: pattern row, pattern, total row, eight cells
CsvRow(s, tpn, r) == << r % Lines, r \div Lines, r,
                        [c \in 1..8 |-> CsvCell(s, tpn, c, r)] >>

(* "*" in a specified text stands for any text: what is left open *)
Without(str, k) == SubSeq(str, k + 1, Len(str))       \* without its first k characters
RECURSIVE Glob(_, _)
Glob(spec, got) ==
  IF spec = "" THEN got = ""
  ELSE IF SubSeq(spec, 1, 1) = "*" THEN \E k \in 0..Len(got) : Glob(Without(spec, 1), Without(got, k))
  ELSE /\ got # "" /\ SubSeq(got, 1, 1) = SubSeq(spec, 1, 1)
       /\ Glob(Without(spec, 1), Without(got, 1))
Match(spec, got) == spec = "*" \/ spec = got \/ Glob(spec, got)
=============================================================================
