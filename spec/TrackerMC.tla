----------------------------- MODULE TrackerMC ------------------------------
(***************************************************************************)
(* Refinement inside the specification: the outputs of Tracker are stated  *)
(* declaratively ("the last event of the channel in that row"); here they  *)
(* are computed the way an exporter works - events written one after       *)
(* another into a growing grid; a table made by merging eight event lists, *)
(* emitting a line whenever the row changes - and both must agree on every *)
(* history that GenOpm enumerates.  The histories are printed for replay   *)
(* into the implementation.                                                *)
(*   parameters: as GenOpm, and rowlen: Seq(row lengths)                   *)
(***************************************************************************)
EXTENDS GenOpm, Tracker

RowLens == {P.rowlen[i] : i \in 1..Len(P.rowlen)}

(* ---- the song: write each event of a channel into its cell ---- *)
RECURSIVE Paint(_, _, _, _)
Paint(ps, tpn, k, grid) ==          \* grid: function row -> event index
  IF k > Len(ps) THEN grid
  ELSE LET r == RowOf(ps[k], tpn)
       IN Paint(ps, tpn, k + 1,
                [x \in DOMAIN grid \cup {r} |-> IF x = r THEN k ELSE grid[x]])
Painted(ps, tpn) == Paint(ps, tpn, 1, << >>)
RECURSIVE Grow(_, _, _)             \* the pattern pool after all add_note calls
Grow(rows, i, n) == IF i > Len(rows) THEN n
                    ELSE LET p == rows[i] \div Lines
                         IN Grow(rows, i + 1, IF p + 1 > n THEN p + 1 ELSE n)
RowList(s0, tpn) ==
  LET r(c) == [k \in 1..Len(s0.press[c]) |-> RowOf(s0.press[c][k], tpn)]
  IN r(1) \o r(2) \o r(3) \o r(4) \o r(5) \o r(6) \o r(7) \o r(8)

SongAgrees(tpn) ==
  /\ \A c \in 1..8 :
       LET g == Painted(s.press[c], tpn)
           ix == LastInRow(s.press[c], tpn)
           cells == TrackCells(s.press[c], tpn)
       IN /\ {g[r] : r \in DOMAIN g} = {ix[k] : k \in 1..Len(ix)}
          /\ \A k \in 1..Len(cells) :
               /\ (cells[k][1] * Lines + cells[k][2][1]) \in DOMAIN g
               /\ g[cells[k][1] * Lines + cells[k][2][1]] = ix[k]
               /\ cells[k][2][1] < Lines
               /\ cells[k][1] < PatternCount(s, tpn)
  /\ Grow(RowList(s, tpn), 1, 0) = PatternCount(s, tpn)

(* ---- the table: merge of the eight event lists ---- *)
Blank == << 0, 0, 0, 0, 0, 0, 0, 0 >>
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN << >> ELSE << Blank >> \o Blanks(n - 1)
RECURSIVE Merge(_, _, _, _)
Merge(tpn, pos, cur, cells) ==
  LET live == {c \in 1..8 : pos[c] <= Len(s.press[c])}
  IN IF live = {} THEN IF cells = Blank THEN << >> ELSE << cells >>
     ELSE LET first == CHOOSE c \in live : \A d \in live :
                         TimeLE(s.press[c][pos[c]].t, s.press[d][pos[d]].t)
              row == RowOf(s.press[first][pos[first]], tpn)
              hit(c) == c \in live /\ RowOf(s.press[c][pos[c]], tpn) = row
              keep == IF row = cur THEN cells ELSE Blank
              next == [c \in 1..8 |-> IF hit(c) THEN pos[c] ELSE keep[c]]
              npos == [c \in 1..8 |-> IF hit(c) THEN pos[c] + 1 ELSE pos[c]]
          IN (IF row = cur THEN << >> ELSE << cells >> \o Blanks(row - cur - 1))
             \o Merge(tpn, npos, row, next)
LastAt(c, tpn, row) == LET hit == {k \in 1..Len(s.press[c]) : RowOf(s.press[c][k], tpn) = row}
                       IN IF hit = {} THEN 0 ELSE CHOOSE k \in hit : \A j \in hit : j <= k
TableAgrees(tpn) ==
  Merge(tpn, << 1, 1, 1, 1, 1, 1, 1, 1 >>, 0, Blank) =
    [r \in 1..(LastRow(s, tpn) + 1) |-> [c \in 1..8 |-> LastAt(c, tpn, r - 1)]]

(* ---- rows do not depend on how waits are cut into commands ---- *)
Agrees == \A tpn \in RowLens : SongAgrees(tpn) /\ TableAgrees(tpn)
(* ---- the tempo formula: largest whole number of beats that fits ---- *)
BpmIsLargest == \A tpn \in RowLens :
  LET b == Bpm(tpn) IN /\ b * tpn * LinesPerBeat <= 60 * SampleRate
                       /\ (b + 1) * tpn * LinesPerBeat > 60 * SampleRate
=============================================================================
