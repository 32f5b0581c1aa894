------------------------------ MODULE ArithMC -------------------------------
(***************************************************************************)
(* The arithmetic and the texts of the specification.                      *)
(* TLC's integers have 32 bits, so Opm keeps time as two digits and        *)
(* Tracker divides it digit by digit.  Both are written for any base and   *)
(* checked here for small bases against plain integers, for every time and *)
(* every row length below a bound; nothing in them depends on the base.    *)
(* The texts of notes, instruments and cells are checked to say what they  *)
(* stand for: reading them back gives the note, and different notes read   *)
(* differently.                                                            *)
(***************************************************************************)
EXTENDS Tracker, VgmFormat
CONSTANTS Digits, MaxHi, MaxRow

VARIABLES d, hi, row
Init == d \in Digits /\ hi \in 0..MaxHi /\ row \in 1..MaxRow
Spec == Init /\ [][FALSE]_<< d, hi, row >>

Value(t, b) == t[1] * b + t[2]
Division == \A lo \in 0..(d * d - 1) :
              DivBy(<< hi, lo >>, row, d) = (hi * d * d + lo) \div row
\* here `row' is a wait
Addition == \A lo \in 0..(d * d - 1) :
              LET t == AddBy(<< hi, lo >>, row, d * d)
              IN Value(t, d * d) = hi * d * d + lo + row /\ t[2] \in 0..(d * d - 1)
\* comparing digits is comparing times
Order == \A lo \in 0..(d * d - 1) : \A lo2 \in {0, 1, d * d - 1} : \A h2 \in {0, hi, hi + 1} :
           TimeLE(<< hi, lo >>, << h2, lo2 >>) <=> Value(<< hi, lo >>, d * d) <= Value(<< h2, lo2 >>, d * d)

(* ------------------------------ byte strings ---------------------------- *)
Few == {0, 1, 127, 128, 252, 255}
LE(q) == q[1] + 256 * q[2] + 65536 * q[3]
ASSUME \A a, b, c \in Few : \A k \in 0..4 :
  LET q == AddCarry(<< a, b, c >>, 1, k) IN
  /\ Len(q) = 4 /\ \A i \in 1..4 : q[i] \in 0..255
  /\ LE(q) + 16777216 * q[4] = LE(<< a, b, c >>) + k
\* a file with a run says the same as the bytes written out
ASSUME \A at \in 0..3 : \A n \in 0..3 :
  LET q == << 10, 11, 12 >>
      b == File(q, << at, n, 7 >>)
      f == Flat(SubSeq(q, 1, at) \o [i \in 1..n |-> 7] \o SubSeq(q, at + 1, 3))
  IN /\ Size(b) = Size(f)
     /\ \A p \in 0..(Size(f) - 1) : At(b, p) = At(f, p)
     /\ \A p \in 0..Size(f) : \A m \in 0..(Size(f) - p) : Slice(b, p, m) = Slice(f, p, m)
\* fields of a byte: the eight bits are the byte
ASSUME \A v \in 0..255 : \A k \in 1..7 : Field(v, 0, k) + Pow2[k + 1] * Field(v, k, 8 - k) = v

(* --------------------------------- texts -------------------------------- *)
DigitOf(c) == CHOOSE k \in 1..16 : Hex[k] = c
ASSUME \A n \in 0..255 : HexId(n) = Hex[n \div 16 + 1] \o Hex[(n % 16) + 1]
ASSUME \A n \in 256..4095 : HexId(n) = Hex[n \div 256 + 1] \o Hex[((n \div 16) % 16) + 1] \o Hex[(n % 16) + 1]
ASSUME Cardinality({HexId(n) : n \in 0..5000}) = 5001

\* the chip's codes in order are the semitones C#, D, .. B, C of one octave
CodeSeq == << 0, 1, 2, 4, 5, 6, 8, 9, 10, 12, 13, 14 >>
Scale == << "C-", "C#", "D-", "D#", "E-", "F-", "F#", "G-", "G#", "A-", "A#", "B-" >>
N(id, nt, oct, kf, r, l) == [id |-> id, nt |-> nt, oct |-> oct, kf |-> kf, r |-> r, l |-> l, t |-> << 0, 0 >>]
Semitone(txt) == CHOOSE k \in 0..107 : txt = Scale[(k % 12) + 1] \o ToString(k \div 12)
ASSUME \A oct \in 0..7 : \A i \in 1..12 :
  Semitone(XrnsNote(N(0, CodeSeq[i], oct, 0, 1, 1))) = 12 * oct + i
ASSUME NoteCodes = {CodeSeq[i] : i \in 1..12}
\* cents: the nearest whole number to 1.6 per step
ASSUME \A kf \in 0..63 : LET e == 10 * Cents(kf) - 16 * kf IN e \in -4..4
ASSUME Cardinality({MaskName(m) : m \in 0..15}) = 16
\* a table cell tells the notes apart
CellNotes == {N(id, nt, oct, kf, p[1], p[2]) : id \in {0, 1, 10, 11, 110}, nt \in NoteCodes, oct \in {0, 1, 7},
               kf \in {0, 2, 3, 6, 7, 62, 63}, p \in {<< 1, 1 >>, << 1, 0 >>, << 0, 1 >>}}
ASSUME Cardinality({CsvText(x) : x \in CellNotes}) = Cardinality(CellNotes)
\* the open parts of a text are open, and nothing else is
ASSUME /\ Match("C#-4 [7]*", "C#-4 [7] Pan L") /\ Match("C#-4 [7]*", "C#-4 [7]")
       /\ ~Match("C#-4 [7]*", "C#-4 [17]") /\ ~Match("C#-4 [7]", "C#-4 [7] Pan L")
       /\ Match("*-4 [7]*", "D?-4 [7] Pan L") /\ ~Match("*-4 [7]", "Key Off") /\ ~Match("*-4 [7]", "D?-5 [7]")
       /\ ~Match("", "x") /\ ~Match("x", "") /\ Match("", "") /\ Match("*", "") /\ Match("a*b", "ab") /\ ~Match("a*b", "a")
\* a table cell of whatever kind is what it matches, and no cell matches an event of another kind
OddNotes == {N(id, nt, oct, kf, p[1], p[2]) : id \in {-1, 0, 12}, nt \in 0..15, oct \in {0, 7}, kf \in {0, 1, 2, 63},
               p \in {<< 1, 1 >>, << 0, 1 >>, << 0, 0 >>}}
ASSUME \A x \in OddNotes : /\ Match(CsvText(x), CsvText(x))
                            /\ Match(CsvText(x), "Key Off") <=> x.id < 0
                            /\ ~Match(CsvText(x), "")
ASSUME \A x, y \in {n \in OddNotes : n.nt \in {3, 4, 11}} :
  Match(CsvText(x), CsvText(y)) /\ y.nt \in NoteCodes =>
     x.id = y.id /\ (x.id >= 0 => x.oct = y.oct /\ Cents(x.kf) * (IF x.kf > 1 THEN 1 ELSE 0) = Cents(y.kf) * (IF y.kf > 1 THEN 1 ELSE 0))
\* and a song cell, together with its instrument and panning columns
ASSUME Cardinality({<< XrnsNote(x), XrnsInstr(x), XrnsPan(x) >> : x \in CellNotes}) * 7 = Cardinality(CellNotes)

(* ------------------------------ operand counts -------------------------- *)
\* the counts form the blocks of the format description
ASSUME \A op \in 0..255 : Operands(op) \in {0, 1, 2, 3, 4, 5, 10}
=============================================================================
