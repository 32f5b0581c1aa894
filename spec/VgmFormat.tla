----------------------------- MODULE VgmFormat ------------------------------
(***************************************************************************)
(* The VGM container: header fields and command framing.  A file `b' is a  *)
(* sequence of bytes, into which one long run of equal bytes may have been *)
(* inserted (so that files of many megabytes stay small here):             *)
(*   [q, at, n, v]   the bytes q, with n times the byte v at offset `at'   *)
(* Positions p are 0-based file offsets.                                   *)
(*                                                                         *)
(* The oracle for command lengths is the VGM file format description.      *)
(* `inline' selects the dialect for the PCM RAM write (0x68): the format   *)
(* says it is 12 bytes long (FALSE); the implementation (and the           *)
(* repository's own stable test) reads `size' further bytes (TRUE).  This  *)
(* is the recorded known finding of C01 - see DESIGN.md.                   *)
(***************************************************************************)
EXTENDS Bits

Flat(q)       == [q |-> q, at |-> 0, n |-> 0, v |-> 0]
File(q, gap)  == [q |-> q, at |-> gap[1], n |-> gap[2], v |-> gap[3]]
Size(b)       == Len(b.q) + b.n
At(b, p)      == IF p < b.at \/ b.n = 0 THEN b.q[p + 1]
                 ELSE IF p < b.at + b.n THEN b.v ELSE b.q[p + 1 - b.n]
\* n bytes from offset p; meant for parts that do not reach into the run
Slice(b, p, n) == IF b.n = 0 \/ p + n <= b.at THEN SubSeq(b.q, p + 1, p + n)
                  ELSE IF p >= b.at + b.n THEN SubSeq(b.q, p + 1 - b.n, p + n - b.n)
                  ELSE [i \in 1..n |-> At(b, p + i - 1)]
Has(b, p, n)  == n <= Size(b) - p
\* is the part of n bytes at p the bytes `pay', with the run pg = <<at, n, v>>
IsPart(b, p, n, pay, pg) ==
  IF pg[2] = 0 THEN Len(pay) = n /\ pay = Slice(b, p, n)
  ELSE /\ n = Len(pay) + pg[2] /\ b.n = pg[2] /\ b.v = pg[3]
       /\ p + pg[1] = b.at
       /\ pay = SubSeq(b.q, p + 1, p + n - b.n)

At24(b, p)    == At(b, p) + 256 * At(b, p + 1) + 65536 * At(b, p + 2)

(* ------------------------------- header -------------------------------- *)
Magic == << 86, 103, 109, 32 >>            \* "Vgm "
IsVgm(b) == Has(b, 0, 4) /\ Slice(b, 0, 4) = Magic
Bcd(b, p) == LET d(i) == (At(b, p + i) \div 16) * 10 + (At(b, p + i) % 16)
             IN d(0) + 100 * d(1) + 10000 * d(2) + 1000000 * d(3)
Version(b)   == Bcd(b, 8)
EofOffset(b) == Slice(b, 4, 4)
SizeBytes(b) == AddCarry(EofOffset(b), 1, 4)      \* eof offset + 4, 5 LE bytes
ClockYm2413(b) == Slice(b, 16, 4)
ClockYm2151(b) == IF Version(b) < 110 THEN Slice(b, 16, 4) ELSE Slice(b, 48, 4)
NonZero(q) == \E i \in 1..Len(q) : q[i] # 0
\* bytes the header needs
HeaderLen(b) == IF Version(b) >= 150 THEN 56 ELSE 52
HeaderComplete(b) == Has(b, 0, 12) /\ Has(b, 0, HeaderLen(b))
\* absolute offset of the first command, or Size(b) if beyond the end
DataStart(b) ==
  IF Version(b) < 150 THEN 64
  ELSE IF At(b, 55) # 0 THEN Size(b) + 1
       ELSE 52 + At24(b, 52)
DataStartBytes(b) ==        \* as five LE bytes, exact for any offset
  IF Version(b) < 150 THEN << 64, 0, 0, 0, 0 >>
  ELSE LET q == Slice(b, 52, 4)
           x == q[1] + 52
       IN << x % 256 >> \o AddCarry(SubSeq(q, 2, 4), 1, x \div 256)

(* ------------------------------ commands ------------------------------- *)
\* fixed operand count per opcode; 0x67 and 0x68 are handled separately
Operands(op) ==
  CASE op <= 47                 -> 0
    [] op \in 48..63            -> 1
    [] op \in 64..78            -> 2
    [] op \in 79..80            -> 1
    [] op \in 81..95            -> 2
    [] op = 97                  -> 2
    [] op \in {96, 98, 99, 100, 101, 102} -> 0
    [] op \in 105..143          -> 0
    [] op \in {144, 145}        -> 4
    [] op = 146                 -> 5
    [] op = 147                 -> 10
    [] op = 148                 -> 1
    [] op = 149                 -> 4
    [] op \in 150..159          -> 0
    [] op \in 160..191          -> 2
    [] op \in 192..223          -> 3
    [] OTHER                    -> 4

\* Bit 31 of a data block's size selects the second chip; the size itself is
\* in the 31 bits below.  (TLC: no file here has 2^30 bytes.)
Huge == 1000000000
SecondChip(b, p) == At(b, p + 3) > 127
BlockSize(b, p) == LET top == At(b, p + 3) % 128 IN
                   IF top > 63 THEN Huge ELSE 16777216 * top + At24(b, p)

Cmd(op, kind, n, reg, val, plo, plen, nxt) ==
  [op |-> op, kind |-> kind, n |-> n, reg |-> reg, val |-> val,
   plo |-> plo, plen |-> plen, nxt |-> nxt]
Trunc(b, p) == Cmd(At(b, p), "trunc", 0, 0, 0, 0, 0, Size(b))

\* the command starting at offset p < Len(b)
Decode(b, p, inline) ==
  LET op == At(b, p) IN
  CASE op = 84 ->
         IF ~Has(b, p, 3) THEN Trunc(b, p)
         ELSE Cmd(op, "ym", 0, At(b, p + 1), At(b, p + 2), 0, 0, p + 3)
    [] op = 97 ->
         IF ~Has(b, p, 3) THEN Trunc(b, p)
         ELSE Cmd(op, "wait", At(b, p + 1) + 256 * At(b, p + 2), 0, 0, 0, 0, p + 3)
    [] op = 98 -> Cmd(op, "wait", 735, 0, 0, 0, 0, p + 1)
    [] op = 99 -> Cmd(op, "wait", 882, 0, 0, 0, 0, p + 1)
    [] op \in 112..127 -> Cmd(op, "wait", op - 111, 0, 0, 0, 0, p + 1)
    [] op \in 128..143 -> Cmd(op, "wait", op - 128, 0, 0, 0, 0, p + 1)
    [] op = 102 -> Cmd(op, "eos", 0, 0, 0, 0, 0, p + 1)
    [] op = 103 ->
         IF ~Has(b, p, 7) THEN Trunc(b, p)
         ELSE LET n == BlockSize(b, p + 3) IN
              IF ~Has(b, p, 7 + n) THEN Trunc(b, p)
              ELSE Cmd(op, "other", 0, 0, 0, p + 7, n, p + 7 + n)
    [] op = 104 ->
         IF ~Has(b, p, 12) THEN Trunc(b, p)
         ELSE LET n == IF inline THEN At24(b, p + 9) ELSE 0 IN
              IF ~Has(b, p, 12 + n) THEN Trunc(b, p)
              ELSE Cmd(op, "other", 0, 0, 0, p + 12, n, p + 12 + n)
    [] OTHER ->
         LET n == Operands(op) IN
         IF ~Has(b, p, 1 + n) THEN Trunc(b, p)
         ELSE Cmd(op, "other", 0, 0, 0, p + 1, n, p + 1 + n)

(* ---------------------- many equal commands at once -------------------- *)
\* Inside the run of equal bytes commands repeat: from p on, that many whole
\* commands of equal kind and operands lie in it (1 outside the run).  RunMC
\* shows that taking m of them in one step is taking m steps.
Repeats(b, p) ==
  IF b.n = 0 \/ p < b.at \/ p >= b.at + b.n \/ b.v \in {102, 103, 104} THEN 1
  ELSE LET k == (b.at + b.n - p) \div (1 + Operands(b.v)) IN IF k = 0 THEN 1 ELSE k
\* offset behind m commands from p on, the first of which is d
Behind(d, p, m) == p + m * (d.nxt - p)

\* a cut-off command of this kind must be reported as an error
TruncMustFail(op) == op \in {84, 97}
=============================================================================
