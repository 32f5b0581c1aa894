----------------------------- MODULE HistoryMC ------------------------------
(***************************************************************************)
(* Refinement inside the specification.  Opm is an automaton: one action   *)
(* per register group, updating a record.  Here the same chip is described *)
(* without any state, directly on the history of writes and waits:         *)
(*   - a parameter is a bit field of the last value written to the         *)
(*     register that holds it (0 if there was none); the data sheet is a   *)
(*     table of registers and bit positions, not code                      *)
(*   - time is the sum of the waits before                                 *)
(*   - a key event is a write to the key register, except key-offs with no *)
(*     key-on before                                                       *)
(*   - two key-ons are alike if all parameters and the mask were; the      *)
(*     number of an instrument counts the different ones before its first  *)
(*     use                                                                 *)
(* Both must agree on every history of GenOpm (parameters as there).       *)
(***************************************************************************)
EXTENDS GenOpm

(* the data sheet: << register of channel 0 (and slot 0), low bit, width >> *)
OpSheet == [tl  |-> << 96, 0, 7 >>,  ar  |-> << 128, 0, 5 >>, d1r |-> << 160, 0, 5 >>,
            d1l |-> << 224, 4, 4 >>, d2r |-> << 192, 0, 5 >>, rr  |-> << 224, 0, 4 >>,
            ks  |-> << 128, 6, 2 >>, mul |-> << 64, 0, 4 >>,  dt1 |-> << 64, 4, 3 >>,
            dt2 |-> << 192, 6, 2 >>, ase |-> << 160, 7, 1 >>]
ChanSheet == [fb |-> << 32, 3, 3 >>, con |-> << 32, 0, 3 >>,
              ams |-> << 56, 0, 2 >>, pms |-> << 56, 4, 3 >>]
NoteSheet == [r |-> << 32, 7, 1 >>, l |-> << 32, 6, 1 >>, oct |-> << 40, 4, 3 >>,
              nt |-> << 40, 0, 4 >>, kf |-> << 48, 2, 6 >>]

H == [k \in 1..Len(h) |-> Alpha[h[k]]]
\* the last value among the first n steps that satisfies `Is', 0 if none
LastVal(n, Is(_)) == LET hits == {k \in 1..n : Is(H[k])}
                     IN IF hits = {} THEN 0
                        ELSE H[CHOOSE k \in hits : \A j \in hits : j <= k][2]
Reg(n, r) == LET Is(a) == a[1] = r IN LastVal(n, Is)
Read(n, e, off) == Field(Reg(n, e[1] + off), e[2], e[3])

OpAt(n, c, k) == [f \in DOMAIN OpSheet |-> Read(n, OpSheet[f], 8 * (k - 1) + c - 1)]
NoteAt(n, c)  == [f \in DOMAIN NoteSheet |-> Read(n, NoteSheet[f], c - 1)]
ChanAt(n, c)  ==
  [f \in DOMAIN ChanSheet |-> Read(n, ChanSheet[f], c - 1)]
  @@ [ne   |-> IF c = 8 THEN Field(Reg(n, 15), 7, 1) ELSE 0,
      nfrq |-> IF c = 8 THEN Field(Reg(n, 15), 0, 5) ELSE 0,
      op   |-> << OpAt(n, c, 1), OpAt(n, c, 2), OpAt(n, c, 3), OpAt(n, c, 4) >>]
BaseAt(n) == LET Low(a)  == a[1] = 25 /\ a[2] < 128
                 High(a) == a[1] = 25 /\ a[2] >= 128
             IN [lfo |-> Reg(n, 24), wf |-> Field(Reg(n, 27), 0, 2),
                 amd |-> Field(LastVal(n, Low), 0, 7), pmd |-> Field(LastVal(n, High), 0, 7)]
RECURSIVE Elapsed(_)
Elapsed(n) == IF n = 0 THEN 0
              ELSE Elapsed(n - 1) + (IF H[n][1] = 256 THEN H[n][2] ELSE 0)
Time2(x) == << x \div TimeBase, x % TimeBase >>

Mask(k) == Field(H[k][2], 3, 4)
Chn(k)  == (H[k][2] % 8) + 1
Keys    == {k \in 1..Len(h) : H[k][1] = 8}
Ons     == {k \in Keys : Mask(k) # 0}
Heard(k) == \E j \in Ons : j <= k
SoundAt(k) == [base |-> BaseAt(k - 1), chan |-> ChanAt(k - 1, Chn(k)), mask |-> Mask(k)]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Declared ==
  LET n     == Len(h)
      sound == TLCEval([k \in Ons |-> SoundAt(k)])
      first == TLCEval([k \in Ons |-> Least({j \in Ons : sound[j] = sound[k]})])
      news  == {k \in Ons : first[k] = k}
      rank(k) == Cardinality({j \in news : j < first[k]})
      all   == [k \in 1..n |-> k]
      inst  == LET New(k) == k \in news IN SelectSeq(all, New)
      evs(c) == LET Mine(k) == k \in Keys /\ Chn(k) = c /\ Heard(k) IN SelectSeq(all, Mine)
      ev(k) == NoteAt(k - 1, Chn(k))
               @@ [id |-> IF k \in Ons THEN rank(k) ELSE -1, t |-> Time2(Elapsed(k - 1))]
  IN [base  |-> BaseAt(n),
      chan  |-> [c \in 1..8 |-> ChanAt(n, c)],
      note  |-> [c \in 1..8 |-> NoteAt(n, c)],
      inst  |-> [i \in 1..Len(inst) |-> sound[inst[i]]],
      press |-> [c \in 1..8 |-> [i \in 1..Len(evs(c)) |-> ev(evs(c)[i])]],
      now   |-> Time2(Elapsed(n)),
      begun |-> IF Ons = {} THEN 0 ELSE 1,
      ticks |-> {Time2(Elapsed(k - 1)) : k \in Ons}]
Agrees == Len(h) = Depth => s = Declared
=============================================================================
