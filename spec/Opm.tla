-------------------------------- MODULE Opm ---------------------------------
(***************************************************************************)
(* The YM2151 (OPM) front end of vgm_extractor: what a stream of register  *)
(* writes and waits makes of the chip's settings, the list of distinct     *)
(* instruments, and the per-channel list of key events.                    *)
(*                                                                         *)
(* The state is ONE record `s' so that several sessions can be held in one *)
(* specification (OpmMC, Extractor, TraceOpm, TraceSession all use it):    *)
(*   base   [lfo, amd, pmd, wf]            chip-wide settings              *)
(*   chan   8 x [fb,con,ams,pms,ne,nfrq,op] channel settings, 4 operators  *)
(*   note   8 x [r,l,oct,nt,kf]            what the channel would play     *)
(*   inst   Seq([base, chan, mask])        distinct instruments, id = i-1  *)
(*   press  8 x Seq([id,r,l,oct,nt,kf,t])  key events; id = -1: key off    *)
(*   now    <<hi, lo>>                     elapsed samples, base 2^20      *)
(*   begun  0/1                            a key-on has happened           *)
(*   ticks  set of times                   sample positions of key-ons     *)
(* Booleans of the implementation are 0/1 here.                            *)
(* Operator order in `op' is register order: M1, M2, C1, C2.               *)
(* One named operator per register group of the chip (= per branch of      *)
(* State.apply); the chip's data sheet is the oracle for the bit fields.   *)
(***************************************************************************)
EXTENDS Bits, FiniteSets

Op0    == [tl |-> 0, ar |-> 0, d1r |-> 0, d1l |-> 0, d2r |-> 0, rr |-> 0,
           ks |-> 0, mul |-> 0, dt1 |-> 0, dt2 |-> 0, ase |-> 0]
Chan0  == [fb |-> 0, con |-> 0, ams |-> 0, pms |-> 0, ne |-> 0, nfrq |-> 0,
           op |-> << Op0, Op0, Op0, Op0 >>]
Note0  == [r |-> 0, l |-> 0, oct |-> 0, nt |-> 0, kf |-> 0]
Base0  == [lfo |-> 0, amd |-> 0, pmd |-> 0, wf |-> 0]
Eight(x) == << x, x, x, x, x, x, x, x >>

OpmInit == [base |-> Base0, chan |-> Eight(Chan0), note |-> Eight(Note0),
            inst |-> << >>, press |-> Eight(<< >>), now |-> << 0, 0 >>,
            begun |-> 0, ticks |-> {}]

(* ------------------------------- time ---------------------------------- *)
TimeBase == 1048576
AddBy(t, w, base) == LET lo == t[2] + (w % base)
                     IN << t[1] + (w \div base) + (lo \div base), lo % base >>
AddTime(t, w) == AddBy(t, w, TimeBase)
TimeLE(a, b)  == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
TimeInt(t)    == t[1] * TimeBase + t[2]          \* only when below 2^31
Wait(s, w)    == [s EXCEPT !.now = AddTime(@, w)]

(* -------------------------- register groups ---------------------------- *)
Ch(r) == (r % 8) + 1                 \* channel slot, 1-based
Sl(r) == Field(r, 3, 2) + 1          \* operator slot, 1-based

Noise(s, v)    == [s EXCEPT !.chan[8].ne = Bit(v, 7),
                            !.chan[8].nfrq = Field(v, 0, 5)]
Lfo(s, v)      == [s EXCEPT !.base.lfo = v]
ModDepth(s, v) == IF Bit(v, 7) = 1
                  THEN [s EXCEPT !.base.pmd = Field(v, 0, 7)]
                  ELSE [s EXCEPT !.base.amd = Field(v, 0, 7)]
WaveSel(s, v)  == [s EXCEPT !.base.wf = Field(v, 0, 2)]

ChanCtl(s, r, v) == [s EXCEPT !.note[Ch(r)].r = Bit(v, 7),
                              !.note[Ch(r)].l = Bit(v, 6),
                              !.chan[Ch(r)].fb = Field(v, 3, 3),
                              !.chan[Ch(r)].con = Field(v, 0, 3)]
KeyCode(s, r, v) == [s EXCEPT !.note[Ch(r)].oct = Field(v, 4, 3),
                              !.note[Ch(r)].nt = Field(v, 0, 4)]
KeyFrac(s, r, v) == [s EXCEPT !.note[Ch(r)].kf = Field(v, 2, 6)]
ModSens(s, r, v) == [s EXCEPT !.chan[Ch(r)].pms = Field(v, 4, 3),
                              !.chan[Ch(r)].ams = Field(v, 0, 2)]

OpDt1Mul(s, r, v) == [s EXCEPT !.chan[Ch(r)].op[Sl(r)].dt1 = Field(v, 4, 3),
                               !.chan[Ch(r)].op[Sl(r)].mul = Field(v, 0, 4)]
OpTl(s, r, v)     == [s EXCEPT !.chan[Ch(r)].op[Sl(r)].tl = Field(v, 0, 7)]
OpKsAr(s, r, v)   == [s EXCEPT !.chan[Ch(r)].op[Sl(r)].ks = Field(v, 6, 2),
                               !.chan[Ch(r)].op[Sl(r)].ar = Field(v, 0, 5)]
OpAseD1r(s, r, v) == [s EXCEPT !.chan[Ch(r)].op[Sl(r)].ase = Bit(v, 7),
                               !.chan[Ch(r)].op[Sl(r)].d1r = Field(v, 0, 5)]
OpDt2D2r(s, r, v) == [s EXCEPT !.chan[Ch(r)].op[Sl(r)].dt2 = Field(v, 6, 2),
                               !.chan[Ch(r)].op[Sl(r)].d2r = Field(v, 0, 5)]
OpD1lRr(s, r, v)  == [s EXCEPT !.chan[Ch(r)].op[Sl(r)].d1l = Field(v, 4, 4),
                               !.chan[Ch(r)].op[Sl(r)].rr = Field(v, 0, 4)]

(* ---------------------------- key events ------------------------------- *)
Sound(s, c, mask)  == [base |-> s.base, chan |-> s.chan[c], mask |-> mask]
\* index of the instrument equal to x, or Len+1
Find(inst, x) == LET hits == {i \in 1..Len(inst) : inst[i] = x}
                 IN IF hits = {} THEN Len(inst) + 1
                    ELSE CHOOSE i \in hits : \A j \in hits : i <= j
Event(s, c, id) == [id |-> id, r |-> s.note[c].r, l |-> s.note[c].l,
                    oct |-> s.note[c].oct, nt |-> s.note[c].nt,
                    kf |-> s.note[c].kf, t |-> s.now]

KeyOn(s, c, mask) ==
  LET x == Sound(s, c, mask)
      k == Find(s.inst, x)
  IN [s EXCEPT !.inst     = IF k > Len(@) THEN Append(@, x) ELSE @,
               !.press[c] = Append(@, Event(s, c, k - 1)),
               !.begun    = 1,
               !.ticks    = @ \cup {s.now}]
\* key-offs before the first key-on are silence and not recorded
KeyOff(s, c) ==
  IF s.begun = 0 THEN s
  ELSE [s EXCEPT !.press[c] = Append(@, Event(s, c, -1))]
KeyReg(s, v) == LET mask == Field(v, 3, 4)
                    c    == (v % 8) + 1
                IN IF mask # 0 THEN KeyOn(s, c, mask) ELSE KeyOff(s, c)

(* --------------------------- register write ---------------------------- *)
Group(r) == CASE r = 8            -> "key"
              [] r = 15           -> "noise"
              [] r = 24           -> "lfo"
              [] r = 25           -> "depth"
              [] r = 27           -> "wave"
              [] r \in 32..39     -> "rlfbcon"
              [] r \in 40..47     -> "kc"
              [] r \in 48..55     -> "kf"
              [] r \in 56..63     -> "pmsams"
              [] r \in 64..95     -> "dt1mul"
              [] r \in 96..127    -> "tl"
              [] r \in 128..159   -> "ksar"
              [] r \in 160..191   -> "ased1r"
              [] r \in 192..223   -> "dt2d2r"
              [] r \in 224..255   -> "d1lrr"
              [] OTHER            -> "none"

Write(s, r, v) ==
  LET g == Group(r) IN
  CASE g = "key"     -> KeyReg(s, v)
    [] g = "noise"   -> Noise(s, v)
    [] g = "lfo"     -> Lfo(s, v)
    [] g = "depth"   -> ModDepth(s, v)
    [] g = "wave"    -> WaveSel(s, v)
    [] g = "rlfbcon" -> ChanCtl(s, r, v)
    [] g = "kc"      -> KeyCode(s, r, v)
    [] g = "kf"      -> KeyFrac(s, r, v)
    [] g = "pmsams"  -> ModSens(s, r, v)
    [] g = "dt1mul"  -> OpDt1Mul(s, r, v)
    [] g = "tl"      -> OpTl(s, r, v)
    [] g = "ksar"    -> OpKsAr(s, r, v)
    [] g = "ased1r"  -> OpAseD1r(s, r, v)
    [] g = "dt2d2r"  -> OpDt2D2r(s, r, v)
    [] g = "d1lrr"   -> OpD1lRr(s, r, v)
    [] OTHER         -> s

(* ----------------- properties of one state / one step ------------------ *)
InstDistinct(s)  == \A i, j \in 1..Len(s.inst) : s.inst[i] = s.inst[j] => i = j
IdsValid(s)      == \A c \in 1..8 : \A k \in 1..Len(s.press[c]) :
                      s.press[c][k].id \in -1..(Len(s.inst) - 1)
\* ids appear in order of first use: every instrument is used by some event
AllUsed(s)       == \A i \in 1..Len(s.inst) : \E c \in 1..8 :
                      \E k \in 1..Len(s.press[c]) : s.press[c][k].id = i - 1
MasksNonZero(s)  == \A i \in 1..Len(s.inst) : s.inst[i].mask \in 1..15
Chronological(s) == \A c \in 1..8 : \A k \in 1..Len(s.press[c]) :
                      /\ TimeLE(s.press[c][k].t, s.now)
                      /\ k > 1 => TimeLE(s.press[c][k - 1].t, s.press[c][k].t)
TicksAreKeyOns(s) == s.ticks = UNION { { s.press[c][k].t :
                        k \in {j \in 1..Len(s.press[c]) : s.press[c][j].id >= 0} }
                        : c \in 1..8 }
QuietBeforeBegin(s) == s.begun = 0 => /\ s.inst = << >> /\ s.ticks = {}
                                      /\ \A c \in 1..8 : s.press[c] = << >>
OpmInv(s) == /\ InstDistinct(s) /\ IdsValid(s) /\ AllUsed(s)
             /\ MasksNonZero(s) /\ Chronological(s) /\ TicksAreKeyOns(s)
             /\ QuietBeforeBegin(s)

PrefixOf(a, b)  == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
AppendOnly(s, n) == /\ PrefixOf(s.inst, n.inst)
                    /\ Len(n.inst) <= Len(s.inst) + 1
                    /\ \A c \in 1..8 : PrefixOf(s.press[c], n.press[c])
                    /\ s.ticks \subseteq n.ticks
                    /\ TimeLE(s.now, n.now)
\* what a write to register r with value v may touch
Frame(s, n, r, v) ==
  LET g == Group(r) IN
  /\ n.now = s.now
  /\ g \notin {"lfo", "depth", "wave"} => n.base = s.base
  /\ \A c \in 1..8 :
       /\ n.chan[c] # s.chan[c] => \/ g = "noise" /\ c = 8
                                   \/ r >= 32 /\ c = Ch(r)
       /\ n.note[c] # s.note[c] => g \in {"rlfbcon", "kc", "kf"} /\ c = Ch(r)
       /\ \A k \in 1..4 : n.chan[c].op[k] # s.chan[c].op[k]
                            => r >= 64 /\ c = Ch(r) /\ k = Sl(r)
       /\ n.press[c] # s.press[c] => r = 8 /\ c = (v % 8) + 1
  /\ r # 8 => /\ n.inst = s.inst /\ n.press = s.press
              /\ n.ticks = s.ticks /\ n.begun = s.begun
\* writing the same value again to a settings register changes nothing
Idempotent(n, r, v) == r # 8 => Write(n, r, v) = n
=============================================================================
