------------------------------ MODULE TraceOpm ------------------------------
(***************************************************************************)
(* Conformance of vgm.ym2151.state.State (public interface) with Opm.      *)
(* One step per apply()/beat()/read-only call.  Observations are recorded  *)
(* as differences to the previous observation; `ob' accumulates them, so   *)
(* the complete visible state is compared after every single step.         *)
(*   case: [id, ev]                                                        *)
(*   ev:   [k |-> "w", r, v, o] | [k |-> "b", n, o] | [k |-> "q", o]       *)
(*   o is absent where the harness did not look after that step            *)
(*   o:    [err, base, chan, instn, inst, press, ticks]                    *)
(***************************************************************************)
EXTENDS TraceBase, Opm

VARIABLES tid, l, s, ob
vars == << tid, l, s, ob >>

E == Cases[tid].ev[l]

Init == /\ tid \in 1..Len(Cases)
        /\ l = 1
        /\ s = OpmInit
        /\ ob = [base |-> Base0, chan |-> Eight(Chan0), inst |-> << >>,
                 press |-> Eight(<< >>)]

\* updates are << index, value >> pairs; every new index is among them
Upd(old, n, us) ==
  IF us = << >> /\ n = Len(old) THEN old
  ELSE [i \in 1..n |->
         IF \E j \in 1..Len(us) : us[j][1] = i
         THEN us[CHOOSE j \in 1..Len(us) : us[j][1] = i][2]
         ELSE old[i]]
NewOb(o) ==
  [base  |-> IF o.base = << >> THEN ob.base ELSE o.base[1],
   chan  |-> Upd(ob.chan, 8, o.chan),
   inst  |-> Upd(ob.inst, o.instn, o.inst),
   press |-> IF o.press = << >> THEN ob.press
             ELSE [c \in 1..8 |->
                    LET js == {j \in 1..Len(o.press) : o.press[j][1] = c}
                    IN IF js = {} THEN ob.press[c]
                       ELSE LET q == o.press[CHOOSE j \in js : TRUE]
                            IN Upd(ob.press[c], q[2], q[3])]]

\* a "hang" event stands for a step that never came back
StepSpec == CASE E.k = "w" -> Write(s, E.r, E.v)
              [] E.k = "b" -> Wait(s, E.n)
              [] OTHER     -> s

(* projections of an event list *)
Kinds(ps) == [k \in 1..Len(ps) |-> IF ps[k].id < 0 THEN 0 ELSE 1]
Notes(ps) == [k \in 1..Len(ps) |-> << ps[k].r, ps[k].l, ps[k].oct, ps[k].nt, ps[k].kf >>]
Ids(ps)   == [k \in 1..Len(ps) |-> ps[k].id]
Times(ps) == [k \in 1..Len(ps) |-> ps[k].t]
All8(f(_), a, b) == \A c \in 1..8 : f(a[c]) = f(b[c])
AscTicks(q) == \A i \in 1..(Len(q) - 1) : TimeLE(q[i], q[i + 1]) /\ q[i] # q[i + 1]
Range(q) == {q[i] : i \in 1..Len(q)}

Bad(n, o, w) ==
     C("raised", o.err = 0)
  \cup C("base", w.base = n.base)
  \cup C("chan", w.chan = n.chan)
  \cup C("append", /\ o.instn >= Len(ob.inst)
                   /\ \A j \in 1..Len(o.inst) : o.inst[j][1] > Len(ob.inst)
                   /\ \A j \in 1..Len(o.press) :
                        LET q == o.press[j] IN
                        /\ q[2] >= Len(ob.press[q[1]])
                        /\ \A i \in 1..Len(q[3]) : q[3][i][1] > Len(ob.press[q[1]]))
  \cup (IF w.press = n.press THEN {}
        ELSE C("events", All8(Kinds, w.press, n.press))
             \cup C("note", All8(Notes, w.press, n.press))
             \cup C("ids", All8(Ids, w.press, n.press))
             \cup C("times", All8(Times, w.press, n.press)))
  \cup C("inst", w.inst = n.inst)
  \cup (IF o.ticks = << >> THEN {}
        ELSE C("ticks", AscTicks(o.ticks[1]) /\ Range(o.ticks[1]) = n.ticks))

Step == /\ l <= Len(Cases[tid].ev)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET n == StepSpec
           IN /\ s' = n
              /\ IF "o" \in DOMAIN E
                 THEN LET w == NewOb(E.o)
                      IN Report(Cases[tid].id, l, Bad(n, E.o, w)) /\ ob' = w
                 ELSE Report(Cases[tid].id, l, C("hang", E.k # "hang")) /\ ob' = ob
        /\ Fin(Cases[tid].id, l = Len(Cases[tid].ev))
Spec == Init /\ [][Step]_vars
View == << tid, l >>
\* the specification's own properties, evaluated on every state reached
DesignInv == OpmInv(s)
=============================================================================
