------------------------------- MODULE RunMC --------------------------------
(***************************************************************************)
(* Files with a long run of equal bytes, for every small file of an        *)
(* alphabet with a run of every length up to P.run at every place: the     *)
(* file written with a run is the file written out; and the machine that   *)
(* takes equal commands of the run together (ConsumeMany, Repeats) leaves, *)
(* whenever it stands between two commands, the extraction the machine of  *)
(* Pipeline has there, having taken the same commands.                     *)
(*   parameters: [alpha: bytes, len, run, together]                        *)
(***************************************************************************)
EXTENDS Pipeline, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN_FILE)
Alpha == {P.alpha[i] : i \in 1..Len(P.alpha)}

VARIABLES f, p, s, steps, slow
vars == << f, p, s, steps, slow >>

Init == /\ \E q \in UNION {[1..n -> Alpha] : n \in 0..P.len} :
             \E at \in 0..Len(q), n \in 0..P.run, v \in Alpha : f = File(q, << at, n, v >>)
        /\ p = 0 /\ s = OpmInit /\ steps = 0
        \* the machine of Pipeline, one command per step, standing at the same place
        /\ slow = [p |-> 0, s |-> OpmInit, steps |-> 0]

\* the file written out
Whole == SubSeq(f.q, 1, f.at) \o [i \in 1..f.n |-> f.v] \o SubSeq(f.q, f.at + 1, Len(f.q))
Read(b, x) == Decode(b, x, FALSE)
Ends(d) == d.kind \in {"eos", "trunc"}

RECURSIVE Catch(_, _)
Catch(x, to) == IF x.p >= to THEN x
                ELSE LET d == Read(Flat(Whole), x.p)
                     IN Catch([p |-> d.nxt, s |-> Consume(x.s, d), steps |-> x.steps + 1], to)
M == LET k == Repeats(f, p) IN IF k > P.together THEN P.together ELSE k
Next == /\ p < Size(f)
        /\ LET d == Read(f, p) IN
           /\ ~Ends(d)
           /\ s' = ConsumeMany(s, d, M)
           /\ p' = Behind(d, p, M)
           /\ steps' = steps + M
           /\ slow' = Catch(slow, p')
        /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

SameFile == /\ Size(f) = Len(Whole)
            /\ \A x \in 0..(Size(f) - 1) :
                 LET a == Read(f, x)
                     b == Read(Flat(Whole), x)
                 IN /\ a = b
                    /\ a.kind = "other" => Slice(f, a.plo, a.plen) = Slice(Flat(Whole), b.plo, b.plen)
SameRun == slow = [p |-> p, s |-> s, steps |-> steps]
Inv == (steps = 0 => SameFile) /\ SameRun
=============================================================================
