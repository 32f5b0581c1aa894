------------------------------- MODULE GzipMC -------------------------------
(***************************************************************************)
(* Damage to a compressed file is never silent: for every given file       *)
(* (its bytes r and the data d it stands for), every cut and every flipped *)
(* bit, the container machine ends, and either notices, or still yields    *)
(* exactly d.  Undamaged files yield d.  Damaged files are printed for     *)
(* replay into the implementation.                                         *)
(*   parameters: [files: Seq([r, d])]                                      *)
(***************************************************************************)
EXTENDS Gzip, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN_FILE)
Files == P.files

VARIABLES f,       \* file
          dmg,     \* damage: <<"none", 0>>, <<"cut", n>>, <<"flip", bit>>
          z
vars == << f, dmg, z >>

Harm(r, g) ==
  CASE g[1] = "cut"  -> SubSeq(r, 1, g[2])
    [] g[1] = "flip" -> LET k == g[2] \div 8 + 1
                            w == Pow2[(g[2] % 8) + 1]
                        IN [r EXCEPT ![k] = IF Bit(@, g[2] % 8) = 1 THEN @ - w ELSE @ + w]
    [] OTHER -> r
R == Harm(Files[f].r, dmg)

Init == /\ f \in 1..Len(Files)
        /\ dmg \in {<< "none", 0 >>} \cup {<< "cut", n >> : n \in 2..(Len(Files[f].r) - 1)}
                   \cup {<< "flip", b >> : b \in 16..(8 * Len(Files[f].r) - 1)}
        /\ z = GzInit
Next == ~GzDone(z) /\ z' = GzStep(R, z) /\ UNCHANGED << f, dmg >>
Spec == Init /\ [][Next]_vars
\* the machine is deterministic: what it has done is a function of where it is
View == << f, dmg, z.ph, z.i, Len(z.out) >>

\* where the cut ends with a complete member, what is left is a file
Whole == \E w \in 1..Len(Files[f].ends) : dmg = << "cut", Files[f].ends[w][1] >>
NotSilent == GzDone(z) =>
  CASE dmg[1] = "none" -> z.st = "ok" /\ z.open = 0 /\ z.out = Files[f].d
    [] dmg[1] = "cut"  -> IF Whole
                          THEN z.st = "ok"
                          ELSE z.st = "bad" \/ z.out = Files[f].d \/ z.open = 1
    [] OTHER -> z.st = "bad" \/ z.out = Files[f].d \/ z.open = 1
\* what precedes a cut is a beginning of the data
CutIsPrefix == dmg[1] = "cut" =>
  Len(z.out) <= Len(Files[f].d) /\ z.out = SubSeq(Files[f].d, 1, Len(z.out))
\* every step advances: no file makes the machine run forever
Advances == [][z'.ph = "end" \/ z'.i > z.i \/ z'.ph = "next"
              \/ (z.ph = "next" /\ z'.ph = "header")]_vars
Inv == NotSilent /\ CutIsPrefix
=============================================================================
