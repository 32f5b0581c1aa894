------------------------------ MODULE ReaderMC ------------------------------
(***************************************************************************)
(* Splitting a byte stream into commands, as a machine that takes one      *)
(* command per step, over every stream up to a length of an alphabet of    *)
(* bytes.  Checked: every step advances and stays inside the stream; the   *)
(* parts taken cover the stream without gaps or overlaps; the run ends     *)
(* after at most as many steps as there are bytes; and a stream cut        *)
(* anywhere delivers the same commands as far as they are complete, then   *)
(* at most one cut-off command - never a different one.                    *)
(*   parameters: [alpha: bytes, len: greatest length, inline]              *)
(***************************************************************************)
EXTENDS VgmFormat, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN_FILE)
Alpha == {P.alpha[i] : i \in 1..Len(P.alpha)}
Inline == P.inline = 1

VARIABLES b, p, cmds, ph
vars == << b, p, cmds, ph >>

Init == /\ b \in UNION {[1..n -> Alpha] : n \in 0..P.len}
        /\ p = 0 /\ cmds = << >> /\ ph = "read"
D == Decode(Flat(b), p, Inline)
Take == /\ ph = "read" /\ p < Len(b)
        /\ cmds' = Append(cmds, D)
        /\ p' = D.nxt
        /\ ph' = CASE D.kind = "eos" -> "ended" [] D.kind = "trunc" -> "cut" [] OTHER -> "read"
        /\ UNCHANGED b
Stop == ph = "read" /\ p = Len(b) /\ ph' = "ended" /\ UNCHANGED << b, p, cmds >>
Next == Take \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Advance == [][p' > p \/ ph' # ph]_vars
Inside == p <= Len(b)
\* where the k-th command begins
From(k) == IF k = 1 THEN 0 ELSE cmds[k - 1].nxt
Cover == \A k \in 1..Len(cmds) :
  LET c == cmds[k] IN
  /\ c.op = b[From(k) + 1]
  /\ c.nxt > From(k)
  /\ c.kind = "other" => From(k) < c.plo /\ c.plo + c.plen = c.nxt
Bounded == Len(cmds) <= Len(b)
RECURSIVE All(_, _)
All(q, i) == IF i >= Len(q) THEN << >>
             ELSE LET d == Decode(Flat(q), i, Inline)
                  IN << d >> \o (IF d.kind \in {"eos", "trunc"} THEN << >> ELSE All(q, d.nxt))
CutSafe == ph # "read" =>
  \A n \in 0..Len(b) :
    LET a == All(SubSeq(b, 1, n), 0)
        m == Len(a)
        t == m > 0 /\ a[m].kind = "trunc"
        k == IF t THEN m - 1 ELSE m
    IN /\ k <= Len(cmds) /\ SubSeq(a, 1, k) = SubSeq(cmds, 1, k)
       /\ t => k + 1 <= Len(cmds) /\ cmds[k + 1].op = a[m].op /\ cmds[k + 1].nxt >= n
Inv == Inside /\ Cover /\ Bounded /\ CutSafe
Ends == <>(ph # "read")
=============================================================================
