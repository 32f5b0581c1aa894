------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The extraction run: commands are consumed one after another until the   *)
(* end-of-sound-data command, the end of the data, or a failure; only then *)
(* are the requested outputs written.                                      *)
(*   ph  "open" -> "read" -> "done" | "failed"                             *)
(***************************************************************************)
EXTENDS Tracker, VgmFormat

\* effect of one complete command on the extraction
Consume(s, d) == CASE d.kind = "ym"   -> Write(s, d.reg, d.val)
                   [] d.kind = "wait" -> Wait(s, d.n)
                   [] OTHER           -> s
\* effect of m commands equal to d, none of them a key event unless m = 1
ConsumeMany(s, d, m) == IF d.kind = "wait" THEN Wait(s, d.n * m) ELSE Consume(s, d)
Together == 60000
AtOnce(b, p) == LET k == Repeats(b, p) IN IF k > Together THEN Together ELSE k
\* phases a run may be in after the command at offset p (see Decode)
AfterCommand(d) == CASE d.kind = "eos"   -> {"done"}
                     [] d.kind = "trunc" -> IF TruncMustFail(d.op) THEN {"failed"}
                                            ELSE {"failed", "done"}
                     [] OTHER            -> {"read"}

(* estimate, as a value *)
Minimum(S) == CHOOSE x \in S : \A y \in S : x <= y
Estimate(s) ==
  LET T    == TLCEval(EstTicks(s))
      cost == Costs(T, Shortest, Longest)
      m    == Minimum({cost[d] : d \in Shortest..Longest})
  IN Minimum({d \in Shortest..Longest : cost[d] = m})
RowLength(s, given) == IF given > 0 THEN given ELSE Estimate(s)
=============================================================================
