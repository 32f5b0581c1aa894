------------------------------ MODULE TraceEnd ------------------------------
(***************************************************************************)
(* Every command stream ends: for each recorded stream the number of       *)
(* commands delivered and the way it ended are those of the format.        *)
(*   case: [id, b, inline, n, end]   b: the bytes behind the header        *)
(*     end  1 the iteration ended, 2 an error, 0 neither within Len(b) + 2 *)
(***************************************************************************)
EXTENDS TraceBase, VgmFormat

VARIABLES tid, p, c, ph
vars == << tid, p, c, ph >>
K == Cases[tid]
B == Flat(K.b)

Init == /\ tid \in 1..Len(Cases) /\ p = 0 /\ c = 0 /\ ph = "read"
D == Decode(B, p, K.inline = 1)
End(bad) == Report(K.id, 1, bad) /\ Fin(K.id, TRUE) /\ ph' = "end" /\ UNCHANGED << p, c >>
Step == /\ ph = "read" /\ tid' = tid
        /\ IF K.end = 0 THEN End({"hang"})
           ELSE IF p >= Size(B) THEN End(C("cleanend", K.end = 1) \cup C("framing", K.n = c))
           ELSE CASE D.kind = "eos"   -> End(C("framing", K.n > c))
                  [] D.kind = "trunc" ->
                       End(IF TruncMustFail(D.op)
                           THEN C("cuterror", K.end = 2) \cup C("framing", K.n = c)
                           ELSE C("framing", K.n \in {c, c + 1}))
                  [] OTHER -> p' = D.nxt /\ c' = c + 1 /\ ph' = ph
Spec == Init /\ [][Step]_vars
View == << tid, p, c, ph >>
=============================================================================
