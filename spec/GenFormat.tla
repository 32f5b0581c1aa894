----------------------------- MODULE GenFormat ------------------------------
(***************************************************************************)
(* All command-data bodies over a finite alphabet of bytes.  Checks that   *)
(* the container specification always makes progress and cuts every body   *)
(* into consecutive pieces that cover it exactly, and prints the bodies of *)
(* full length for replay into vgm.core.reader.                            *)
(*   parameters: [alpha: Seq(0..255), depth]                               *)
(***************************************************************************)
EXTENDS VgmFormat, TLC, Json, IOUtils

P == JsonDeserialize(IOEnv.GEN_FILE)
Alpha == P.alpha
Depth == P.depth

VARIABLE body
Init == body = << >>
Next == Len(body) < Depth /\ \E i \in 1..Len(Alpha) : body' = Append(body, Alpha[i])
Spec == Init /\ [][Next]_body

\* the offsets at which commands start
RECURSIVE Starts(_, _, _)
Starts(b, p, inline) ==
  IF p >= Size(b) THEN << p >>
  ELSE << p >> \o Starts(b, Decode(b, p, inline).nxt, inline)
Partition(inline) ==
  LET q == Starts(Flat(body), 0, inline)
  IN /\ q[1] = 0 /\ q[Len(q)] = Len(body)
     /\ \A i \in 1..(Len(q) - 1) :
          LET d == Decode(Flat(body), q[i], inline) IN
          /\ q[i] < q[i + 1]
          /\ d.kind \in {"ym", "wait", "eos", "other", "trunc"}
          /\ d.kind = "trunc" => i = Len(q) - 1
          /\ d.kind = "other" /\ d.op \notin {103, 104} => d.nxt = q[i] + 1 + Operands(d.op)
          /\ d.kind # "trunc" => d.plo + d.plen <= d.nxt
\* the pieces of a prefix are a prefix of the pieces: decoding is causal
Causal == Len(body) > 0 =>
  LET b1 == Flat(SubSeq(body, 1, Len(body) - 1))
      q1 == Starts(b1, 0, FALSE)
      q  == Starts(Flat(body), 0, FALSE)
  IN \A i \in 1..(Len(q1) - 1) : i <= Len(q) /\ q[i] = q1[i]
Inv == Partition(FALSE) /\ Partition(TRUE) /\ Causal
Emit == Len(body) = Depth => PrintT("GEN " \o ToJson(body))
=============================================================================
