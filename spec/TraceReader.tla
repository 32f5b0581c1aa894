---------------------------- MODULE TraceReader -----------------------------
(***************************************************************************)
(* Conformance of vgm.core.reader with VgmFormat: every recorded           *)
(* observation (opening, each next(), the end) must be the one the format  *)
(* determines for the case's bytes.  One step per observation.             *)
(*   case: [id, b, gap, inline, ev]    (the file is File(b, gap))        *)
(*   ev:   [k |-> "open", ...] "none" "err" "cmd" "stop" "hang"            *)
(***************************************************************************)
EXTENDS TraceBase, VgmFormat

\* an observation may stand for `rep' equal ones in a row: `r' of them are done
VARIABLES tid, l, r, ph, p
vars == << tid, l, r, ph, p >>

B == File(Cases[tid].b, Cases[tid].gap)
E == Cases[tid].ev[l]

Init == /\ tid \in 1..Len(Cases)
        /\ l = 1 /\ r = 0 /\ ph = "open" /\ p = 0

(* opening *)
OpenBad ==
  IF E.k = "hang" THEN {"hang"}
  ELSE IF ~IsVgm(B) THEN C("refuse", E.k \in {"none", "err"})
  ELSE IF ~HeaderComplete(B) THEN C("shortheader", E.k \in {"none", "err"})
  ELSE IF E.k # "open" THEN {"open"}
  ELSE C("version", E.ver = Version(B))
       \cup C("size", E.size = SizeBytes(B))
       \cup C("start", E.ds = DataStartBytes(B))
       \cup C("clock", E.c13 = ClockYm2413(B) /\ E.c51 = ClockYm2151(B))
       \cup C("supports", /\ E.s13 = (IF NonZero(ClockYm2413(B)) THEN 1 ELSE 0)
                          /\ E.s51 = (IF NonZero(ClockYm2151(B)) THEN 1 ELSE 0)
                          /\ E.sxx = 0)
Open == /\ ph = "open"
        /\ Report(Cases[tid].id, l, OpenBad)
        /\ ph' = IF E.k = "open" /\ IsVgm(B) /\ HeaderComplete(B) THEN "stream" ELSE "end"
        /\ p' = IF ph' = "stream" THEN DataStart(B) ELSE 0

(* one call of next() at offset p *)
D == Decode(B, p, Cases[tid].inline = 1)
TypeName(kind) == CASE kind = "ym" -> "YM2151" [] kind = "wait" -> "WAIT"
                    [] kind = "eos" -> "EOS" [] OTHER -> ""
StreamBad ==
  IF E.k = "hang" THEN {"hang"}
  ELSE IF p >= Size(B) THEN C("cleanend", E.k = "stop")
  ELSE IF D.kind = "trunc" THEN
         IF TruncMustFail(D.op) THEN C("cuterror", E.k = "err")
         ELSE C("invented", E.k \in {"err", "stop"} \/ (E.k = "cmd" /\ E.ty = ""))
  ELSE IF E.k # "cmd" THEN {"lostcmd"}
  ELSE IF E.op # D.op \/ E.ty # TypeName(D.kind) THEN {"framing"}
  ELSE C(IF D.op = 97 THEN "wait16" ELSE "wait", D.kind = "wait" => E.n = D.n)
       \cup C("operands", /\ D.kind = "ym" => E.reg = D.reg /\ E.val = D.val
                          /\ D.kind = "other" => IsPart(B, D.plo, D.plen, E.pay, E.pg))
Rep == IF "rep" \in DOMAIN E THEN E.rep ELSE 1
M == IF p >= Size(B) THEN 1
     ELSE LET k == Repeats(B, p) IN IF k > Rep - r THEN Rep - r ELSE k
Next1 == /\ ph = "stream"
         /\ Report(Cases[tid].id, l, StreamBad)
         /\ p' = IF p >= Size(B) THEN p ELSE Behind(D, p, M)
         /\ ph' = IF E.k # "cmd" \/ p >= Size(B)
                     \/ (p < Size(B) /\ D.kind # "trunc" /\ E.op # D.op)
                     \/ (p < Size(B) /\ D.kind = "eos")
                  THEN "end" ELSE "stream"
\* behind the end-of-sound-data command there are no commands: what a reader
\* makes of the bytes there is not specified
After == /\ ph = "end"
         /\ UNCHANGED << ph, p >>

Step == l <= Len(Cases[tid].ev) /\ tid' = tid /\ (Open \/ Next1 \/ After)
        /\ LET done == ph' = "end" \/ r + M >= Rep
           IN /\ l' = IF done THEN l + 1 ELSE l
              /\ r' = IF done THEN 0 ELSE r + M
              /\ Fin(Cases[tid].id, done /\ l = Len(Cases[tid].ev))
Spec == Init /\ [][Step]_vars
View == << tid, l, r >>
=============================================================================
