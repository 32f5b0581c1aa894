------------------------------ MODULE Renoise -------------------------------
(***************************************************************************)
(* What a Renoise song document (doc_version 65) may contain: the element  *)
(* vocabulary of Renoise's schema (renoise65.json, see harness/mkschema).  *)
(* A document is given by its shape: for every element path below the root *)
(*   << path, kinds of content found there, texts found there (if few) >>  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Json

Schema == JsonDeserialize("renoise65.json")
Types  == Schema.types
Unknown == [k |-> "unknown"]
Child(def, tag) == CASE def.k = "any" -> def
                     [] def.k = "node" -> IF tag \in DOMAIN Types[def.t] THEN Types[def.t][tag]
                                          ELSE Unknown
                     [] OTHER -> Unknown
RECURSIVE Def(_)
Def(path) == IF path = << >> THEN [k |-> "node", t |-> Schema.root]
             ELSE Child(Def(SubSeq(path, 1, Len(path) - 1)), path[Len(path)])

Kinds2(x) == {x[2][i] : i \in 1..Len(x[2])}
Texts(x)  == {x[3][i] : i \in 1..Len(x[3])}
PathOk(x) == LET d == Def(x[1])  ks == Kinds2(x) IN
  CASE d.k = "any"   -> TRUE
    [] d.k = "node"  -> ks \subseteq {"node", "empty"}
    [] d.k = "int"   -> ks = {"int"}
    [] d.k = "float" -> ks \subseteq {"int", "float"}
    [] d.k = "bool"  -> ks = {"bool"}
    [] d.k = "text"  -> "node" \notin ks /\ "mixed" \notin ks
    [] d.k = "enum"  -> "node" \notin ks /\ Texts(x) \subseteq {d.v[i] : i \in 1..Len(d.v)}
    [] OTHER         -> FALSE
DocumentOk(shape) == \A i \in 1..Len(shape) : PathOk(shape[i])

\* every track can be heard: none switched off, muted or drowned by a solo
Last1(q) == q[Len(q)]
OfTrack(q) == Len(q) = 3 /\ q[1] = "Tracks"
Audible(shape) == \A i \in 1..Len(shape) : LET q == shape[i][1] IN
  /\ OfTrack(q) /\ Last1(q) = "State"  => Texts(shape[i]) \subseteq {"Active"}
  /\ OfTrack(q) /\ Last1(q) = "Soloed" => Texts(shape[i]) \subseteq {"false"}
  /\ Last1(q) # "MutedTrack"

\* nothing in the document moves, hides or changes what the cells say: patterns
\* are 64 lines long, tracks show their own lines, no delay, volume, effect or
\* shuffle is put on them
Means(q) == LET n == Last1(q) IN
  CASE q = << "PatternPool", "Patterns", "Pattern", "NumberOfLines" >> -> {"64"}
    [] n = "AliasPatternIndex"                   -> {"-1"}
    [] n = "ShuffleIsActive"                     -> {"false"}
    [] n = "TrackDelay"                          -> {"0", "0.0"}
    [] q[1] = "PatternPool" /\ n = "Volume"      -> {"", ".."}
    [] q[1] = "PatternPool" /\ n \in {"Delay", "EffectNumber", "EffectValue", "Number", "Value"}
                                                 -> {"", "..", "00"}
    [] OTHER -> {}
Plain(shape) == \A i \in 1..Len(shape) : LET m == Means(shape[i][1]) IN
  m = {} \/ Texts(shape[i]) \subseteq m
=============================================================================
