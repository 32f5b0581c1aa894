---------------------------- MODULE EstimatorMC -----------------------------
(***************************************************************************)
(* The row-length estimate.  Tracker states the number of unmatched ticks  *)
(* of a shift declaratively (Cost); an implementation walks two sorted     *)
(* lists with two pointers until either is exhausted.  Both are compared   *)
(* for every set of tick times below MaxT and every shift, and the choice  *)
(* "shortest best" is compared with sorting the shifts by cost.            *)
(***************************************************************************)
EXTENDS Tracker
CONSTANTS MaxT, MinShift, MaxShift
VARIABLES T, k
Init == T = {} /\ k = 0
Next == k < MaxT /\ k' = k + 1 /\ (T' = T \/ T' = T \cup {k})
Spec == Init /\ [][Next]_<< T, k >>

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN << m >> \o SortedSeq(S \ {m})
\* two pointers; stops as soon as one list is exhausted
RECURSIVE Walk(_, _, _, _, _)
Walk(q, d, i, j, n) ==
  IF i > Len(q) \/ j > Len(q) THEN n
  ELSE IF q[i] < q[j] + d THEN Walk(q, d, i + 1, j, n + 1)
  ELSE IF q[j] + d < q[i] THEN Walk(q, d, i, j + 1, n + 1)
  ELSE Walk(q, d, i + 1, j + 1, n)
WalkCost(d) == Walk(SortedSeq(T), d, 1, 1, 0)
CostAgrees == k = MaxT => \A d \in MinShift..MaxShift : WalkCost(d) = Cost(T, d)
\* the table-driven count used for trace checking is the same number
CostTable == k = MaxT => \A d \in MinShift..MaxShift :
               CostBy(T, TickTable(T, MaxShift), MaxShift, Top(T), d) = Cost(T, d)
\* and so is the count on the gaps, and whichever of the two is taken
CostGaps == k = MaxT /\ T # {} => \A d \in MinShift..MaxShift :
  CostByGaps(Cardinality(T), Gaps(T), GapTable(Gaps(T), MaxShift, Top(T)), MaxShift, Top(T), d) = Cost(T, d)
CostEither == k = MaxT => Costs(T, MinShift, MaxShift) = [d \in MinShift..MaxShift |-> Cost(T, d)]
\* the shifts in order of cost, ties by length; the first is the answer
RECURSIVE Best(_, _)
Best(d, b) == IF d > MaxShift THEN b
              ELSE Best(d + 1, IF WalkCost(d) < WalkCost(b) THEN d ELSE b)
PickAgrees == k = MaxT =>
  LET m == CHOOSE x \in {Cost(T, d) : d \in MinShift..MaxShift} :
             \A d \in MinShift..MaxShift : x <= Cost(T, d)
      best == {d \in MinShift..MaxShift : Cost(T, d) = m}
  IN Best(MinShift, MinShift) = CHOOSE d \in best : \A e \in best : d <= e
\* an empty or single-tick rhythm still has an answer
Total == k = MaxT /\ Cardinality(T) <= 1 => Best(MinShift, MinShift) = MinShift
=============================================================================
