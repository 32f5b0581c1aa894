SPECIFICATION Spec
CONSTANTS MaxT = 11
          MinShift = 1
          MaxShift = 9
INVARIANT CostAgrees CostTable CostGaps CostEither PickAgrees Total
CHECK_DEADLOCK FALSE
