SPECIFICATION Spec
CONSTANTS MaxT = 15
          MinShift = 1
          MaxShift = 13
INVARIANT CostAgrees CostTable CostGaps CostEither PickAgrees Total
CHECK_DEADLOCK FALSE
