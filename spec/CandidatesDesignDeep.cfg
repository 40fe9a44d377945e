SPECIFICATION Spec
CONSTANTS MaxTime = 6  MaxCands = 5
INVARIANTS Disjoint Justified NoReachBack BestKept
