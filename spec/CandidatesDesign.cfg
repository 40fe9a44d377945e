SPECIFICATION Spec
CONSTANTS MaxTime = 5  MaxCands = 4
INVARIANTS Disjoint Justified NoReachBack BestKept
