SPECIFICATION Spec
INVARIANT NoViolation
