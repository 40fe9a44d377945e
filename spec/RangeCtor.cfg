CONSTANT P <- PEnv
SPECIFICATION Spec
INVARIANT NoViolation
