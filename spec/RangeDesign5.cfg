CONSTANT P = 5
SPECIFICATION Spec
INVARIANT UnarySound BinarySound
