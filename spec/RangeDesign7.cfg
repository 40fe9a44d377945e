CONSTANT P = 7
SPECIFICATION Spec
INVARIANT UnarySound BinarySound
