SPECIFICATION Spec
CONSTANT Scope = "small"
VIEW View
INVARIANT TypeOK
INVARIANT Sound
INVARIANT Levels
PROPERTY Immutable
PROPERTY WriteOnce
CHECK_DEADLOCK FALSE
