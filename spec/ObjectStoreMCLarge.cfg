SPECIFICATION Spec
CONSTANT Scope = "large"
VIEW View
INVARIANT TypeOK
INVARIANT Sound
INVARIANT Levels
PROPERTY Immutable
PROPERTY WriteOnce
CHECK_DEADLOCK FALSE
