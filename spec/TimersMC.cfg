SPECIFICATION Spec
CONSTANT Ids = {1, 2}
INVARIANTS Depth Silence Indentation Skips
PROPERTY Ended
CHECK_DEADLOCK FALSE
