SPECIFICATION Spec
CONSTANT Scope = "small"
INVARIANTS Containment Monotone PartialOrder Unions Memberships Levels
CHECK_DEADLOCK FALSE
