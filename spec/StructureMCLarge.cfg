SPECIFICATION Spec
CONSTANT Scope = "large"
INVARIANTS Containment Monotone PartialOrder Unions Memberships Levels
CHECK_DEADLOCK FALSE
