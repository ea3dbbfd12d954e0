SPECIFICATION Spec
INVARIANTS Emit Clear
