CONSTANT Lens = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANTS Monotone Scale Rev
