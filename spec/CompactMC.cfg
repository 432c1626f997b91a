SPECIFICATION Spec
INVARIANTS Exact Passes Blocks Neutral
