SPECIFICATION Spec
INVARIANTS Exact Tight
