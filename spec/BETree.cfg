SPECIFICATION Spec
INVARIANTS Exact Once Placed Formed Early Cached Sound
CHECK_DEADLOCK FALSE
