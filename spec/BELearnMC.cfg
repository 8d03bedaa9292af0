SPECIFICATION Spec
INVARIANTS Again Commute Ordered Alike Numbered
PROPERTY Outwards
CHECK_DEADLOCK FALSE
