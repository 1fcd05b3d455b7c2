SPECIFICATION Spec
INVARIANT Inv
PROPERTY Mono
CHECK_DEADLOCK FALSE
