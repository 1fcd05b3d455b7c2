SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT NonNegative NothingFree Devices Sums IfParts
PROPERTY Grows Additive Seamless
