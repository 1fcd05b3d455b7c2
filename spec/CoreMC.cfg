SPECIFICATION Spec
INVARIANT Counts Partition NonNegative PerCycle Occupied PowerState QueryTransparent RankAlone QueueSorted
PROPERTY Monotone
CHECK_DEADLOCK FALSE
