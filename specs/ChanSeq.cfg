SPECIFICATION Spec
CONSTANTS NCH = 1
 CAPS = {0, 1, 2, 3}
 MAXV = 6
 DEPTH = 10
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT EmitEdge
INVARIANTS Fifo Capacity
PROPERTY ClosedForGood
CHECK_DEADLOCK FALSE
