SPECIFICATION Spec
CONSTANT Bufs <- MBufs
CONSTANT Widths <- MWidths
INVARIANT Inv
INVARIANT Split
PROPERTY NeverBack
