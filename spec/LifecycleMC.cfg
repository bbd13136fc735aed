CONSTANTS NI = 2 NREQ = 4 STEPS = 7
SPECIFICATION LSpec
INVARIANTS Inv_Once Inv_Return Inv_Whole
PROPERTY Prop_Only
