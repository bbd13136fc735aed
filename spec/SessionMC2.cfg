CONSTANTS NI = 2 LEN = 2
SPECIFICATION MSpec
INVARIANTS Inv_Output Inv_Ancillary Inv_Progress Inv_Boundary Inv_Clean
