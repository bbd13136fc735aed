CONSTANTS NI = 1 LEN = 5
SPECIFICATION MSpec
INVARIANTS Inv_Output Inv_Ancillary Inv_Progress Inv_Boundary Inv_Clean
