SPECIFICATION TSpec
INVARIANT Done
