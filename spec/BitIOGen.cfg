SPECIFICATION GSpec
CONSTANT Depth = 12
