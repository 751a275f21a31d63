SPECIFICATION Spec
CONSTANTS X0 = 0 Y0 = 0 YBIAS = 0 CW = 4 CH = 4 NX = 2 NY = 2 CIRC = 64 MaxDepth = 2 MaxOps = 4
INVARIANTS TypeOK Tiling DepthBound GraphExact Symmetric CornerUnique
CHECK_DEADLOCK FALSE
