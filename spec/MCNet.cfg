SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Depth = 8
  Budget = 2
  Focus = FALSE
VIEW View
INVARIANTS TypeOk C01_Agreement C01_Fresh C04_Same C11_Completes C08_Agreed C05_Keys
CHECK_DEADLOCK FALSE
