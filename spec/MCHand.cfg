SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Depth = 6
  Mem = 0
VIEW View
INVARIANTS C12_Slot C01_Authenticated C02_Awaited
PROPERTIES C07_Terminal
CHECK_DEADLOCK FALSE
