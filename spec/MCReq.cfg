SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Depth = 7
  Mem = 1
VIEW View
INVARIANTS TypeOk C01_Authenticated C02_Order C02_Progress C08_Within C09_Highest C12_Kept C18_Recorded
PROPERTIES C07_Terminal
CHECK_DEADLOCK FALSE
