SPECIFICATION Spec
CONSTANTS
  Emit = FALSE
  Depth = 7
  Mem = 1
VIEW View
INVARIANTS TypeOk C06_HistoryFree C03_Order C05_Attests C08_Selects C09_Versions C12_Identity C18_Honoured C14_Decodes
PROPERTIES C07_Terminal
CHECK_DEADLOCK FALSE
