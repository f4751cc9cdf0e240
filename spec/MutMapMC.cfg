SPECIFICATION Spec
CONSTANTS
  K = {1, 2}
  V = {1, 2}
  MaxCells = 4
  MaxObjs = 3
INVARIANTS TypeOK Injective After
PROPERTY Frame
CHECK_DEADLOCK FALSE
