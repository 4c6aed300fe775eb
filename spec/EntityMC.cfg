SPECIFICATION Spec
CONSTANTS
  Ent = {1}
  CfgIds = {1}
  Hs = {0, 1, 2}
  Vals <- MCVals
  SetStates <- MCSet
  Printing = FALSE
VIEW view
CONSTRAINT Bound
PROPERTIES C01 C02 C03 C04 C05 C06 C07 C08 C10
CHECK_DEADLOCK FALSE
