SPECIFICATION Spec
CONSTANTS
  MaxPop = 2
  Big3 = FALSE
INVARIANTS TypeOK Total Conservation ConvCriterion OkCriterion Guaranteed
PROPERTIES Refines Terminates
CHECK_DEADLOCK FALSE
