SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- OBegin
  Why <- OWhy
  Post <- OPost
CHECK_DEADLOCK FALSE
