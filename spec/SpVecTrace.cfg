SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- SBegin
  Why <- SWhy
  Post <- SPost
CHECK_DEADLOCK FALSE
