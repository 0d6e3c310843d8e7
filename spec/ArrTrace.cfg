SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- RBegin
  Why <- RWhy
  Post <- RPost
CHECK_DEADLOCK FALSE
