SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- HBegin
  Why <- HWhy
  Post <- HPost
CHECK_DEADLOCK FALSE
