SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- FBegin
  Why <- FWhy
  Post <- FPost
CHECK_DEADLOCK FALSE
