SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- LBegin
  Why <- LWhy
  Post <- LPost
CHECK_DEADLOCK FALSE
