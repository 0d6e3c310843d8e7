SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- UBegin
  Why <- UWhy
  Post <- UPost
CHECK_DEADLOCK FALSE
