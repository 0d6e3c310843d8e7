SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- CBegin
  Why <- CWhy
  Post <- CPost
CHECK_DEADLOCK FALSE
