SPECIFICATION TLSpec
CONSTANTS
  BeginSt <- DBegin
  Why <- DWhy
  Post <- DPost
CHECK_DEADLOCK FALSE
