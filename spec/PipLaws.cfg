INIT LInit
NEXT LNext
VIEW LView
CHECK_DEADLOCK FALSE
CONSTANTS
  K = 1
  Limit = 3000
INVARIANTS
  Law
  ScopesMatchCalls
  OneSegPerRead
PROPERTIES
  LOutGrows
