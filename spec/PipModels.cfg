INIT MInit
NEXT MNext
VIEW MView
CHECK_DEADLOCK FALSE
CONSTANTS
  K = 1
  Limit = 500
INVARIANTS
  LawOfRuns
  ScopesMatchCalls
  BaseScopeBetween
  OneSegPerRead
  ReadsOrdered
PROPERTIES
  MOutGrows
