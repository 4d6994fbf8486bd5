INIT TInit
NEXT TNext
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  K = 1
  Limit = 4000
  Patience = 500
INVARIANTS
  ScopesMatchCalls
  BaseScopeBetween
  OneSegPerRead
  ReadsOrdered
  TEndsKnown
PROPERTIES
  TOutGrows
  TInputShrinks
