SPECIFICATION Spec
CONSTANTS MaxMsgs = 4
  MaxLen = 3
INVARIANTS InOrder OnlyComplete ErrOnlyIfBad NothingLost
CHECK_DEADLOCK FALSE
