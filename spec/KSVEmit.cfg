INIT NoInit
NEXT NoNext
CHECK_DEADLOCK FALSE
