INIT IInit
NEXT NNext
CHECK_DEADLOCK FALSE
