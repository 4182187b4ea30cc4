SPECIFICATION MSpec
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
