CONSTANTS
    Byte = {}
    MaxLen = 0
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
