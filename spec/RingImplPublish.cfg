CONSTANTS
    Caps = {1, 2, 3}
    Byte = {0, 1}
    MaxLen = 3
    PublishFirst = TRUE
    OffByOne = FALSE
SPECIFICATION Spec
INVARIANT Bounded
PROPERTY Implements
CHECK_DEADLOCK FALSE
