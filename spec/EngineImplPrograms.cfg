CONSTANTS
    Scope = 1
    Wrong = "none"
    NoiseData = 0
INIT Init
NEXT Reset_
CHECK_DEADLOCK FALSE
