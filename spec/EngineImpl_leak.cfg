CONSTANTS
    Scope = 1
    Wrong = "leak"
    NoiseData = 0
SPECIFICATION Spec
INVARIANT Right
PROPERTY Implements
VIEW View
CHECK_DEADLOCK FALSE
