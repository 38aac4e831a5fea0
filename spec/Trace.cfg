SPECIFICATION Spec
CONSTANT Tol = 96
CONSTANT NoiseData <- Streams
CHECK_DEADLOCK FALSE
