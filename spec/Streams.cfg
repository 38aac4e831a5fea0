SPECIFICATION Spec
CONSTANT Tol = 96
CONSTANT NoiseData <- Noise
CHECK_DEADLOCK FALSE
