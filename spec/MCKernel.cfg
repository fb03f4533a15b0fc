SPECIFICATION Spec
CONSTANTS Cubes <- MCCubes
INVARIANTS OrbitsAreShapes EqualDistanceIsCoarser CentreIsFixed Equivariant
CHECK_DEADLOCK FALSE
