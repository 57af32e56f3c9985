SPECIFICATION Spec
CONSTANTS MaxDegree = 4 MaxDen = 3
INVARIANTS Unity Flat Symmetric First Vanish Mono Convert Lifting Leibniz Coefficients Facets
CHECK_DEADLOCK FALSE
