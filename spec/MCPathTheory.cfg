SPECIFICATION Spec
CONSTANTS N = 3
 W = {1, 2, 3}
 WM = 5
INVARIANTS DistancesAgree CertificationComplete CertificationSound TightMeansExact AdjacencyRight Triangle Identity Positive
CHECK_DEADLOCK FALSE
