SPECIFICATION Spec
CONSTANTS N = 4
 W = {1}
 WM = 3
INVARIANTS DistancesAgree CertificationComplete CertificationSound TightMeansExact AdjacencyRight Triangle Identity Positive
CHECK_DEADLOCK FALSE
