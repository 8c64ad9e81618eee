SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4, 5, 6, 8}
 Weights = {1, 3}
 WM = 1000
INVARIANTS ClosedForm RouteForm
CHECK_DEADLOCK FALSE
