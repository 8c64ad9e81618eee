SPECIFICATION Spec
CONSTANTS N = 3
 W = {1, 2, 3}
 WM = 5
 Limits = {1, 2, 3, 4}
 Counts = {0, 1, 2, 3, 99}
 Into = TRUE
 MaxAsks = 3
INVARIANTS Real SettledExact Attained AnswerBound AnswerTells NeverMissed NoIdle
CHECK_DEADLOCK FALSE
