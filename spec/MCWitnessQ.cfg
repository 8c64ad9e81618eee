SPECIFICATION Spec
CONSTANTS N = 3
 W = {1, 3}
 WM = 5
 Limits = {1, 2, 3}
 Counts = {0, 1, 2, 99}
 Into = TRUE
 MaxAsks = 2
INVARIANTS Real SettledExact Attained AnswerBound AnswerTells NeverMissed NoIdle
CHECK_DEADLOCK FALSE
