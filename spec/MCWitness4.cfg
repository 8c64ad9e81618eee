SPECIFICATION Spec
CONSTANTS N = 4
 W = {1, 3}
 WM = 5
 Limits = {2, 3}
 Counts = {1, 99}
 Into = FALSE
 MaxAsks = 2
INVARIANTS Real SettledExact Attained AnswerBound AnswerTells NeverMissed NoIdle
CHECK_DEADLOCK FALSE
