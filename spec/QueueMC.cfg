SPECIFICATION MCSpec
CONSTANTS NQ = 2
 NU = 1
 NC = 3
INVARIANTS TypeOK NoneStuck OutcomeDetermined ExactlyOnce Ordered EffectIffDone
PROPERTY Monotone
CHECK_DEADLOCK FALSE
