SPECIFICATION MCSpec
VIEW AdView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
