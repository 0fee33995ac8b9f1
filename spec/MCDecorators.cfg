SPECIFICATION MCSpec
VIEW DecView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
