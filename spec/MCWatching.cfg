SPECIFICATION MCSpec
VIEW WatView
PROPERTY Props
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
